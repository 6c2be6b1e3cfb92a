From 1f26e055a30082fe14b1803fd0a27f8051c2b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 01/51] fix: don't hang when an unreachable block feeds a phi
 node

A value used through a phi node only matters on the predecessors that can be
reached. Intersecting the dominator tree with an unreachable predecessor
never terminated, e.g. for 'do { ...; break; } while (f());'.
---
 src/ir/global_code_motion.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index 5244ca2..c44ad76 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -45,10 +45,11 @@ static void schedule_user_late(struct node *ins, struct node *y,
 		struct node *block = y->arguments[0];
 		assert(block->type == IR_REGION);
 
-		if (y->arguments[1] == ins)
+		// Values only arriving from an unreachable predecessor don't matter.
+		if (y->arguments[1] == ins && block->arguments[0]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[0]);
 
-		if (y->arguments[2] == ins)
+		if (y->arguments[2] == ins && block->arguments[1]->block_info.idom)
 			*lca = intersect(*lca, block->arguments[1]);
 	} else {
 		*lca = intersect(*lca, use);
-- 
2.43.0


From cd186b2a2b68e5984cde0c4dbc925f4d86ea07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 02/51] fix: keep track of continue in a switch and of case
 labels in a loop

The copies of the jump targets made for the body of a switch or a loop dropped
updates to the targets which belong to the enclosing statement. A continue in
a switch could give the loop a third predecessor, and case labels in loops
were lost.
---
 src/parser/function_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..1ab54f3 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -176,6 +176,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	// Parse body
 	parse_statement(&new_jump_blocks);
 
+	// A continue in the body belongs to the enclosing loop.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
 	else
@@ -231,6 +234,12 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 	}
 }
 
+// Case labels in the body of a loop belong to the enclosing switch.
+static void keep_switch_labels(struct jump_blocks *jump_blocks, struct jump_blocks *loop_jump_blocks) {
+	jump_blocks->block_entry = loop_jump_blocks->block_entry;
+	jump_blocks->block_default = loop_jump_blocks->block_default;
+}
+
 static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_KDO))
 		return 0;
@@ -246,6 +255,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -315,6 +325,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -395,6 +406,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From 04edfebe49e13d4033aa6f50dd90d9ce1da42f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 03/51] fix: a default label followed by its statement is a
 single statement

'switch (n) default: a(); b();' parsed b() as part of the switch.
---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 1ab54f3..881c7f4 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -119,6 +119,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From c1c62449cc997bbecd96a57f7c9c3799638ae66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 04/51] fix: use unsigned division for unsigned operands

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From 2e3a46596828b13433eebf99d6064345eb62ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 05/51] fix: the result of a comparison has the size of an int

Comparisons of 8 byte operands gave an 8 byte node, and storing it wrote past
the int it was stored to.
---
 src/ir/ir.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..aa5df31 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -549,7 +549,12 @@ struct node *ir_imod(struct node *lhs, struct node *rhs) {
 }
 
 struct node *ir_equal(struct node *lhs, struct node *rhs) {
-	return ir_new2(IR_EQUAL, lhs, rhs, lhs->size);
+	return ir_new2(IR_EQUAL, lhs, rhs, calculate_size(type_simple(ST_INT)));
+}
+
+static int is_comparison(int type) {
+	return (type >= IR_LESS && type <= IR_NOT_EQUAL) ||
+		(type >= IR_FLT_LESS && type <= IR_FLT_NOT_EQUAL);
 }
 
 struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
@@ -561,6 +566,8 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
 		return ir_imod(lhs, rhs);
+	if (is_comparison(type)) // Always of type int.
+		return ir_new2(type, lhs, rhs, calculate_size(type_simple(ST_INT)));
 	return ir_new2(type, lhs, rhs, lhs->size);
 }
 
-- 
2.43.0


From 3a86822344517f485cc0df6b87026439ad845a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 06/51] fix: comparisons of floating values with NaN

<, <= and == were true and != was false when an operand was a NaN, since the
flags which ucomiss sets for unordered operands weren't considered.
---
 src/codegen/binary_operators.h | 104 ++++++++++++++++++++-------------
 src/codegen/codegen.c          |   4 +-
 2 files changed, 67 insertions(+), 41 deletions(-)

diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..a641ca9 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -21,12 +21,26 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
+// ucomiss sets the carry flag for unordered operands, so that only `seta` and
+// `setnb` are false for them.
+#define BINARY_COMP_FLT_32(MNEMONIC, A, B) {		\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+		{"ucomiss", {XMM_(B), XMM_(A)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+// Compares in both directions, and combines the results.
+#define BINARY_EQ_FLT_32(MNEMONIC, COMBINE) {		\
 		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
 		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
-		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
 		{"ucomiss", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"ucomiss", {XMM_(0), XMM_(1)}},		\
+		{MNEMONIC, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS_64(MNEMONIC) {						\
@@ -46,78 +60,90 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
+#define BINARY_COMP_FLT_64(MNEMONIC, A, B) {		\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(B), XMM_(A)}},		\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQ_FLT_64(MNEMONIC, COMBINE) {		\
 		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
 		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
 		{"ucomisd", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"ucomisd", {XMM_(0), XMM_(1)}},		\
+		{MNEMONIC, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT(M, A, B) BINARY_COMP_FLT_32(M, A, B), BINARY_COMP_FLT_64(M, A, B)
+#define BINARY_EQ_FLT(M, C) BINARY_EQ_FLT_32(M, C), BINARY_EQ_FLT_64(M, C)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][8] = {
+	[IR_ADD] = &(struct asm_instruction [2][8]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][8]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][8]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][8]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][8]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][8]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][8]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][8]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][8]) { BINARY_COMP_FLT("setnb", 0, 1) },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQ_FLT("setnb", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][8]) { BINARY_EQ_FLT("setb", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..5e4a1ff 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][8] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 8 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From a354f83a37412779525ef00d909d2767e2da4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 07/51] fix: compare conditions with zero in their own type

The conditions of loops were converted to int, so that 0.5 and 1L << 32 were
false, and the other conditions tested the bits of floating values, so that
-0.0 was true. In constants float and double were mixed up.
---
 src/parser/expression.c       |  4 ++--
 src/parser/expression_to_ir.c | 15 +++++++++++++--
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..847bfd5 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1101,9 +1101,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..a448681 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -133,6 +133,11 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
+		// -0.0 is false, so the bits of a floating value can't be tested directly.
+		if (type_is_floating(operand_type)) {
+			struct constant zero = { .type = CONSTANT_TYPE, .data_type = operand_type };
+			operand_var = ir_binary_op(IR_FLT_NOT_EQUAL, operand_var, ir_constant(zero));
+		}
 		res = ir_bool_cast(operand_var);
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
@@ -534,8 +539,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
-	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = expression_to_condition(expr->args[0]);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -750,6 +754,13 @@ struct node *expression_to_int(struct expr *expr) {
 	return res;
 }
 
+// Whether the (scalar) expression compares unequal to 0.
+struct node *expression_to_condition(struct expr *expr) {
+	struct evaluated_expression ee = expression_evaluate(expr);
+	ee = evaluated_expression_cast(&ee, type_simple(ST_BOOL));
+	return evaluated_expression_to_var(&ee);
+}
+
 void expression_to_void(struct expr *expr) {
 	expression_evaluate(expr);
 }
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..33fecc7 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,6 +10,7 @@ struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
 struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 881c7f4..8658460 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -199,7 +199,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -268,7 +268,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -312,7 +312,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -380,7 +380,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 0b85012f6911e0725f1d6dd5d505badd8c6fdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 08/51] fix: switch on values wider than int

The controlling expression and the case constants were converted to int
instead of to the promoted type of the controlling expression.
---
 src/parser/function_parser.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8658460..7e969f6 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -156,7 +158,12 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// See 6.8.4.2p5, the integer promotions are performed on the controlling expression.
+	condition = EXPR_UNARY_OP(UOP_PLUS, condition);
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Controlling expression of switch doesn't have integer type");
+
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -172,6 +179,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From 0d06a3da9a1588ea6f575dfe228a279427c024eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 09/51] fix: the right operand doesn't affect the type of <<=
 and >>=

'int a; a >>= 1u' was a logical shift, as the usual arithmetic conversions were
applied.
---
 src/parser/expression.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 847bfd5..8306fce 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,14 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The promoted operands are not converted to a common type.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
+
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From f0fb507f41386bb255e949892897e590bf7207c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:35 +0000
Subject: [PATCH 10/51] fix: a non-void function can end without return

Everything after the last return was dropped and control ran into ud2, even
though the value of the function call wasn't used.
---
 src/parser/function_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 7e969f6..80d69ba 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -551,7 +551,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
+		// Reaching the end of a function without returning a value
+		// is allowed if the value isn't used.
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
-- 
2.43.0


From 3041c661bf500e086c5a772767db0574bec3ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:58 +0000
Subject: [PATCH 11/51] fix: keep the side effects of loops without exit

Only what a return depends on was kept, so that 'l: f(); goto l;' became an
empty loop.
---
 src/ir/ir.c                |  7 +++++++
 src/optimize/remove_dead.c | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index aa5df31..39fb3ff 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -811,6 +811,13 @@ void ir_seal_blocks(void) {
 	for (size_t i = 0; i < seal_size; i++) {
 		seal_block(seals[i]);
 	}
+
+	// The side effects in a loop without exit aren't needed by any return,
+	// give every block a state from which they can be found.
+	for (size_t i = 0; i < seal_size; i++) {
+		set_current_function(seals[i]->parent_function);
+		read_state(seals[i]);
+	}
 }
 
 int node_is_control(struct node *node) {
diff --git a/src/optimize/remove_dead.c b/src/optimize/remove_dead.c
index e6085c0..91c36c4 100644
--- a/src/optimize/remove_dead.c
+++ b/src/optimize/remove_dead.c
@@ -36,6 +36,16 @@ void recurse_mark_useful(struct node *node) {
 	}
 }
 
+// Side effects before and in a loop without exit are not used by a return.
+static void mark_state_useful(struct node *region) {
+	for (unsigned i = 0; i < region->use_size; i++) {
+		struct node *use = region->uses[i];
+
+		if (use->type == IR_PHI && use->size == 0)
+			recurse_mark_useful(use);
+	}
+}
+
 void prune_dead_nodes(void) {
 	struct node **nodes;
 	size_t size;
@@ -63,8 +73,10 @@ void optimize_remove_dead(void) {
 
 		if (node->type == IR_RETURN)
 			recurse_mark_useful(node);
-		else if (node->type == IR_REGION)
+		else if (node->type == IR_REGION) {
 			recurse_mark_useful(node);
+			mark_state_useful(node);
+		}
 	}
 
 	for (unsigned i = 0; i < size; i++) {
-- 
2.43.0


From fc6187b995d0983045aa394e97b21a03bf4fc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 12/51] fix: phi nodes of a block are assigned in parallel

Swapping two variables in a loop gave both the same value, since a phi node
was written before another one had read its previous value.
---
 src/codegen/codegen.c | 58 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 5e4a1ff..d2d225a 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -503,28 +503,47 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
+static struct node *phi_get_source(struct node *phi, struct node *current_block) {
+	struct node *region = phi->arguments[0];
+
+	if (current_block == region->arguments[0])
+		return phi->arguments[1];
+	else if (current_block == region->arguments[1])
+		return phi->arguments[2];
+
+	ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
+		region->index,
+		current_block->index,
+		region->arguments[0]->index, region->arguments[1]->index);
+}
+
 static void codegen_phi_node(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	// All phi nodes of a block change at the same time. If one of them is the
+	// source of another one, all sources are read before the first write.
+	int is_parallel = 0;
 	for (unsigned i = 0; i < next_block->use_size; i++) {
 		struct node *ins = next_block->uses[i];
 
 		if (ins->type != IR_PHI || ins->size == 0)
 			continue;
 
-		struct node *source_var;
+		struct node *source_var = phi_get_source(ins, current_block);
 
-		if (current_block == next_block->arguments[0]) {
-			source_var = ins->arguments[1];
-		} else if (current_block == next_block->arguments[1]) {
-			source_var = ins->arguments[2];
-		} else {
-			ICE("Phi node in %d reachable from invalid block %d (not %d or %d)",
-				next_block,
-				current_block,
-				next_block->arguments[0], next_block->arguments[1]);
-		}
+		if (source_var && source_var->type == IR_PHI && source_var != ins &&
+			source_var->arguments[0] == next_block)
+			is_parallel = 1;
+	}
+
+	for (unsigned i = 0; i < next_block->use_size; i++) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0)
+			continue;
+
+		struct node *source_var = phi_get_source(ins, current_block);
 
 		if (!source_var)
 			continue;
@@ -535,6 +554,23 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
 		scalar_to_reg(source_var, REG_RAX);
+		if (is_parallel)
+			asm_ins1("pushq", R8(REG_RAX));
+		else
+			reg_to_scalar(REG_RAX, ins);
+	}
+
+	if (!is_parallel)
+		return;
+
+	for (int i = (int)next_block->use_size - 1; i >= 0; i--) {
+		struct node *ins = next_block->uses[i];
+
+		if (ins->type != IR_PHI || ins->size == 0 ||
+			!phi_get_source(ins, current_block))
+			continue;
+
+		asm_ins1("popq", R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	}
 }
-- 
2.43.0


From 06c27378bd682594f74183c5d9ed4f021b5de127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:52 +0000
Subject: [PATCH 13/51] fix: a phi node doesn't depend on values of its own
 block

---
 src/ir/ir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 39fb3ff..995dce6 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -750,7 +750,8 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 
 	node->visited = 5;
 
-	for (unsigned i = 0; i < IR_MAX; i++) {
+	// The arguments of a phi node arrive from the preceding blocks.
+	for (unsigned i = 0; i < IR_MAX && node->type != IR_PHI; i++) {
 		struct node *arg = node->arguments[i];
 
 		if (arg && arg->block == node->block)
-- 
2.43.0


From 9bcb9548ad153afeca4f984bba4802db8fde2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:50 +0000
Subject: [PATCH 14/51] fix: don't move a load below a change of the state it
 reads

---
 src/ir/global_code_motion.c | 10 ++++++++++
 src/ir/ir.c                 |  5 +++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index c44ad76..ca3f802 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -76,6 +76,16 @@ static void schedule_late(struct node *ins) {
 		}
 	}
 
+	// A load must come before the state it reads from is changed.
+	if (ins->type == IR_LOAD && lca) {
+		struct node *state = ins->arguments[1];
+		for (unsigned i = 0; i < state->use_size; i++) {
+			struct node *use = state->uses[i];
+			if (use->type == IR_PHI || node_get_prev_state(use) == state)
+				schedule_user_late(state, use, &lca);
+		}
+	}
+
 	for (unsigned i = 0; i < ins->use_size; i++) {
 		struct node *use = ins->uses[i];
 		if (use->type == IR_PROJECT) {
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 995dce6..0ecc51e 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -762,11 +762,12 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 	// uses of the state that is consumed.
 
 	struct node *prev_state = node_get_prev_state(node);
-	if (prev_state && prev_state->block && prev_state->block == node->block) {
+	if (prev_state) {
 		for (unsigned i = 0; i < prev_state->use_size; i++) {
 			struct node *use = prev_state->uses[i];
 
-			ir_local_schedule_recursive(use, end, first);
+			if (use->block == node->block)
+				ir_local_schedule_recursive(use, end, first);
 		}
 	}
 
-- 
2.43.0


From 36953fe5a4098f1cdbc6fb76dd3f15b4e1f18b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 15/51] fix: conversion of a constant to _Bool

---
 src/arch/x64.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..c374cac 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,6 +507,19 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
+	if (target == ST_BOOL) {
+		// See 6.3.1.2, everything that isn't equal to 0 becomes 1.
+		int value;
+		if (from_type == ST_DOUBLE)
+			value = from.double_d != 0;
+		else if (from_type == ST_FLOAT)
+			value = from.float_d != 0;
+		else
+			value = from.uint_d != 0;
+		from.uint_d = value;
+		return from;
+	}
+
 	if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
-- 
2.43.0


From 387a678ba81b404808d35cbeae43d4ea9df23343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 16/51] fix: an enumerator has type int

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..825962b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -250,6 +250,13 @@ static int parse_enumerator(struct constant *prev, int first) {
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
 
 		val = *ret;
+
+		// See 6.7.2.2p3, an enumerator has type int.
+		if (val.type == CONSTANT_TYPE && type_is_integer(val.data_type)) {
+			struct constant as_int = constant_cast(val, type_simple(ENUM_TYPE));
+			if (constant_to_u64(as_int) == constant_to_u64(val))
+				val = as_int;
+		}
 	} else {
 		if (!first)
 			val = constant_increment(*prev);
-- 
2.43.0


From d79c6c2ab86e25e27631ea36ba4932175d6aeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 17/51] fix: division by zero and unevaluated operands in
 constant expressions

---
 src/ir/operators.c      |  7 ++++++-
 src/parser/expression.c | 19 +++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..9fee051 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -90,7 +90,9 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
 		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		// Undefined division, the host would trap.
+		if ((op == OP_DIV || op == OP_MOD) &&
+			(rhs.int_d == 0 || (rhs.int_d == -1 && lhs.int_d == INT64_MIN)))
 			return 0;
 
 		switch (op) {
@@ -113,6 +115,9 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && !is_signed(st)) {
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		int sign = 0;
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 8306fce..a807b81 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1019,24 +1019,19 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_CONDITIONAL: {
-		struct constant lhs, mid, rhs;
+		struct constant lhs;
 		if (!evaluate_constant_expression(expr->args[0], &lhs))
 			return 0;
-		if (!evaluate_constant_expression(expr->args[1], &mid))
-			return 0;
-		if (!evaluate_constant_expression(expr->args[2], &rhs))
+
+		if (lhs.type != CONSTANT_TYPE)
 			return 0;
 
-		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+		// The operand that isn't selected isn't evaluated.
+		if (!evaluate_constant_expression(expr->args[constant_is_zero(&lhs) ? 2 : 1], constant))
 			return 0;
 
-		if (constant_is_zero(&lhs)) {
-			*constant = rhs;
-		} else {
-			*constant = mid;
-		}
+		if (constant->type == CONSTANT_LABEL)
+			return 0;
 	} break;
 
 	case E_ADDRESS_OF: {
-- 
2.43.0


From 5d8516596cc7f9d56a7789307ab988c7f5f461d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 18/51] fix: conversions between floating and signed char,
 short and unsigned long

---
 src/codegen/codegen.c         | 52 ++++++++++++++++++++++++++++++++---
 src/debug.c                   |  1 +
 src/ir/ir.c                   |  5 ++--
 src/ir/ir.h                   |  3 +-
 src/parser/expression_to_ir.c |  2 +-
 5 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index d2d225a..2062a75 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -361,9 +361,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
@@ -388,13 +388,31 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzbl", R1(REG_RAX), R4(REG_RAX));
 		} else if (size_rhs == 2) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
+		} else if (size_rhs == 8) {
+			// cvtsi2s* is signed: halve values with the top bit set (keeping the
+			// lowest bit for rounding), and multiply the result by two.
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RDX));
+			asm_ins2("andq", R8(REG_RCX), R8(REG_RDX));
+			asm_ins2("shrq", R1(REG_RCX), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
+			asm_ins2("addq", IMM(1), R8(REG_RCX));
 		}
 
 		if (size_result == 4) {
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("cvtsi2ss", R8(REG_RCX), XMM(1));
+				asm_ins2("mulss", XMM(1), XMM(0));
+			}
 			asm_ins2("movd", XMM(0), R4(REG_RAX));
 		} else if (size_result == 8) {
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
+			if (size_rhs == 8) {
+				asm_ins2("cvtsi2sd", R8(REG_RCX), XMM(1));
+				asm_ins2("mulsd", XMM(1), XMM(0));
+			}
 			asm_ins2("movq", XMM(0), R8(REG_RAX));
 		} else {
 			NOTIMP();
@@ -405,8 +423,6 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	case IR_FLOAT_INT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
 			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
@@ -417,6 +433,34 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
+	case IR_FLOAT_UINT_CAST: {
+		scalar_to_reg(ins->arguments[0], REG_RAX);
+		int size_rhs = ins->arguments[0]->size;
+		// cvtts*2si is signed: values from 2^63 give the sign bit, and the
+		// other bits are those of the value less 2^63.
+		if (size_rhs == 4) {
+			asm_ins2("movd", R4(REG_RAX), XMM(0));
+			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
+			asm_ins2("movl", IMM(0x5f000000), R4(REG_RCX));
+			asm_ins2("movd", R4(REG_RCX), XMM(1));
+			asm_ins2("subss", XMM(1), XMM(0));
+			asm_ins2("cvttss2si", XMM(0), R8(REG_RDX));
+		} else if (size_rhs == 8) {
+			asm_ins2("movd", R8(REG_RAX), XMM(0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
+			asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RCX));
+			asm_ins2("movd", R8(REG_RCX), XMM(1));
+			asm_ins2("subsd", XMM(1), XMM(0));
+			asm_ins2("cvttsd2si", XMM(0), R8(REG_RDX));
+		}
+		asm_ins2("movq", R8(REG_RAX), R8(REG_RSI));
+		asm_ins2("movq", IMM(63), R8(REG_RCX));
+		asm_ins2("sarq", R1(REG_RCX), R8(REG_RSI));
+		asm_ins2("andq", R8(REG_RSI), R8(REG_RDX));
+		asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
+		reg_to_scalar(REG_RAX, ins);
+	} break;
+
 	case IR_VA_START:
 		abi_emit_va_start(ins->arguments[0], func);
 		break;
diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..8efcc1c 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -121,6 +121,7 @@ const char *dbg_instruction(struct node *ins) {
 	case IR_INT_FLOAT_CAST: str = "int_float_cast %d"; break;
 	case IR_UINT_FLOAT_CAST: str = "uint_float_cast %d"; break;
 	case IR_FLOAT_INT_CAST: str = "float_int_cast %d"; break;
+	case IR_FLOAT_UINT_CAST: str = "float_uint_cast %d"; break;
 	case IR_VA_START: str = "va_start %d"; break;
 	case IR_ADD: str = "%d + %d"; break;
 	case IR_SUB: str = "%d - %d"; break;
diff --git a/src/ir/ir.c b/src/ir/ir.c
index 0ecc51e..04cbee2 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -462,8 +462,9 @@ struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_
 	return ir_new1(is_signed ? IR_INT_FLOAT_CAST : IR_UINT_FLOAT_CAST, operand, target_size);
 }
 
-struct node *ir_cast_float_to_int(struct node *operand, int target_size) {
-	return ir_new1(IR_FLOAT_INT_CAST, operand, target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed) {
+	// Every value of a narrower unsigned type is a value of the signed 64 bit conversion.
+	return ir_new1(!is_signed && target_size == 8 ? IR_FLOAT_UINT_CAST : IR_FLOAT_INT_CAST, operand, target_size);
 }
 
 struct node *ir_binary_not(struct node *operand) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..bdfe9bd 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -60,6 +60,7 @@ struct node {
 		IR_FLOAT_CAST,
 		IR_INT_FLOAT_CAST,
 		IR_FLOAT_INT_CAST,
+		IR_FLOAT_UINT_CAST,
 		IR_UINT_FLOAT_CAST,
 		IR_SET_ZERO_PTR,
 		IR_VA_START,
@@ -255,7 +256,7 @@ struct node *ir_phi(struct node *var_a, struct node *var_b);
 struct node *ir_bool_cast(struct node *operand);
 struct node *ir_cast_int(struct node *operand, int target_size, int sign_extend);
 struct node *ir_cast_float(struct node *operand, int target_size);
-struct node *ir_cast_float_to_int(struct node *operand, int target_size);
+struct node *ir_cast_float_to_int(struct node *operand, int target_size, int is_signed);
 struct node *ir_cast_int_to_float(struct node *operand, int target_size, int is_signed);
 
 struct node *ir_binary_not(struct node *operand);
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index a448681..901c24d 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -150,7 +150,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 	} else if(type_is_floating(resulting_type) && type_is_integer(operand_type)) {
 		res = ir_cast_int_to_float(operand_var, calculate_size(resulting_type), is_signed(operand_type->simple));
 	} else if(type_is_integer(resulting_type) && type_is_floating(operand_type)) {
-		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type));
+		res = ir_cast_float_to_int(operand_var, calculate_size(resulting_type), is_signed(resulting_type->simple));
 	}
 
 	return res;
-- 
2.43.0


From b7d8ac07702cc5bd86551bc6e74ae8f96b9c1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:08 +0000
Subject: [PATCH 19/51] fix: string_set_insert keeps hide sets sorted

---
 src/preprocessor/string_set.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/string_set.c b/src/preprocessor/string_set.c
index a0dbc58..4056809 100644
--- a/src/preprocessor/string_set.c
+++ b/src/preprocessor/string_set.c
@@ -81,11 +81,11 @@ void string_set_insert(struct string_set *a, char *str) {
 
 	int s = 0, cmp = 0;
 	for (; s < a->size; s++) {
-		if ((cmp = strcmp(a->strings[s], str)) <= 0)
+		if ((cmp = strcmp(a->strings[s], str)) >= 0)
 			break;
 	}
 
-	if (cmp == 0)
+	if (s < a->size && cmp == 0)
 		return;
 
 	string_set_append(a, NULL);
-- 
2.43.0


From 2e28fc061d64fcfe8af2e1718cf2f78daa099e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:09 +0000
Subject: [PATCH 20/51] fix: push_macro and pop_macro of macros that are not
 defined

---
 src/preprocessor/directives.c | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..578c808 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -26,8 +26,12 @@ static const char *new_path = NULL;
 static int line_diff = 0;
 
 struct macro_stack {
+	struct string_view name;
 	size_t size, cap;
-	struct define *defines;
+	struct macro_stack_entry {
+		int is_defined; // The macro can be undefined when it is pushed.
+		struct define define;
+	} *entries;
 };
 
 static size_t macro_stack_size, macro_stack_cap;
@@ -403,41 +407,48 @@ static int directiver_evaluate_conditional(struct token dir) {
 	ERROR(dir.pos, "Invalid conditional directive");
 }
 
-static void push_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
+static struct macro_stack *get_macro_stack(struct string_view name) {
 	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
+		if (sv_cmp(macro_stacks[i].name, name))
+			return &macro_stacks[i];
 	}
 
+	return NULL;
+}
+
+static void push_macro(struct string_view name) {
+	struct macro_stack *stack = get_macro_stack(name);
+
 	if (!stack) {
 		stack = &ADD_ELEMENT(macro_stack_size, macro_stack_cap, macro_stacks);
-		*stack = (struct macro_stack) { 0 };
+		*stack = (struct macro_stack) { .name = name };
 	}
 
 	struct define *current_define = define_map_get(name);
-	if (current_define)
-		ADD_ELEMENT(stack->size, stack->cap, stack->defines) = *current_define;
+	struct macro_stack_entry entry = { 0 };
+	if (current_define) {
+		entry.is_defined = 1;
+		entry.define = *current_define;
+	}
+	ADD_ELEMENT(stack->size, stack->cap, stack->entries) = entry;
 }
 
 static void pop_macro(struct string_view name) {
-	struct macro_stack *stack = NULL;
-	for (unsigned i = 0; i < macro_stack_size; i++) {
-		if (macro_stacks[i].size &&
-			sv_cmp(macro_stacks[i].defines[0].name, name)) {
-			stack = &macro_stacks[i];
-		}
-	}
+	struct macro_stack *stack = get_macro_stack(name);
 
 	if (!stack)
 		return;
 
-	define_map_add(stack->defines[--stack->size]);
+	struct macro_stack_entry entry = stack->entries[--stack->size];
+	if (entry.is_defined)
+		define_map_add(entry.define);
+	else
+		define_map_remove(name);
 
-	if (!stack->size)
+	if (!stack->size) {
+		free(stack->entries);
 		REMOVE_ELEMENT(macro_stack_size, macro_stacks, stack - macro_stacks);
+	}
 }
 
 static int directiver_handle_pragma(void) {
-- 
2.43.0


From 9788dec4408c284c88fc22b5c8dbb4f0211cca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 21/51] fix: empty macro arguments, operands of ## and #
 outside function-like macros

---
 src/preprocessor/macro_expander.c | 130 +++++++++++++++---------------
 1 file changed, 67 insertions(+), 63 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..561d814 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -141,6 +141,10 @@ ttype paste_table[][3] = {
 	{T_AMP, T_A, T_BANDA},
 	{T_AMP, T_AMP, T_AND},
 	{PP_HASH, PP_HASH, PP_HHASH}, // This is just stupid...
+	{T_IDENT, T_STRING, T_STRING}, // Prefixes of literals.
+	{T_IDENT, T_CHARACTER_CONSTANT, T_CHARACTER_CONSTANT},
+	{T_NUM, T_DOT, T_NUM},
+	{T_DOT, T_NUM, T_NUM},
 };
 
 static struct token glue(struct token a, struct token b) {
@@ -318,17 +322,20 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	return t.type == T_RPAR;
 }
 
-static void expand_argument(struct token origin, struct token_list tl, int *concat_with_prev, int concat, int stringify, int input) {
+// Pushes the tokens of an argument. An operand of ## is not expanded, and is glued to the
+// token to its right if glue_with_prev is set.
+static void expand_argument(struct token origin, struct token_list tl, int glue_with_prev, int raw, int input) {
 	int start_it = tl.size - 1;
 
-	if (*concat_with_prev && tl.size) {
+	if (glue_with_prev && tl.size) {
 		struct token *end = input_buffer_top(input);
 		*end = glue(*end, tl.list[start_it--]);
+
+		if (start_it < 0)
+			end->whitespace = end->whitespace || origin.whitespace;
 	}
 
-	int run_expand_again = 0;
-	if (!(concat || stringify)) {
-		run_expand_again = 1;
+	if (!raw) {
 		struct token t = { .type = T_EOI };
 		input_buffer_push(&t);
 	}
@@ -342,7 +349,7 @@ static void expand_argument(struct token origin, struct token_list tl, int *conc
 		input_buffer_push(&t);
 	}
 
-	if (run_expand_again) {
+	if (!raw) {
 		size_t output_pos = output_buffer.size;
 		expand_buffer(input, 0, NULL);
 
@@ -399,72 +406,69 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 	for(int i = def->def.size - 1; i >= 0; i--) {
 		struct token t = def->def.list[i];
 
-		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
+		// # is only an operator in function-like macros.
+		const int stringify = def->func && (i != 0) && def->def.list[i - 1].type == PP_HASH;
+		const int start = stringify ? i - 1 : i;
+		const int concat = (start != 0) && def->def.list[start - 1].type == PP_HHASH;
+		// An operand of ## is used as it is, other arguments are expanded.
+		const int raw = concat || (i + 1 < def->def.size && def->def.list[i + 1].type == PP_HHASH);
+		int empty = 0;
 
 		if (t.type == PP_HHASH)
 			ERROR(t.pos, "Concat token at edge of macro expansion.");
 
-		if (sv_string_cmp(t.str, "__VA_ARGS__")) {
-			const int va_args_paste = concat && i - 2 >= 0 &&
-				def->def.list[i - 2].type == T_COMMA;
-
-			if (va_args_paste && !vararg_included) {
-				i--; // There is an additional i-- at the end of the loop.
-			} else if (stringify) {
-				struct token_list tl = vararg;
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
+		const int is_vararg = def->vararg && sv_string_cmp(t.str, "__VA_ARGS__");
+		const int idx = get_param(def, t);
+
+		if (is_vararg && concat && i - 2 >= 0 &&
+			def->def.list[i - 2].type == T_COMMA) {
+			// The comma is dropped if there are no variable arguments.
+			if (vararg_included)
+				expand_argument(t, vararg, concat_with_prev, raw, input);
+			i -= vararg_included ? 1 : 2;
+			concat_with_prev = 0;
+			continue;
+		} else if (stringify) {
+			if (!is_vararg && idx < 0)
+				ERROR(t.pos, "# Should be followed by macro parameter");
+
+			struct token_list tl = is_vararg ? vararg : arguments[idx];
+			stringify_start();
+
+			for(int j = 0; j < tl.size; j++)
+				stringify_add(tl.list + j, j == 0);
+
+			struct token t_new = t;
+			t_new.type = T_STRING;
+			t_new.str = stringify_end();
+			t_new.whitespace = def->def.list[start].whitespace;
+
+			if (concat_with_prev) {
+				struct token *end = input_buffer_top(input);
+				*end = glue(*end, t_new);
+			} else {
 				input_buffer_push(&t_new);
-			} else if (vararg_included) {
-				expand_argument(t, vararg, &concat_with_prev, concat, stringify, input);
-				
-				if (vararg.size)
-					concat_with_prev = !va_args_paste && concat;
 			}
+		} else if (is_vararg || idx >= 0) {
+			struct token_list tl = is_vararg ? vararg : arguments[idx];
+
+			expand_argument(t, tl, concat_with_prev, raw, input);
+			empty = !tl.size;
+		} else if (concat_with_prev) {
+			struct token *end = input_buffer_top(input);
+			*end = glue(*end, t);
 		} else {
-			const int idx = get_param(def, t);
-			if (idx >= 0 && stringify) {
-				struct token_list tl = arguments[idx];
-				stringify_start();
-
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if(idx >= 0) {
-				expand_argument(t, arguments[idx], &concat_with_prev, concat, stringify, input);
-
-				if (arguments[idx].size)
-					concat_with_prev = concat;
-			} else {
-				if (concat_with_prev) {
-					struct token *end = input_buffer_top(input);
-					*end = glue(*end, t);
-					concat_with_prev = 0;
-				} else if (stringify) {
-					ERROR(t.pos, "# Should be followed by macro parameter");
-				} else {
-					t.pos = new_pos;
-					input_buffer_push(&t);
-				}
-
-				if (concat)
-					concat_with_prev = 1;
-			}
+			t.pos = new_pos;
+			input_buffer_push(&t);
 		}
 
-		if (concat || stringify)
-			i--;
+		// An empty argument is a placemarker, pasting it leaves the other operand.
+		if (!concat)
+			concat_with_prev = 0;
+		else if (!empty)
+			concat_with_prev = 1;
+
+		i = concat ? start - 1 : start;
 	}
 
 	for(int i = 0; i < n_args; i++) {
-- 
2.43.0


From d6e59948436eb21628a675a65f54c4c72e9e8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 22/51] fix: stray characters are allowed in skipped groups

---
 src/preprocessor/string_concat.c | 3 +++
 src/preprocessor/tokenizer.c     | 2 +-
 src/preprocessor/tokens.h        | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..0eba0c4 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -203,6 +203,9 @@ struct token string_concat_next(void) {
 		return ret;
 	}
 
+	if (t.type == PP_OTHER)
+		ERROR(t.pos, "Invalid token");
+
 	if (t.type == T_IDENT) {
 		t.type = get_ident(t.str);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..8185464 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -462,7 +462,7 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	default: TYPE(PP_OTHER); break;
 	}
 
 	next.str = (struct string_view){
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..da12727 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Stray character") // Only allowed in skipped groups.
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From 0f5941d3abfed0281cfaf0d769ca77ae575c0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 23/51] fix: value of wide character constants in #if

---
 src/preprocessor/string_concat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index 0eba0c4..f484656 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -250,5 +250,13 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 		.str = buffer
 	};
 
+	if (type == STRING_L || type == STRING_U_LARGE || type == STRING_U_SMALL) {
+		uint32_t value = 0;
+		for (int i = tmp_view.len - 1; i >= 0; i--)
+			value = value << 8 | (unsigned char)tmp_view.str[i];
+
+		return type == STRING_L ? (intmax_t)(int32_t)value : (intmax_t)value;
+	}
+
 	return character_constant_to_int(tmp_view);
 }
-- 
2.43.0


From 79a9479a4dd08d005caee675a10e96499e3984be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:37 +0000
Subject: [PATCH 24/51] fix: unbalanced conditional directives, types in
 controlling expressions, ~ in #if

---
 src/preprocessor/directives.c | 114 ++++++++++++++++++++++++++--------
 1 file changed, 89 insertions(+), 25 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 578c808..8792628 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -17,9 +17,18 @@ struct tokenized_file {
 	struct token pushed[3];
 
 	const char *path;
+	int cond_base; // Number of conditionals open in the including files.
 	struct tokenized_file *parent;
 };
 
+struct conditional {
+	int state; // 1: group is processed, 0: no group processed yet, -1: the rest is skipped.
+	int has_else;
+};
+
+static int cond_stack_n = 0, cond_stack_cap = 0;
+static struct conditional *cond_stack = NULL;
+
 static struct tokenized_file *current_file;
 
 static const char *new_path = NULL;
@@ -64,6 +73,8 @@ void directiver_reset(void) {
 	line_diff = 0;
 	current_file = NULL;
 
+	cond_stack_n = 0;
+
 	macro_stack_size = macro_stack_cap = 0;
 	free(macro_stacks);
 	macro_stacks = NULL;
@@ -90,6 +101,7 @@ void directiver_push_input(const char *path, int system) {
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
 			.path = strdup(new_input.path),
+			.cond_base = cond_stack_n,
 		});
 }
 
@@ -97,13 +109,20 @@ static struct token next(void);
 
 static struct token next_from_stack(void) {
 	if (current_file->token_idx == current_file->tokens.size) {
+		if (cond_stack_n > current_file->cond_base) {
+			struct position pos = { .path = current_file->path };
+			if (current_file->tokens.size)
+				pos = current_file->tokens.list[current_file->tokens.size - 1].pos;
+			ERROR(pos, "Unterminated conditional directive");
+		}
+
 		if (current_file->parent) {
 			token_list_free(&current_file->tokens);
 			current_file = current_file->parent;
 			return next();
 		}
 
-		return (struct token ) { .type = T_EOI };
+		return (struct token ) { .type = T_EOI, .first_of_line = 1 };
 	}
 
 	return current_file->tokens.list[current_file->token_idx++];
@@ -221,6 +240,11 @@ void check_div_overflow(struct token *t,
 								? result_signed(OP (EXPR).i)	\
 								: result_unsigned(OP (EXPR).u))
 
+// The type of a shift is that of its left operand.
+#define RESULT_SHIFT(OP, LHS, RHS) ((LHS).is_signed						\
+									? result_signed((LHS).i OP (RHS).u)	\
+									: result_unsigned((LHS).u OP (RHS).u))
+
 #define RESULT_BINARY(OP, LHS, RHS) ((LHS).is_signed					\
 									 ? result_signed((LHS).i OP (RHS).i) \
 									 : result_unsigned((LHS).u OP (RHS).u))
@@ -242,7 +266,10 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		expr = RESULT_UNARY(-, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
+	} else if (t.type == T_BNOT) {
+		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
@@ -255,10 +282,16 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
+		// All signed types have the range of intmax_t here, so only a
+		// suffix or the value itself can make the constant unsigned.
+		uintmax_t value = is_signed(c.data_type->simple) ? (uintmax_t)c.int_d : c.uint_d;
+		int unsigned_suffix = 0;
+		for (int i = 0; i < t.str.len; i++)
+			unsigned_suffix |= t.str.str[i] == 'u' || t.str.str[i] == 'U';
+		if (unsigned_suffix || value > INTMAX_MAX)
+			expr = result_unsigned(value);
 		else
-			expr = result_unsigned(c.uint_d);
+			expr = result_signed(value);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
 		expr = result_signed(escaped_character_constant_to_int(t));
 	} else {
@@ -273,9 +306,13 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(colon.pos, "Expected :, got %s", dbg_token_type(colon.type));
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
+			int is_signed = mid.is_signed && rhs.is_signed;
 			expr = !result_is_zero(expr) ? mid : rhs;
+			if (!is_signed)
+				expr = result_unsigned(expr.u);
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
@@ -287,7 +324,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
 			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
+			if (t.type == T_LSHIFT || t.type == T_RSHIFT)
+				;
+			else if (rhs.is_signed && !expr.is_signed)
 				rhs = result_unsigned(rhs.i);
 			else if (!rhs.is_signed && expr.is_signed)
 				expr = result_unsigned(expr.i);
@@ -303,8 +342,8 @@ static struct result evaluate_expression(int prec, int evaluate) {
 				case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
 				case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
 				case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
-				case T_LSHIFT: expr = RESULT_BINARY(<<, expr, rhs); break;
-				case T_RSHIFT: expr = RESULT_BINARY(>>, expr, rhs); break;
+				case T_LSHIFT: expr = RESULT_SHIFT(<<, expr, rhs); break;
+				case T_RSHIFT: expr = RESULT_SHIFT(>>, expr, rhs); break;
 				case T_ADD: expr = RESULT_BINARY(+, expr, rhs); break;
 				case T_SUB: expr = RESULT_BINARY(-, expr, rhs); break;
 				case T_STAR: expr = RESULT_BINARY(*, expr, rhs); break;
@@ -319,6 +358,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 				default:
 					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
 				}
+			} else if (t.type == T_EQ || t.type == T_NEQ || t.type == T_LEQ ||
+					   t.type == T_GEQ || t.type == T_L || t.type == T_G) {
+				expr = result_signed(0); // Only the type matters.
 			}
 		}
 
@@ -364,7 +406,13 @@ static struct result evaluate_until_newline(void) {
 	token_list_add(&buffer, (struct token) { .type = T_EOI });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(end.pos, "Unexpected %s in preprocessor expression.", dbg_token(&end));
+
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
@@ -496,16 +544,25 @@ static int directiver_handle_pragma(void) {
 	return 0;
 }
 
-struct token directiver_next(void) {
-	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
+static int is_skipping(void) {
+	return cond_stack_n && cond_stack[cond_stack_n - 1].state != 1;
+}
+
+static void push_conditional(int state) {
+	ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = (struct conditional) { .state = state };
+}
 
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
+// The innermost conditional of the current file.
+static struct conditional *top_conditional(struct token directive) {
+	if (cond_stack_n <= current_file->cond_base)
+		ERROR(directive.pos, "#%.*s without #if", directive.str.len, directive.str.str);
+	return &cond_stack[cond_stack_n - 1];
+}
 
+struct token directiver_next(void) {
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || is_skipping()) &&
 		!pass_directive) {
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
@@ -518,8 +575,7 @@ struct token directiver_next(void) {
 			continue;
 		}
 
-		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+		if (directive.type != T_IDENT && is_skipping()) {
 			t = directive;
 			continue;
 		}
@@ -531,25 +587,33 @@ struct token directiver_next(void) {
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
+			if (!is_skipping()) {
+				// The end of the directive is the end of the file if it's the last line.
+				push_conditional(0);
 				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
+				cond_stack[cond_stack_n - 1].state = result ? 1 : 0;
 			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
+				push_conditional(-1);
 			}
 		} else if (sv_string_cmp(name, "elif") ||
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
 				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
+			struct conditional *cond = top_conditional(directive);
+			if (cond->has_else)
+				ERROR(directive.pos, "#%.*s after #else", directive.str.len, directive.str.str);
+			cond->has_else = sv_string_cmp(name, "else");
+
+			if (cond->state == 0) {
 				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
+				cond->state = result;
 			} else {
-				cond_stack[cond_stack_n - 1] = -1;
+				cond->state = -1;
 			}
 		} else if (sv_string_cmp(name, "endif")) {
+			top_conditional(directive);
 			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+		} else if (!is_skipping()) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-- 
2.43.0


From e45548e6326a600be619f30b7bb536f75a3b3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:45 +0000
Subject: [PATCH 25/51] fix: close comments that end in several asterisks

---
 src/preprocessor/tokenizer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 8185464..84aaaab 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -217,16 +217,16 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
+				if (c == EQ_NULL)
+					ERROR(pos, "Comment reached end of file");
+
+				int is_star = c == '*';
 				next_char();
-				if (c == '*') {
+				if (is_star && c == '/') {
 					next_char();
-					if (c == '/') {
-						next_char();
-						break;
-					}
-				} else if (c == EQ_NULL) {
-					ERROR(pos, "Comment reached end of file");
+					break;
 				}
 			}
 			next.whitespace = 1;
-- 
2.43.0


From 61f4b0b952c84ca2b22f413ae92c319c72d9df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 26/51] fix: hexadecimal escape sequences are in base 16

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From e84c9c373a035ebd8a7a0f588667db2e229ac30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:27 +0000
Subject: [PATCH 27/51] fix: remove line splices from every token that contains
 them

---
 src/preprocessor/tokenizer.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 84aaaab..a762704 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -61,10 +61,12 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
+	// Remove "\\\n" and "\\\r\n":
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
@@ -72,7 +74,11 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 
 	// Replace \Uxxxxxxxx and \uxxxx with decoded unicode.
 	for (write = read = ret_str; *read; read++) {
-		if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
+		if (read[0] == '\\' && read[1] == '\\') {
+			// An escaped backslash does not start a universal character name.
+			*write++ = *read++;
+			*write++ = *read;
+		} else if (read[0] == '\\' && (read[1] == 'u' || read[1] == 'U')) {
 			int n_digits = *++read == 'u' ? 4 : 8;
 
 			uint32_t codepoint = 0;
@@ -103,10 +109,10 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	return sv_from_str(ret_str);
 }
 
-static struct string_view remove_digit_separator(const char *initial_pos) {
-	size_t len = str - initial_pos - 1;
+static struct string_view remove_digit_separator(struct string_view input) {
+	size_t len = input.len;
 	char *ret_str = cc_malloc(len + 1);
-	memcpy(ret_str, initial_pos, len);
+	memcpy(ret_str, input.str, len);
 	ret_str[len] = '\0';
 
 	char *write = ret_str;
@@ -474,7 +480,7 @@ restart:
 		next.str = remove_escape_sequences(initial_pos);
 
 	if (needs_digit_separator_removed)
-		next.str = remove_digit_separator(initial_pos);
+		next.str = remove_digit_separator(next.str);
 
 	if (next.type == T_IDENT && *is_directive) {
 		*is_header = sv_string_cmp(next.str, "include");
-- 
2.43.0


From 2973dc8c4b569455ac579f2830c80679d7745733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 28/51] fix: two dots and a backslash after an identifier are
 separate tokens

---
 src/preprocessor/tokenizer.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index a762704..1a2a9a2 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -176,11 +176,19 @@ static void parse_identifier(void) {
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
 		} else if (c == '\\') {
+			// A backslash that does not start a universal character name is
+			// not part of the identifier.
+			const char *backslash_str = str;
+			struct position backslash_pos = pos;
 			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
+			if (c != 'u' && c != 'U') {
+				c = '\\';
+				str = backslash_str;
+				pos = backslash_pos;
+				break;
 			}
+			next_char();
+			needs_escape_sequences_removed = 1;
 		} else {
 			break;
 		}
@@ -328,13 +336,21 @@ restart:
 			parse_number();
 			break;
 
-		case '.':
+		case '.': {
+			// Two dots that are not followed by a third one are separate tokens.
+			const char *second_str = str;
+			struct position second_pos = pos;
 			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
+			if (c == '.') {
+				TYPE(T_ELLIPSIS);
+			} else {
+				c = '.';
+				str = second_str;
+				pos = second_pos;
+			}
 			break;
 		}
+		}
 		break;
 
 	case '#':
-- 
2.43.0


From df42546535d9459605fd5d71eeb2c065778e8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:22 +0000
Subject: [PATCH 29/51] fix: char16_t strings hold surrogate pairs

---
 src/preprocessor/string_concat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index f484656..fc901eb 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -87,6 +87,13 @@ static int escape_char_to_buffer(struct string_view *input,
 		buffer_write((character >> 24) & 0xff);
 		break;
 	case STRING_U_SMALL:
+		if (end_char == '"' && character > 0xffff) {
+			// UTF-16 surrogate pair.
+			uint32_t high = 0xd800 + ((character - 0x10000) >> 10);
+			buffer_write(high & 0xff);
+			buffer_write((high >> 8) & 0xff);
+			character = 0xdc00 + ((character - 0x10000) & 0x3ff);
+		}
 		buffer_write(character & 0xff);
 		buffer_write((character >> 8) & 0xff);
 		break;
-- 
2.43.0


From d94081f92d04bfce2b73ea6f2d2e1e1efe48733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:37 +0000
Subject: [PATCH 30/51] fix: vertical tab and form feed are white space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 1a2a9a2..7ba7398 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From bc31368d3b43d0e7ed6f824de360680c52a8b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:15 +0000
Subject: [PATCH 31/51] fix: identifiers can start with a universal character
 name

---
 src/preprocessor/tokenizer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 7ba7398..85c2f65 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -484,6 +484,16 @@ restart:
 		next.type = T_EOI;
 		break;
 
+	case '\\':
+		// Identifier that starts with a universal character name.
+		parse_identifier();
+		if (str - 1 != initial_pos) {
+			next.type = T_IDENT;
+		} else {
+			TYPE(PP_OTHER);
+		}
+		break;
+
 	default: TYPE(PP_OTHER); break;
 	}
 
-- 
2.43.0


From 251596729984c9a920b26c9c6a4f586d99e79671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:23 +0000
Subject: [PATCH 32/51] fix: overflow when more than six registers pass
 parameters

---
 src/abi/sysv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..9e6663b 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -11,6 +11,7 @@
 #include <preprocessor/preprocessor.h>
 
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
+enum { MAX_GP_REGS = 6, MAX_SSE_REGS = 8 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
 static struct struct_data *builtin_va_list = NULL;
@@ -77,7 +78,7 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	int shadow_space = 0;
 
 	int current_gp_reg = 0, current_sse_reg = 0;
-	const int max_gp_reg = 6, max_sse_reg = 8;
+	const int max_gp_reg = MAX_GP_REGS, max_sse_reg = MAX_SSE_REGS;
 	if (!type_is_simple(return_type, ST_VOID)) {
 		int n_parts;
 		enum parameter_class classes[4];
@@ -196,7 +197,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_GP_REGS + MAX_SSE_REGS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -291,7 +292,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_GP_REGS + MAX_SSE_REGS];
 
 	struct sysv_data abi_data = { 0 };
 
-- 
2.43.0


From 8b7a10bf242b64067334edadd4920e09543350c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:38 +0000
Subject: [PATCH 33/51] fix: classification of structures for the System V ABI

---
 src/arch/calling.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..ea169a6 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -55,7 +55,7 @@ static void classify_recursively(enum parameter_class *current,
 			struct type *memb_type = data->fields[i].type;
 			int size = calculate_size(memb_type);
 			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -73,7 +73,7 @@ static void classify_recursively(enum parameter_class *current,
 			int size = calculate_size(memb_type);
 			int offset = size * i;
 
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -122,12 +122,10 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
+			// Only vector types (SSE followed by SSEUP) are passed in
+			// registers if they are larger than two eightbytes.
+			if (*n_parts > 2)
+				should_be_mem = 1;
 
 			if (should_be_mem) {
 				*n_parts = 1;
-- 
2.43.0


From 71e8cd36cc273a58f2a852453b5e3d088b49868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:52 +0000
Subject: [PATCH 34/51] fix: return structures in SSE and mixed registers

---
 src/abi/sysv.c | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9e6663b..2a3463b 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -188,11 +188,6 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
-	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
-}
-
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
@@ -378,21 +373,19 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
-	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
-		struct node *value_address = evaluated_expression_to_address(value);
-		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
-	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
 	} else {
-		NOTIMP();
+		struct node *value_address = evaluated_expression_to_address(value);
+		int size = calculate_size(value->data_type);
+		int gp_idx = 0, sse_idx = 0;
+
+		for (int i = 0; i < n_parts; i++) {
+			struct node *part = ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8));
+
+			if (classes[i] == CLASS_SSE || classes[i] == CLASS_SSEUP)
+				*reg_state = ir_set_reg(part, *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(part, *reg_state, return_convention[gp_idx++], 0);
+		}
 	}
 
 unclobber:
-- 
2.43.0


From 0d18d75cd1b8c733e36c3626fc0c8b65e69e9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 35/51] fix: return the address of results in memory in rax

---
 src/abi/sysv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 2a3463b..3e2020d 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -373,6 +373,7 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
 	} else {
 		struct node *value_address = evaluated_expression_to_address(value);
 		int size = calculate_size(value->data_type);
-- 
2.43.0


From b9079629fb923da053921243b75803c5abee1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:35 +0000
Subject: [PATCH 36/51] fix: release the stack space of arguments after calls

---
 src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2062a75..724ce45 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -260,7 +260,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int change = codegen_call_stack_chain(ins->arguments[3]);
 		codegen_set_reg_chain(ins->arguments[2]);
 		codegen_call(ins->arguments[0], ins->call.non_clobbered_register);
-		asm_ins2("addq", IMM(change), R8(REG_RSP));
+		asm_ins2("addq", IMM(-change), R8(REG_RSP));
 		struct node *reg_source = ins->projects[1];
 		if (reg_source)
 			codegen_get_reg_uses(reg_source);
-- 
2.43.0


From 887661af20962f67a9463ef4b8de5cc5b8b78c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 37/51] fix: results in two registers were stored beyond their
 object

---
 src/abi/sysv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 3e2020d..c9c1cb2 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -95,18 +95,21 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 			};
 		} else {
 			int gp_idx = 0, ssa_idx = 0;
+			int return_size = calculate_size(return_type);
 			for (int j = 0; j < n_parts; j++) {
+				int part_size = MIN(return_size - j * 8, 8);
+
 				if (classes[j] == CLASS_SSE || classes[j] == CLASS_SSEUP) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
-						.size = 8,
+						.size = part_size,
 					};
 				} else {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
-						.size = 8,
+						.size = part_size,
 					};
 				}
 			}
-- 
2.43.0


From 54025597d764e3dde88c87d2fb132a8f7d57d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 38/51] fix: floating arguments of variadic functions
 (va_start, va_arg)

---
 src/abi/sysv.c | 76 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index c9c1cb2..e38f188 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -356,6 +356,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = 48 + 16 * c.rax;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -409,6 +410,8 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+	for (int i = 0; i < MAX_SSE_REGS; i++)
+		asm_ins2("movsd", XMM(i), MEM(48 + 16 * i - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -419,7 +422,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -434,21 +437,25 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	classify(type, &n_parts, classes);
 
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
-	int reg_save_area_offset = builtin_va_list->fields[3].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
-	// 1. Determine whether type may be passed in the registers. If not go to step 7
-	scalar_to_reg(va_list, REG_RDI);
+	int reg_save_area_offset = builtin_va_list->fields[3].offset;
+	int size = calculate_size(type);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
+
+	// 1. Determine whether type may be passed in the registers. If not go to step 7
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
+			else if (classes[i] == CLASS_SSE)
+				num_fp++;
 			else
 				NOTIMP();
 		}
@@ -456,12 +463,20 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
-		//     l->fp_offset > 304 − num_fp ∗ 16
+		//     l->fp_offset > 176 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		scalar_to_reg(va_list, REG_RDI);
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(176 - 16 * num_fp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -469,15 +484,37 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// an alignment greater than 8 for general purpose registers and 16 for XMM
 		// registers. [Note: Alignment is largely ignored in this implementation]
 
+		int gp_idx = 0, fp_idx = 0;
+		for (int i = 0; i < n_parts; i++) {
+			int is_fp = classes[i] == CLASS_SSE;
+			int register_offset = is_fp ? 16 * fp_idx++ : 8 * gp_idx++;
+
+			scalar_to_reg(va_list, REG_RDI);
+			asm_ins2("movl", MEM(is_fp ? fp_offset_offset : gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
+			asm_ins2("leaq", MEM(register_offset, REG_RAX), R8(REG_RDI));
+			scalar_to_reg(address, REG_RSI);
+			asm_ins2("leaq", MEM(i * 8, REG_RSI), R8(REG_RSI));
+			codegen_memcpy(MIN(size - i * 8, 8));
+		}
+
 		// 5. Set:
 		// l->gp_offset = l->gp_offset + num_gp ∗ 8
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		scalar_to_reg(va_list, REG_RDI);
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
+			asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
+		}
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("leal", MEM(num_fp * 16, REG_RAX), R4(REG_RDX));
+			asm_ins2("movl", R4(REG_RDX), MEM(fp_offset_offset, REG_RDI));
+		}
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
 	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
@@ -485,22 +522,23 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 
 	// 8. Fetch type from l->overflow_arg_area.
 
+	scalar_to_reg(va_list, REG_RDI);
 	asm_ins2("movq", MEM(overflow_arg_area_offset, REG_RDI), R8(REG_RAX));
 
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
+	asm_ins2("leaq", MEM(round_up_to_nearest(size, 8), REG_RAX), R8(REG_RDX));
 	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
 
-	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
 	// Address is now in %%rax.
 	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
 	scalar_to_reg(address, REG_RSI);
 
-	codegen_memcpy(calculate_size(type));
+	codegen_memcpy(size);
+
+	// 11. Return the fetched type.
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
-- 
2.43.0


From 0b5464f768edf33bfae4ef8a2c7e13c8d0db7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:06 +0000
Subject: [PATCH 39/51] fix: layout of bit-fields and _Alignas members

---
 src/arch/x64.c           | 136 +++++++++++++++++++--------------------
 src/parser/declaration.c |   7 +-
 src/types.h              |   2 +
 3 files changed, 73 insertions(+), 72 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index c374cac..f307baf 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -206,94 +206,90 @@ int calculate_offset(struct type *type, int index) {
 	}
 }
 
-static int calculate_alignment_with_max(struct type *type, int packing) {
-	int alignment = calculate_alignment(type);
-	if (packing == 0)
-		return alignment;
-	if (alignment > packing)
-		return packing;
+static int field_alignment(struct struct_data *data, struct field *field) {
+	int alignment = calculate_alignment(field->type);
+	if (data->packing > 0 && alignment > data->packing)
+		alignment = data->packing;
+	if (field->alignment > alignment)
+		alignment = field->alignment;
 	return alignment;
 }
 
+// Select the bytes that are accessed for bit-fields of packed structs,
+// which might not lie within one aligned unit of their type.
+static void calculate_packed_access(struct struct_data *data, struct field *field) {
+	if (field->bit_offset + field->bitfield > 8 * calculate_size(field->type))
+		field->type = type_simple(is_signed(field->type->simple) ? ST_LLONG : ST_ULLONG);
+
+	int size = calculate_size(field->type);
+	while (field->offset > 0 && field->offset + size > data->size &&
+		   field->bit_offset + 8 + field->bitfield <= 8 * size) {
+		field->offset--;
+		field->bit_offset += 8;
+	}
+}
+
+static long round_up_position(long position, int alignment) {
+	return (position + alignment - 1) / alignment * alignment;
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	long position = 0; // In bits.
+	long end = 0; // In bits.
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-
-		if (data->fields[i].bitfield == 0)
-			continue;
-
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
+		struct field *field = &data->fields[i];
+		int width = field->bitfield;
+		int new_alignment = field_alignment(data, field);
+
+		if (data->is_union)
+			position = 0;
+
+		if (width == -1) {
+			int size = 0;
+			if (i != data->n - 1 || field->type->type != TY_INCOMPLETE_ARRAY) {
+				size = calculate_size(field->type);
+				if (size == -1)
+					ICE("%s has invalid size", dbg_type(field->type));
 			}
 
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
-
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
+			position = round_up_position(position, 8 * new_alignment);
+			field->offset = position / 8;
+			field->bit_offset = 0;
+			position += 8l * size;
 		} else {
-			last_bit_offset = 0;
-		}
+			int unit = 8 * calculate_size(field->type);
+			int unit_alignment = data->is_packed ? 1 : 8 * new_alignment;
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
+			if (width == 0)
+				position = round_up_position(position, 8 * new_alignment);
+			else if (!data->is_packed && position % unit_alignment + width > unit)
+				position = round_up_position(position, unit_alignment);
+
+			if (field->name.len == 0)
+				new_alignment = 1;
+
+			int access_unit = data->packing ? 8 : unit;
+			field->offset = position / access_unit * (access_unit / 8);
+			field->bit_offset = position % access_unit;
+			position += width;
 		}
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
 		if (new_alignment > alignment)
 			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
-		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
-		}
+		if (position > end)
+			end = position;
 	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
-
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_to_nearest((end + 7) / 8, alignment);
 	data->alignment = alignment;
+
+	if (data->packing) {
+		for (int i = 0; i < data->n; i++)
+			if (data->fields[i].bitfield > 0)
+				calculate_packed_access(data, &data->fields[i]);
+	}
 }
 
 struct constant constant_increment(struct constant a) {
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 825962b..e46b851 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -412,7 +412,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.alignment = s.as.alignment
 				};
 
 				TACCEPT(T_COMMA);
@@ -425,7 +426,8 @@ int parse_struct(struct type_specifiers *ts) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-						.bitfield = -1
+						.bitfield = -1,
+						.alignment = s.as.alignment
 					};
 				} else {
 					ERROR(T0->pos, "Anonymous member must be struct or bitfield.");
@@ -465,6 +467,7 @@ int parse_struct(struct type_specifiers *ts) {
 			.is_complete = 1,
 			.is_union = is_union,
 			.packing = get_current_packing(),
+			.is_packed = is_packed,
 
 			.fields = fields,
 
diff --git a/src/types.h b/src/types.h
index 0b65518..45a2e9a 100644
--- a/src/types.h
+++ b/src/types.h
@@ -101,12 +101,14 @@ struct struct_data {
 	int is_complete,
 		is_union;
 	int packing; // 0 if default packing.
+	int is_packed; // Has attribute packed.
 
 	int n;
 	struct field {
 		struct string_view name;
 		struct type *type;
 		int bitfield; // -1 means no bit-field.
+		int alignment; // From _Alignas, 0 if none.
 		int offset;
 		int bit_offset;
 	} *fields;
-- 
2.43.0


From 15726ce8b09b9bd7f4a237aed1273a3398a30b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:17 +0000
Subject: [PATCH 40/51] fix: #pragma pack(pop) restores the previous packing

---
 src/parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..a47283f 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -45,7 +45,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From b5f77603319414bd2cd0de23191f71c06cebf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:27 +0000
Subject: [PATCH 41/51] fix: value of an assignment to a bit-field

---
 src/parser/expression_to_ir.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 901c24d..b5078e1 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -175,11 +175,12 @@ struct evaluated_expression evaluated_expression_cast(struct evaluated_expressio
 	};
 }
 
-static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var) {
+// Returns the value of the assigned object.
+static struct node *assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var) {
 	switch (lhs->type) {
 	case EE_POINTER:
 		ir_store(lhs->pointer, rhs_var);
-		break;
+		return rhs_var;
 
 	case EE_BITFIELD_POINTER: {
 		struct node *prev = ir_load(lhs->bitfield_pointer.pointer, rhs_var->size);
@@ -187,7 +188,10 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 		struct node *new = ir_set_bits(prev, rhs_var, lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield);
 
 		ir_store(lhs->bitfield_pointer.pointer, new);
-	} break;
+
+		return ir_get_bits(new, lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield,
+						   lhs->bitfield_pointer.sign_extend);
+	}
 		
 	default: NOTIMP();
 	}
@@ -492,6 +496,14 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assert(lhs.is_lvalue);
 
+	if (lhs.type == EE_BITFIELD_POINTER) {
+		// The value might not fit in the bit-field.
+		return (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = assign_to_ee(&lhs, evaluated_expression_to_var(&rhs))
+		};
+	}
+
 	assign_ee_to_ee(&lhs, &rhs);
 
 	return rhs;
@@ -524,18 +536,16 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = ir_binary_op(ir_operator, lhs_var, rhs_var);
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
+	struct node *new_var = assign_to_ee(&lhs, lhs_var);
+
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = new_var;
 
-	struct evaluated_expression res = {
+	return (struct evaluated_expression) {
 		.type = EE_VARIABLE,
 		.data_type = operator_type,
 		.variable = res_var
 	};
-
-	assign_to_ee(&lhs, lhs_var);
-
-	return res;
 }
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
-- 
2.43.0


From b2584422d252bc8567ca817424dd30023f6d04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:38 +0000
Subject: [PATCH 42/51] fix: initializer lists follow the current object

---
 src/parser/declaration.c | 448 +++++++++++++++++++++++----------------
 src/parser/expression.c  |  17 +-
 2 files changed, 273 insertions(+), 192 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index e46b851..458d3fb 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,6 +12,7 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 
 // Returns previous state of the bit.
@@ -933,264 +934,337 @@ static int is_string_type(ttype token_type) {
 		token_type == T_STRING_CHAR16 || token_type == T_STRING_CHAR32;
 }
 
-static int match_specific_string(struct type **type, struct initializer *init, struct token string_token,
-								 enum simple_type char_type, ttype token_type) {
-	if (string_token.type != token_type)
+// Does a string literal of token_type initialize an array of this type as a whole?
+static int string_fits(struct type *type, ttype token_type) {
+	if (type->type != TY_ARRAY && type->type != TY_INCOMPLETE_ARRAY)
 		return 0;
 
-	if (((*type)->type == TY_ARRAY || (*type)->type == TY_INCOMPLETE_ARRAY) &&
-		(type_is_simple((*type)->children[0], char_type))) {
-		struct string_view str = string_token.str;
-
-		int braces = TACCEPT(T_LBRACE);
-		TEXPECT(token_type);
-		if (braces)
-			TEXPECT(T_RBRACE);
-
-		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-			struct type complete_array_params = {
-				.type = TY_ARRAY,
-				.array.length = str.len / calculate_size(type_simple(char_type)),
-				.n = 1
-			};
+	struct type *elem = type->children[0];
+	switch (token_type) {
+	case T_STRING: return type_is_simple(elem, ST_CHAR) || type_is_simple(elem, ST_SCHAR) || type_is_simple(elem, ST_UCHAR);
+	case T_STRING_WCHAR: return type_is_simple(elem, abi_info.wchar_type);
+	case T_STRING_CHAR16: return type_is_simple(elem, CHAR16_TYPE);
+	case T_STRING_CHAR32: return type_is_simple(elem, CHAR32_TYPE);
+	default: return 0;
+	}
+}
 
-			*type = type_create(&complete_array_params, (*type)->children);
-		}
+static void parse_initializer_string(struct type **type, struct initializer *init) {
+	struct string_view str = T0->str;
+	t_next();
 
-		init->type = INIT_STRING;
-		init->string = str;
+	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
+		struct type complete_array_params = {
+			.type = TY_ARRAY,
+			.array.length = str.len / calculate_size((*type)->children[0]),
+			.n = 1
+		};
 
-		return 1;
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 
-	return 0;
-}
+	// The terminating null character is only stored if there is room for it.
+	int size = calculate_size(*type);
+	if (str.len > size)
+		str.len = size;
 
-static int match_string(struct type **type, struct initializer *init, struct token string_token) {
-	return match_specific_string(type, init, string_token, ST_CHAR, T_STRING) ||
-		match_specific_string(type, init, string_token, ST_UCHAR, T_STRING) ||
-		match_specific_string(type, init, string_token, ST_SCHAR, T_STRING) ||
-		match_specific_string(type, init, string_token, abi_info.wchar_type, T_STRING_WCHAR) ||
-		match_specific_string(type, init, string_token, CHAR16_TYPE, T_STRING_CHAR16) ||
-		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
+	*init = (struct initializer) { .type = INIT_STRING, .string = str };
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
+// The subobject that the initializer list has reached, as the
+// path that leads to it from the object of the innermost brace.
+struct init_cursor {
+	int size, cap;
+	struct init_level {
+		struct type *type; // Array or struct.
+		struct initializer *init;
+		int idx;
+	} *levels;
+};
 
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
-		*init = (struct initializer) { .type = INIT_BRACE };
+static int same_unqualified_type(struct type *a, struct type *b) {
+	return type_make_const(a, 0) == type_make_const(b, 0);
+}
 
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
+// Next child after idx that can take an initializer, or -1.
+static int next_initialized_child(struct type *type, int idx) {
+	idx++;
+	switch (type->type) {
+	case TY_INCOMPLETE_ARRAY:
+		return idx;
 
-	int max_members = -1;
-	switch ((*type)->type) {
 	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
-	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
-	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
+		return (size_t)idx < type->array.length ? idx : -1;
+
+	case TY_STRUCT: {
+		struct struct_data *data = type->struct_data;
+		for (; idx < data->n; idx++) {
+			struct field f = data->fields[idx];
+			// Unnamed bit-fields are not initialized, and neither is the flexible array member.
+			if ((f.name.len == 0 && f.bitfield != -1) || f.type->type == TY_INCOMPLETE_ARRAY)
+				continue;
+			return idx;
+		}
+		return -1;
 	}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
-
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
+	default: ICE("Invalid type in initializer list");
+	}
+}
 
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+// Make init, which initializes an object of the given type, a list of entries for the children.
+static void initializer_to_brace(struct initializer *init, struct type *type) {
+	if (init->type == INIT_BRACE)
+		return;
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+	struct initializer prev = *init;
+	*init = (struct initializer) { .type = INIT_BRACE };
 
-				TEXPECT(T_IDENT);
+	if (prev.type == INIT_STRING) {
+		struct type *char_type = type->children[0];
+		int size = calculate_size(char_type);
+		for (int i = 0; i < prev.string.len / size; i++) {
+			unsigned long long value = 0;
+			for (int j = size - 1; j >= 0; j--)
+				value = value << 8 | (unsigned char)prev.string.str[i * size + j];
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
-				}
-			} else {
-				break;
-			}
+			*initializer_add_entry(init, i) = (struct initializer) {
+				.type = INIT_EXPRESSION,
+				.expr = expression_cast(EXPR_INT(value), char_type)
+			};
 		}
+	}
+}
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
+static void cursor_push(struct init_cursor *cursor, struct type *type, struct initializer *init, int idx) {
+	initializer_to_brace(init, type);
 
-		if (designator_size) {
-			TEXPECT(T_A);
+	ADD_ELEMENT(cursor->size, cursor->cap, cursor->levels) = (struct init_level) { type, init, idx };
+}
 
-			if (designator_size > 0)
-				idx = designators[0];
+// The subobject that the cursor points to.
+static struct initializer *cursor_select(struct init_cursor *cursor, struct type **type) {
+	struct init_level *level = cursor->levels + cursor->size - 1;
 
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
-			}
+	if (level->type->type == TY_STRUCT && level->type->struct_data->is_union) {
+		// Only one member is stored.
+		for (int i = 0; i < level->init->brace.size; i++) {
+			if (i != level->idx)
+				level->init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
 		}
+	}
 
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
+	*type = type_select(level->type, level->idx);
+	return initializer_add_entry(level->init, level->idx);
+}
 
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
+// Move on to the first child of the current subobject.
+static void cursor_descend(struct init_cursor *cursor) {
+	struct type *type;
+	struct initializer *init = cursor_select(cursor, &type);
 
-		idx++;
+	int first = next_initialized_child(type, -1);
+	if (first == -1)
+		ERROR(T0->pos, "No member of %s to initialize.", strdup(dbg_type(type)));
+	cursor_push(cursor, type, init, first);
+}
 
-		if (inside_brace && idx == max_members)
-			break;
+// Move on to the next subobject, returns zero if nothing is left.
+static int cursor_advance(struct init_cursor *cursor) {
+	while (cursor->size) {
+		struct init_level *level = cursor->levels + cursor->size - 1;
 
-		if (!TACCEPT(T_COMMA))
-			break;
+		if (!(level->type->type == TY_STRUCT && level->type->struct_data->is_union)) {
+			int next = next_initialized_child(level->type, level->idx);
+			if (next != -1) {
+				level->idx = next;
+				return 1;
+			}
+		}
 
-		if (T0->type == T_RBRACE)
-			break;
+		cursor->size--;
 	}
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
+	return 0;
 }
 
-// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
+// Parse the designation "[0].a ="
+static void parse_designation(struct init_cursor *cursor, struct type *type, struct initializer *init) {
+	int first = 1;
+	cursor->size = 0;
 
-// This is tricky and very easy to get wrong.
-// See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
+	while (T0->type == T_LBRACK || T0->type == T_DOT) {
+		if (!first)
+			init = cursor_select(cursor, &type);
+		first = 0;
+
+		if (T0->type == T_LBRACK) {
+			struct position pos = T0->pos;
+			TEXPECT(T_LBRACK);
+			struct expr *expr = parse_expression();
+			if (!expr || !type_is_integer(expr->data_type))
+				ERROR(pos, "Expected integer expression in array designator.");
+			struct constant *c = expression_to_constant(expression_cast(expr, type_simple(ST_ULLONG)));
+			if (!c || c->type != CONSTANT_TYPE)
+				ERROR(pos, "Expected constant expression in array designator.");
+			TEXPECT(T_RBRACK);
+
+			if (type->type != TY_ARRAY && type->type != TY_INCOMPLETE_ARRAY)
+				ERROR(pos, "Array designator for something that is not an array.");
+
+			if (c->uint_d >= (type->type == TY_ARRAY ? (unsigned long long)type->array.length : INT_MAX))
+				ERROR(pos, "Array designator is out of bounds.");
+
+			cursor_push(cursor, type, init, c->uint_d);
+		} else {
+			TEXPECT(T_DOT);
+			int n = 0, *indices = 0;
+			if (!type_search_member(type, T0->str, &n, &indices))
+				ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
+			TEXPECT(T_IDENT);
 
-		if (!TACCEPT(T_COMMA))
-			return;
+			for (int i = n - 1; i >= 0; i--) {
+				cursor_push(cursor, type, init, indices[i]);
+				if (i)
+					init = cursor_select(cursor, &type);
+			}
+		}
+	}
 
-		if (T0->type == T_RBRACE)
-			return;
+	TEXPECT(T_A);
+}
 
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
+// A single expression, within any number of braces unless the object is an aggregate.
+static void parse_initializer_scalar(struct type *type, struct initializer *init) {
+	if (!type_is_aggregate(type) && TACCEPT(T_LBRACE)) {
+		parse_initializer_scalar(type, init);
+		TACCEPT(T_COMMA);
+		TEXPECT(T_RBRACE);
 		return;
 	}
 
-	int is_aggregate = type_is_aggregate(*type);
+	struct position pos = T0->pos;
+	struct expr *expr = parse_assignment_expression();
+	if (!expr)
+		ERROR(pos, "Expected expression in initializer to %s got %s.", strdup(dbg_type(type)), dbg_token(T0));
 
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
+	if (type_is_aggregate(type) && !same_unqualified_type(expr->data_type, type))
+		ERROR(pos, "Error initializing %s\n", strdup(dbg_type(type)));
 
-	if (!expr && is_scalar(*type)) {
-		int has_braces = TACCEPT(T_LBRACE);
+	*init = (struct initializer) {
+		.type = INIT_EXPRESSION,
+		.expr = type_is_aggregate(type) ? expr : expression_cast(expr, type)
+	};
+}
 
-		expr = parse_assignment_expression();
-		if (!expr)
-			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
+static void parse_initializer_braced(struct type **type, struct initializer *init);
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
+// Parse one element of a list, for the subobject at the cursor or the first one
+// inside of it that fits.
+static void parse_initializer_element(struct init_cursor *cursor) {
+	struct type *type;
+	struct initializer *init = cursor_select(cursor, &type);
+
+	if (TACCEPT(T_LBRACE)) {
+		*init = (struct initializer) { .type = INIT_EMPTY };
+		parse_initializer_braced(&type, init);
+		return;
 	}
 
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
+	int is_string = is_string_type(T0->type) && (T1->type == T_COMMA || T1->type == T_RBRACE);
+	if (is_string) {
+		// It is for the first array of characters on the way, if there is one.
+		struct type *t = type;
+		while (type_is_aggregate(t) && !string_fits(t, T0->type)) {
+			int first = next_initialized_child(t, -1);
+			if (first == -1)
+				break;
+			t = type_select(t, first);
+		}
+
+		if (type_is_aggregate(t)) {
+			while (!string_fits(type, T0->type)) {
+				cursor_descend(cursor);
+				init = cursor_select(cursor, &type);
+			}
+
+			parse_initializer_string(&type, init);
+			return;
+		}
 	}
 
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
+	struct position pos = T0->pos;
+	struct expr *expr = parse_assignment_expression();
+	if (!expr)
+		ERROR(pos, "Expected expression in initializer to %s got %s.", strdup(dbg_type(type)), dbg_token(T0));
 
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
+	while (type_is_aggregate(type) && !same_unqualified_type(expr->data_type, type)) {
+		cursor_descend(cursor);
+		init = cursor_select(cursor, &type);
 	}
 
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
+	*init = (struct initializer) {
+		.type = INIT_EXPRESSION,
+		.expr = type_is_aggregate(type) ? expr : expression_cast(expr, type)
+	};
+}
+
+// Parse the initializer list and the closing brace.
+static void parse_initializer_braced(struct type **type, struct initializer *init) {
+	if (!type_is_aggregate(*type)) {
+		parse_initializer_scalar(*type, init);
+		TACCEPT(T_COMMA);
+		TEXPECT(T_RBRACE);
 		return;
 	}
 
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
-		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
-		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
+	if (string_fits(*type, T0->type) && (T1->type == T_COMMA || T1->type == T_RBRACE)) {
+		parse_initializer_string(type, init);
+		TACCEPT(T_COMMA);
+		TEXPECT(T_RBRACE);
+		return;
 	}
 
-	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
-			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
+	struct init_cursor cursor = { 0 };
+	cursor_push(&cursor, *type, init, next_initialized_child(*type, -1));
+
+	do {
+		if (T0->type == T_LBRACK || T0->type == T_DOT)
+			parse_designation(&cursor, *type, init);
+		else if (!cursor.size || cursor.levels[0].idx == -1)
+			ERROR(T0->pos, "Too many elements in the initializer of %s.", strdup(dbg_type(*type)));
+
+		parse_initializer_element(&cursor);
+		cursor_advance(&cursor);
+	} while (TACCEPT(T_COMMA) && T0->type != T_RBRACE);
+
+	free(cursor.levels);
+
+	TEXPECT(T_RBRACE);
 
+	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 		struct type complete_array_params = {
 			.type = TY_ARRAY,
-			.array.length = max_index,
+			.array.length = init->brace.size,
 			.n = 1
 		};
 
-		struct type *ntype = type_create(&complete_array_params, (*type)->children);
-		*type = ntype;
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 }
 
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+
+	if (TACCEPT(T_LBRACE)) {
+		parse_initializer_braced(type, &ret);
+	} else if (string_fits(*type, T0->type)) {
+		parse_initializer_string(type, &ret);
+	} else {
+		parse_initializer_scalar(*type, &ret);
+	}
+
 	return ret;
 }
 
diff --git a/src/parser/expression.c b/src/parser/expression.c
index a807b81..56dfd60 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -515,6 +515,14 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_compound_literal(struct type *type) {
+	struct initializer init = parse_initializer(&type);
+	return expr_new((struct expr) {
+			.type = E_COMPOUND_LITERAL,
+			.compound_literal = { type, init }
+		});
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -522,11 +530,7 @@ static struct expr *parse_prefix(void) {
 		if (cast_type) {
 			TEXPECT(T_RPAR);
 			if (T0->type == T_LBRACE) {
-				struct initializer init = parse_initializer(&cast_type);
-				return expr_new((struct expr) {
-						.type = E_COMPOUND_LITERAL,
-						.compound_literal = { cast_type, init }
-					});
+				return parse_compound_literal(cast_type);
 			} else {
 				struct expr *rhs = parse_pratt(PREFIX_PREC);
 				if (!rhs)
@@ -569,6 +573,9 @@ static struct expr *parse_prefix(void) {
 			type = parse_type_name();
 			if (type) {
 				TEXPECT(T_RPAR);
+				// It might also be the start of a compound literal.
+				if (T0->type == T_LBRACE)
+					type = parse_pratt_with_lhs(PREFIX_PREC, parse_compound_literal(type))->data_type;
 			} else {
 				t_push(t);
 				type = parse_pratt(PREFIX_PREC)->data_type;
-- 
2.43.0


From 190eb8d3a403eb6cfd881bb970be3dab9557a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:27 +0000
Subject: [PATCH 43/51] fix: stale loads in the promotion of objects to values

---
 src/optimize/mem2reg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index dccedd0..075a7b9 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -31,9 +31,12 @@ static struct node *recursive_find(struct node *state, struct node *alloc, int v
 		break;
 
 	case IR_STORE:
-		if (state->arguments[0] == alloc)
+		if (state->arguments[0] == alloc) {
 			ret_value = state->arguments[1];
-		else
+			// This load is about to be replaced as well.
+			if (ret_value->type == IR_LOAD && ret_value->arguments[0] == alloc)
+				ret_value = recursive_find(ret_value->arguments[1], alloc, visit_idx);
+		} else
 			ret_value = recursive_find(state->arguments[2], alloc, visit_idx);
 		break;
 
-- 
2.43.0


From 4510274973764c602a9bd74935ccc6fb4311f381 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 44/51] fix: linkage of redeclarations, extern with
 initializer, inline definitions, tentative arrays

---
 src/parser/declaration.c     | 245 +++++++++++++++++++----------------
 src/parser/function_parser.c |  13 +-
 src/parser/function_parser.h |   2 +-
 src/parser/symbols.h         |  13 +-
 4 files changed, 149 insertions(+), 124 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 458d3fb..f00a981 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1290,6 +1290,60 @@ struct {
 	struct string_view *names;
 } potentially_tentative;
 
+// Declare an identifier with linkage, in the block where it is visible.
+static struct symbol_identifier *declare_linked(struct string_view name, struct type **type, struct specifiers *s, int external) {
+	int is_function = (*type)->type == TY_FUNCTION;
+
+	struct symbol_identifier *symbol = external ?
+		symbols_get_identifier_global(name) : symbols_get_identifier_in_current_scope(name);
+	struct symbol_identifier *prior = symbol ? symbol : symbols_get_identifier(name);
+
+	if (symbol && symbol->linkage == LINKAGE_NONE)
+		ERROR(T0->pos, "%.*s is already declared in this scope.", name.len, name.str);
+
+	if (prior && prior->linkage == LINKAGE_NONE)
+		prior = NULL;
+
+	int linkage = LINKAGE_EXTERNAL;
+	if (s->scs.static_n)
+		linkage = LINKAGE_INTERNAL;
+	else if (prior && (is_function || s->scs.extern_n))
+		linkage = prior->linkage;
+
+	if (symbol && (int)symbol->linkage != linkage)
+		ERROR(T0->pos, "%.*s is declared both static and not static.", name.len, name.str);
+
+	if (prior) {
+		struct type *prev_type = symbols_get_identifier_type(prior);
+		struct type *composite_type = type_make_composite(*type, prev_type);
+
+		if (!composite_type)
+			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
+				  strdup(dbg_type(*type)));
+
+		*type = composite_type;
+	}
+
+	if (!symbol)
+		symbol = external ? symbols_add_identifier_global(name) : symbols_add_identifier(name);
+
+	symbol->linkage = linkage;
+	symbol->type = IDENT_LABEL;
+	symbol->label.name = name;
+	symbol->label.type = *type;
+
+	if (s->as.alignment > symbol->alignment)
+		symbol->alignment = s->as.alignment;
+
+	if (is_function && external && (!s->fs.inline_n || s->scs.extern_n)) {
+		symbol->is_not_inline = 1;
+		if (symbol->function && linkage == LINKAGE_EXTERNAL)
+			symbol->function->function.is_global = 1;
+	}
+
+	return symbol;
+}
+
 static int parse_init_declarator(struct specifiers s, int external, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
@@ -1319,7 +1373,14 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		struct type *declared_type = type;
+		struct symbol_identifier *symbol = declare_linked(name, &declared_type, &s, 1);
+
+		if (symbol->has_definition)
+			ERROR(T0->pos, "%.*s is already defined.", name.len, name.str);
+		symbol->has_definition = 1;
+
+		parse_function(symbol, name, type, arg_n, args);
 		*was_func = 1;
 		return 1;
 	}
@@ -1341,134 +1402,81 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
-	// Check for agreement with previous declarations.
-	struct symbol_identifier *symbol = symbols_get_identifier_in_current_scope(name);
-	int prev_definition = 0;
+	// Functions, objects of file scope and extern objects have linkage.
+	if (type->type == TY_FUNCTION || external || s.scs.extern_n) {
+		if (type->type == TY_FUNCTION && !external && s.scs.static_n)
+			ERROR(T0->pos, "Function declarations outside file-scope can't be static.");
 
-	if (symbol) {
-		prev_definition = symbol->has_definition;
-		struct type *prev_type = symbols_get_identifier_type(symbol);
-		struct type *composite_type = type_make_composite(type, prev_type);
+		struct symbol_identifier *symbol = declare_linked(name, &type, &s, external);
 
-		if (!composite_type)
-			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
-				  strdup(dbg_type(type)));
+		if (s.scs.register_n)
+			symbol->is_register = 1;
 
-		type = composite_type;
-	} else {
-		symbol = symbols_add_identifier(name);
-	}
-	
-	int has_init = TACCEPT(T_A);
+		if (TACCEPT(T_A)) {
+			if (type->type == TY_FUNCTION)
+				ERROR(T0->pos, "Function definition can't have initializer.");
+			if (!external)
+				ERROR(T0->pos, "Extern declaration in a block can't have initializer.");
+			if (symbol->has_definition)
+				ERROR(T0->pos, "%.*s is already defined.", name.len, name.str);
 
-	// Handle function definitions first, since they differ a bit from the others.
-	if (type->type == TY_FUNCTION) {
-		if (has_init)
-			ERROR(T0->pos, "Function definition can't have initializer.");
-		if (!external && s.scs.static_n)
-			ERROR(T0->pos, "Function declarations outside file-scope can't be static.");
+			symbol->has_definition = 1;
+			struct initializer init = parse_initializer(&type);
+			symbol->label.type = type;
 
-		symbol->type = IDENT_LABEL;
-		symbol->label.name = name;
-		symbol->label.type = type;
+			data_register_static_var(name, type, init, symbol->linkage == LINKAGE_EXTERNAL, symbol->alignment);
+		} else if (type->type != TY_FUNCTION && !s.scs.extern_n && !symbol->is_tentative) {
+			symbol->is_tentative = 1;
+			ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
+		}
 
 		return 1;
 	}
 
-	int definition_is_static = 0;
-	int has_definition = 0;
-	int is_global = 0;
-	int is_tentative = 0;
-
-	if (s.scs.extern_n && has_init)
-		ERROR(T0->pos, "Extern declaration can't have initializer.");
-
-	if (s.scs.register_n)
-		symbol->is_register = 1;
-
-	if (external) {
-		definition_is_static = 1;
-
-		if (!s.scs.static_n)
-			is_global = 1;
-
-		if (s.scs.extern_n) {
-			has_definition = 0;
-		} else if (has_init) {
-			has_definition = 1;
-		} else {
-			is_tentative = 1;
-		}
-	} else {
-		if (s.scs.static_n)
-			definition_is_static = 1;
-		if (s.scs.extern_n) {
-			has_definition = 0;
-			is_global = 0;
-		} else {
-			has_definition = 1;
-		}
-	}
+	if (symbols_get_identifier_in_current_scope(name))
+		ERROR(T0->pos, "%.*s is already declared in this scope.", name.len, name.str);
 
+	struct symbol_identifier *symbol = symbols_add_identifier(name);
 	symbol->alignment = s.as.alignment;
+	symbol->is_register = s.scs.register_n ? 1 : 0;
 
-	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
-		symbol->is_global = is_global;
-		symbol->has_definition = has_definition;
-	} else {
-		if (!is_tentative && has_definition)
-			symbol->is_tentative = 0;
-	}
-	if (is_tentative && !prev_definition)
-		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
+	int has_init = TACCEPT(T_A);
 
-	if (has_definition) {
-		if (definition_is_static) {
-			symbol->type = IDENT_LABEL;
+	if (s.scs.static_n) {
+		static int local_var = 0;
+		name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_var++, name.len, name.str));
 
-			if (!external) {
-				static int local_var = 0;
-				name = sv_from_str(allocate_printf(".LVAR%d%.*s", local_var++, name.len, name.str));
-			}
+		symbol->type = IDENT_LABEL;
+		symbol->label.name = name;
+		symbol->label.type = type;
 
-			symbol->label.name = name;
+		struct initializer init = { 0 };
+		if (has_init) {
+			init = parse_initializer(&type);
 			symbol->label.type = type;
+		}
 
-			struct initializer init = { 0 };
-			if (has_init) {
-				init = parse_initializer(&type);
-				symbol->label.type = type;
-			}
+		data_register_static_var(name, type, init, 0, symbol->alignment);
+	} else if (type_has_variable_size(type)) {
+		symbol->type = IDENT_VARIABLE;
+		symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)));
+		symbol->variable.type = type;
 
-			data_register_static_var(name, type, init, is_global, symbol->alignment);
+		if (has_init)
+			ERROR(T0->pos, "Variable length array can't have initializer");
+	} else {
+		symbol->type = IDENT_VARIABLE;
+		struct node *ptr;
+		symbol->variable.type = type;
+		if (has_init) {
+			struct initializer init = parse_initializer(&type);
+			symbol->variable.type = type;
+			ptr = ir_allocate(calculate_size(type), symbol->alignment);
+			ir_init_ptr(&init, type, ptr);
 		} else {
-			if (type_has_variable_size(type)) {
-				symbol->type = IDENT_VARIABLE;
-				symbol->variable.ptr = ir_vla_alloc(expression_to_size_t(type_sizeof(type)));
-				symbol->variable.type = type;
-
-				if (has_init)
-					ERROR(T0->pos, "Variable length array can't have initializer");
-			} else {
-				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
-				symbol->variable.type = type;
-				if (has_init) {
-					struct initializer init = parse_initializer(&type);
-					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
-					ir_init_ptr(&init, type, ptr);
-				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
-				}
-				symbol->variable.ptr = ptr;
-			}
+			ptr = ir_allocate(calculate_size(type), symbol->alignment);
 		}
-	} else {
-		symbol->type = IDENT_LABEL;
-		symbol->label.name = name;
-		symbol->label.type = type;
+		symbol->variable.ptr = ptr;
 	}
 
 	return 1;
@@ -1530,10 +1538,23 @@ void generate_tentative_definitions(void) {
 
 		struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
-		if (symbol && symbol->is_tentative) {
+		if (symbol && symbol->is_tentative && !symbol->has_definition) {
 			struct type *type = symbols_get_identifier_type(symbol);
-			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->is_global, symbol->alignment);
-			symbol->is_tentative = 0;
+
+			// An array without a bound has one element.
+			if (type->type == TY_INCOMPLETE_ARRAY) {
+				struct type params = {
+					.type = TY_ARRAY,
+					.array.length = 1,
+					.n = 1
+				};
+				type = type_create(&params, type->children);
+			}
+
+			data_register_static_var(name, type, (struct initializer) { 0 }, symbol->linkage == LINKAGE_EXTERNAL, symbol->alignment);
+			symbol->has_definition = 1;
 		}
 	}
+
+	potentially_tentative.size = 0;
 }
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 80d69ba..2be2e96 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -517,25 +517,18 @@ struct string_view get_current_function_name(void) {
 	return current_function;
 }
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global) {
+void parse_function(struct symbol_identifier *symbol, struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args) {
 	(void)arg_n;
 	current_function = name;
-	struct symbol_identifier *symbol = symbols_get_identifier_global(name);
 
 	function_scope.size = 0;
 
 	current_ret_val = type->children[0];
 
-	if (!symbol)
-		symbol = symbols_add_identifier_global(name);
-
-	symbol->type = IDENT_LABEL;
-	symbol->label.type = type;
-	symbol->label.name = name;
-
 	assert(type->type == TY_FUNCTION);
 
-	struct node *func = new_function(sv_to_str(name), global);
+	struct node *func = new_function(sv_to_str(name), symbol->linkage == LINKAGE_EXTERNAL && symbol->is_not_inline);
+	symbol->function = func;
 	abi_expr_function(func, type, args);
 
 	type_evaluate_vla(type);
diff --git a/src/parser/function_parser.h b/src/parser/function_parser.h
index c4aa6be..93e5a6d 100644
--- a/src/parser/function_parser.h
+++ b/src/parser/function_parser.h
@@ -4,7 +4,7 @@
 #include "parser.h"
 #include "parser/symbols.h"
 
-void parse_function(struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args, int global);
+void parse_function(struct symbol_identifier *symbol, struct string_view name, struct type *type, int arg_n, struct symbol_identifier **args);
 struct string_view get_current_function_name(void);
 
 #endif
diff --git a/src/parser/symbols.h b/src/parser/symbols.h
index 0363ead..f7d6527 100644
--- a/src/parser/symbols.h
+++ b/src/parser/symbols.h
@@ -40,8 +40,19 @@ struct symbol_identifier {
 		} label;
 	};
 
-	int is_global, is_tentative, is_register;
+	enum {
+		LINKAGE_NONE,
+		LINKAGE_INTERNAL,
+		LINKAGE_EXTERNAL
+	} linkage;
+
+	int is_tentative, is_register;
 	int has_definition;
+
+	// A function all of whose file scope declarations are inline
+	// and without extern is not defined for other units.
+	int is_not_inline;
+	struct node *function;
 	int alignment;
 };
 
-- 
2.43.0


From 1c97443191754b4cae2c11b923035e4b00113859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:28 +0000
Subject: [PATCH 45/51] fix: scopes of statements, parameters and tags; one
 name space for identifiers and typedefs; undefined labels

---
 src/parser/declaration.c     | 115 ++++++++++++++++++++---------------
 src/parser/expression.c      |   3 +
 src/parser/function_parser.c |  76 ++++++++++++++++-------
 src/parser/symbols.c         |  42 +++++++------
 src/types.c                  |  11 ++++
 src/types.h                  |   2 +
 6 files changed, 158 insertions(+), 91 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index f00a981..56e8c00 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -90,7 +90,7 @@ struct type_ast {
 	struct type_ast *parent;
 };
 
-struct type_ast *parse_declarator(int *was_abstract, int *has_symbols);
+struct type_ast *parse_declarator(int *was_abstract, int *has_symbols, int may_be_abstract);
 struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qualifiers *tq, struct type_ast *ast, struct string_view *name, int allow_tq_in_array);
 
 int parse_struct(struct type_specifiers *ts);
@@ -321,7 +321,8 @@ int parse_enum(struct type_specifiers *ts) {
 		}
 
 		*data = (struct enum_data) {
-			.name = name
+			.name = name,
+			.is_complete = 1
 		};
 
 		ts->data_type = type_simple(ST_INT);
@@ -347,6 +348,36 @@ int parse_enum(struct type_specifiers *ts) {
 	return 1;
 }
 
+static struct symbol_struct *declare_struct(struct string_view name, int is_union) {
+	struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
+
+	if (!def) {
+		def = symbols_add_struct(name);
+		def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
+		def->struct_data = register_struct();
+		*def->struct_data = (struct struct_data) {
+			.name = name,
+			.is_complete = 0,
+		};
+	}
+
+	if (def->type != (is_union ? STRUCT_UNION : STRUCT_STRUCT))
+		ERROR(T0->pos, "%.*s is not declared as %s.", name.len, name.str, is_union ? "union" : "struct");
+
+	return def;
+}
+
+// The names of members must differ, also from the ones of anonymous members.
+static void check_member_names(struct struct_data *data) {
+	for (int i = 0; i < data->n; i++) {
+		struct string_view name = data->fields[i].name;
+		for (int j = i + 1; name.len && j < data->n; j++) {
+			if (sv_cmp(name, data->fields[j].name))
+				ERROR(T0->pos, "Duplicate member %.*s", name.len, name.str);
+		}
+	}
+}
+
 int parse_struct(struct type_specifiers *ts) {
 	int is_union = 0, is_packed = 0;
 	if (TACCEPT(T_KSTRUCT))
@@ -368,6 +399,12 @@ int parse_struct(struct type_specifiers *ts) {
 	}
 
 	if (TACCEPT(T_LBRACE)) {
+		// The scope of the tag begins before the members.
+		struct symbol_struct *def = declare_struct(name, is_union);
+		struct struct_data *data = def->struct_data;
+		if (data->is_complete)
+			ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
+
 		int fields_size = 0, fields_cap = 0;
 		struct field *fields = NULL;
 
@@ -383,7 +420,7 @@ int parse_struct(struct type_specifiers *ts) {
 				int bitfield = -1;
 				int needs_bitfield = 0;
 
-				if ((ast = parse_declarator(&was_abstract, 0))) {
+				if ((ast = parse_declarator(&was_abstract, 0, 0))) {
 					found_one = 1;
 					if (was_abstract)
 						ERROR(T0->pos, "Can't have abstract in struct declaration");
@@ -440,28 +477,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 		accept_attribute(&is_packed);
 
-		struct struct_data *data = NULL;
-		struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
-
-		if (is_union) {
-			if (def && def->type != STRUCT_UNION)
-				ERROR(T0->pos, "Name not declared as union.");
-		} else {
-			if (def && def->type != STRUCT_STRUCT)
-				ERROR(T0->pos, "Name not declared as struct.");
-		}
-
-		if (!def) {
-			def = symbols_add_struct(name);
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-			data = register_struct();
-			def->struct_data = data;
-		} else {
-			data = def->struct_data;
-			if (data->is_complete) {
-				ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
-			}
-		}
+		if (data->is_complete)
+			ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
 
 		*data = (struct struct_data) {
 			.n = fields_size,
@@ -480,6 +497,7 @@ int parse_struct(struct type_specifiers *ts) {
 
 		calculate_offsets(data);
 		type_remove_unnamed(data);
+		check_member_names(data);
 
 		struct type params = {
 			.type = TY_STRUCT,
@@ -493,16 +511,9 @@ int parse_struct(struct type_specifiers *ts) {
 	} else {
 		struct symbol_struct *def = symbols_get_struct(name);
 
-		if(!def) {
-			def = symbols_add_struct(name);
-
-			def->struct_data = register_struct();
-			*def->struct_data = (struct struct_data) {
-				.name = name,
-				.is_complete = 0,
-			};
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-		}
+		// See 6.7.2.3p7, a declaration of only a tag declares it in the current scope.
+		if (!def || T0->type == T_SEMI_COLON)
+			def = declare_struct(name, is_union);
 
 		if (!is_union && def->type != STRUCT_STRUCT) {
 			ERROR(T0->pos, "%.*s Previously not a struct", name.len, name.str);
@@ -740,7 +751,7 @@ static struct parameter_list parse_parameter_list(void) {
 	int first = 1;
 	while (parse_specifiers(&s.ts, &s.scs, &s.tq, &s.fs, &s.as)) {
 		int was_abstract = 10;
-		struct type_ast *ast = parse_declarator(&was_abstract, 0);
+		struct type_ast *ast = parse_declarator(&was_abstract, 0, 1);
 
 		if (first) {
 			ret.abstract = was_abstract;
@@ -782,6 +793,13 @@ static struct parameter_list parse_parameter_list(void) {
 }
 
 static struct type_ast *parse_function_parameters(struct type_ast *parent, int *has_symbols) {
+	// The first parameter list is the one of the declared function.
+	if ((T0->type == T_RPAR || (T0->type == T_KVOID && T1->type == T_RPAR)) &&
+		has_symbols && !*has_symbols) {
+		symbols_push_scope();
+		*has_symbols = 1;
+	}
+
 	if (TACCEPT(T_RPAR)) {
 		return type_ast_new((struct type_ast){
 				.type = TAST_FUNCTION,
@@ -817,7 +835,7 @@ static struct type_ast *parse_function_parameters(struct type_ast *parent, int *
 		});
 }
 
-struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
+struct type_ast *parse_declarator(int *was_abstract, int *has_symbols, int may_be_abstract) {
 	struct type_ast *ast = NULL;
 	if (T0->type == T_IDENT) {
 		ast = type_ast_new((struct type_ast){
@@ -828,8 +846,9 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 			*was_abstract = 0;
 		TNEXT();
 	} else if (TACCEPT(T_LPAR)) {
-		if (!(T0->type == T_IDENT && symbols_get_typedef(T0->str)))
-			ast = parse_declarator(was_abstract, has_symbols);
+		// See 6.7.6.3p11, where a declarator may be abstract this is the type of a parameter.
+		if (!(may_be_abstract && T0->type == T_IDENT && symbols_get_typedef(T0->str)))
+			ast = parse_declarator(was_abstract, has_symbols, may_be_abstract);
 		if (!ast) {
 			*was_abstract = 1;
 			ast = type_ast_new((struct type_ast) {
@@ -848,7 +867,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 
 		ast = type_ast_new((struct type_ast){
 				.type = TAST_POINTER,
-				.parent = parse_declarator(was_abstract, has_symbols),
+				.parent = parse_declarator(was_abstract, has_symbols, may_be_abstract),
 				.pointer.tq = tq
 			});
 
@@ -1276,7 +1295,7 @@ struct type *parse_type_name(void) {
 		return NULL;
 
 	int was_abstract = 1;
-	struct type_ast *ast = parse_declarator(&was_abstract, 0);
+	struct type_ast *ast = parse_declarator(&was_abstract, 0, 1);
 	if (!was_abstract)
 		ERROR(T0->pos, "Type name must be abstract");
 
@@ -1347,7 +1366,7 @@ static struct symbol_identifier *declare_linked(struct string_view name, struct
 static int parse_init_declarator(struct specifiers s, int external, int *was_func) {
 	*was_func = 0;
 	int was_abstract = 1, has_symbols = 0;
-	struct type_ast *ast = parse_declarator(&was_abstract, &has_symbols);
+	struct type_ast *ast = parse_declarator(&was_abstract, &has_symbols, 0);
 
 	if (!ast)
 		return 0;
@@ -1433,8 +1452,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
-	if (symbols_get_identifier_in_current_scope(name))
-		ERROR(T0->pos, "%.*s is already declared in this scope.", name.len, name.str);
+	if (!type_is_complete(type) && !(type->type == TY_INCOMPLETE_ARRAY && T0->type == T_A))
+		ERROR(T0->pos, "%.*s has incomplete type %s", name.len, name.str, strdup(dbg_type(type)));
 
 	struct symbol_identifier *symbol = symbols_add_identifier(name);
 	symbol->alignment = s.as.alignment;
@@ -1466,17 +1485,15 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 			ERROR(T0->pos, "Variable length array can't have initializer");
 	} else {
 		symbol->type = IDENT_VARIABLE;
-		struct node *ptr;
 		symbol->variable.type = type;
 		if (has_init) {
 			struct initializer init = parse_initializer(&type);
 			symbol->variable.type = type;
-			ptr = ir_allocate(calculate_size(type), symbol->alignment);
-			ir_init_ptr(&init, type, ptr);
+			symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
+			ir_init_ptr(&init, type, symbol->variable.ptr);
 		} else {
-			ptr = ir_allocate(calculate_size(type), symbol->alignment);
+			symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
 		}
-		symbol->variable.ptr = ptr;
 	}
 
 	return 1;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 56dfd60..c07f906 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -584,6 +584,9 @@ static struct expr *parse_prefix(void) {
 			type = parse_pratt(PREFIX_PREC)->data_type;
 		}
 
+		if (!type_is_complete(type))
+			ERROR(T0->pos, "sizeof of incomplete type %s", strdup(dbg_type(type)));
+
 		return type_sizeof(type);
 	} else if (TACCEPT(T_KALIGNOF)) {
 		struct type *type = NULL;
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 2be2e96..8073371 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -30,12 +30,13 @@ static struct function_scope {
 		struct string_view label;
 		struct node *block, *end_block;
 		int used;
+		struct position pos;
 	} *labels;
 } function_scope;
 
 static void add_function_scope_label(struct string_view label, struct node *block, struct node *end_block, int used) {
 	ADD_ELEMENT(function_scope.size, function_scope.cap, function_scope.labels) =
-		(struct function_scope_label) { label, block, end_block, used };
+		(struct function_scope_label) { label, block, end_block, used, T0->pos };
 }
 
 // See section 6.8 of standard.
@@ -126,19 +127,31 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	return 0;
 }
 
+static void parse_block_items(struct jump_blocks *jump_blocks) {
+	while (parse_labeled_statement(jump_blocks) ||
+		   parse_declaration(0) || parse_statement(jump_blocks));
+
+	TEXPECT(T_RBRACE);
+}
+
 int parse_compound_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_LBRACE))
 		return 0;
 
 	symbols_push_scope();
-	while (parse_labeled_statement(jump_blocks) ||
-		   parse_declaration(0) || parse_statement(jump_blocks));
+	parse_block_items(jump_blocks);
 	symbols_pop_scope();
 
-	TEXPECT(T_RBRACE);
 	return 1;
 }
 
+// The substatement of a selection or iteration statement is a block.
+static void parse_substatement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
+	parse_statement(jump_blocks);
+	symbols_pop_scope();
+}
+
 int parse_expression_statement(void) {
 	struct expr *expr = parse_expression();
 	if (!expr)
@@ -183,7 +196,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 
 	// A continue in the body belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
@@ -200,7 +213,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	return 1;
 }
 
-int parse_selection_statement(struct jump_blocks *jump_blocks) {
+static int parse_selection(struct jump_blocks *jump_blocks) {
 	if (TACCEPT(T_KIF)) {
 		TEXPECT(T_LPAR);
 		struct expr *expr = parse_expression();
@@ -215,14 +228,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		parse_substatement(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			parse_substatement(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -243,6 +256,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 	}
 }
 
+// A selection statement is a block.
+int parse_selection_statement(struct jump_blocks *jump_blocks) {
+	symbols_push_scope();
+	int ret = parse_selection(jump_blocks);
+	symbols_pop_scope();
+	return ret;
+}
+
 // Case labels in the body of a loop belong to the enclosing switch.
 static void keep_switch_labels(struct jump_blocks *jump_blocks, struct jump_blocks *loop_jump_blocks) {
 	jump_blocks->block_entry = loop_jump_blocks->block_entry;
@@ -263,7 +284,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -333,7 +354,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -349,8 +370,6 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_LPAR);
 
-	symbols_push_scope();
-
 	// init:
 	// ... init stuff ...
 	// jmp control
@@ -414,24 +433,23 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	keep_switch_labels(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
 
-	symbols_pop_scope();
 	return 1;
 }
 
+// An iteration statement is a block.
 int parse_iteration_statement(struct jump_blocks *jump_blocks) {
-	if (parse_for_statement(jump_blocks) ||
-			   parse_do_while_statement(jump_blocks) ||
-			   parse_while_statement(jump_blocks)) {
-		return 1;
-	} else {
-		return 0;
-	}
+	symbols_push_scope();
+	int ret = parse_for_statement(jump_blocks) ||
+		parse_do_while_statement(jump_blocks) ||
+		parse_while_statement(jump_blocks);
+	symbols_pop_scope();
+	return ret;
 }
 
 struct type *current_ret_val = NULL;
@@ -464,6 +482,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "continue is not in a loop.");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -473,6 +494,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "break is not in a loop or switch.");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -533,8 +557,16 @@ void parse_function(struct symbol_identifier *symbol, struct string_view name, s
 
 	type_evaluate_vla(type);
 
+	// The parameters are in the same scope as the body.
 	struct jump_blocks jump_blocks = { 0 };
-	parse_compound_statement(&jump_blocks);
+	TEXPECT(T_LBRACE);
+	parse_block_items(&jump_blocks);
+
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		struct function_scope_label *label = function_scope.labels + i;
+		if (!label->used)
+			ERROR(label->pos, "Label %.*s is not defined.", label->label.len, label->label.str);
+	}
 
 	if (sv_string_cmp(name, "main")) {
 		struct node *b = get_current_block();
diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..1789f98 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -1,6 +1,7 @@
 #include "symbols.h"
 
 #include <common.h>
+#include <preprocessor/preprocessor.h>
 
 #include <string.h>
 
@@ -11,15 +12,15 @@
 
 struct entry_id {
 	enum entry_type {
-		ENTRY_TYPEDEF,
 		ENTRY_STRUCT,
-		ENTRY_IDENTIFIER
+		ENTRY_ORDINARY // Identifiers and typedefs share a name space.
 	} type;
 	struct string_view name;
 };
 
 struct table_entry {
 	struct entry_id id;
+	int is_typedef;
 
 	union {
 		struct symbol_identifier *identifier_data; // References need to be stable.
@@ -149,7 +150,7 @@ static struct table_entry *symbols_add(enum entry_type type, struct string_view
 	struct table_entry *entry = get_entry((struct entry_id) { type, name }, 0);
 
 	if (entry && entry->block == current_block)
-		ICE("Name already declared, %.*s", name.len, name.str);
+		ERROR(T0->pos, "%.*s is already declared in this scope.", name.len, name.str);
 
 	return add_entry((struct entry_id) { type, name });
 }
@@ -170,35 +171,35 @@ struct symbol_identifier *symbols_add_identifier(struct string_view name) {
 		// Anonymous identifier.
 		return ALLOC((struct symbol_identifier) { 0 });
 	}
-	struct table_entry *entry = symbols_add(ENTRY_IDENTIFIER, name);
+	struct table_entry *entry = symbols_add(ENTRY_ORDINARY, name);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
 }
 
 struct symbol_identifier *symbols_get_identifier(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_IDENTIFIER, name);
-	return entry ? entry->identifier_data : NULL;
+	struct table_entry *entry = symbols_get(ENTRY_ORDINARY, name);
+	return entry && !entry->is_typedef ? entry->identifier_data : NULL;
 }
 
 struct symbol_identifier *symbols_get_identifier_in_current_scope(struct string_view name) {
-	struct table_entry *entry = symbols_get_in_current_scope(ENTRY_IDENTIFIER, name);
-	return entry ? entry->identifier_data : NULL;
+	struct table_entry *entry = symbols_get_in_current_scope(ENTRY_ORDINARY, name);
+	return entry && !entry->is_typedef ? entry->identifier_data : NULL;
 }
 
 struct symbol_identifier *symbols_add_identifier_global(struct string_view name) {
-	struct table_entry *entry = get_entry((struct entry_id) { ENTRY_IDENTIFIER, name }, 1);
+	struct table_entry *entry = get_entry((struct entry_id) { ENTRY_ORDINARY, name }, 1);
 
-	if (entry && entry->block == current_block)
-		ICE("Name already declared, %.*s", name.len, name.str);
+	if (entry)
+		ERROR(T0->pos, "%.*s is already declared in this scope.", name.len, name.str);
 
-	entry = add_entry_with_block((struct entry_id) { ENTRY_IDENTIFIER, name }, 0);
+	entry = add_entry_with_block((struct entry_id) { ENTRY_ORDINARY, name }, 0);
 	entry->identifier_data = ALLOC((struct symbol_identifier) { 0 });
 	return entry->identifier_data;
 }
 
 struct symbol_identifier *symbols_get_identifier_global(struct string_view name) {
-	struct table_entry *entry = get_entry((struct entry_id) { ENTRY_IDENTIFIER, name }, 1);
-	return entry ? entry->identifier_data : NULL;
+	struct table_entry *entry = get_entry((struct entry_id) { ENTRY_ORDINARY, name }, 1);
+	return entry && !entry->is_typedef ? entry->identifier_data : NULL;
 }
 
 struct type *symbols_get_identifier_type(struct symbol_identifier *symbol) {
@@ -228,18 +229,19 @@ struct symbol_struct *symbols_get_struct_in_current_scope(struct string_view nam
 
 // Typedef help functions.
 struct symbol_typedef *symbols_add_typedef(struct string_view name) {
-	struct entry_id id = {ENTRY_TYPEDEF, name};
-	struct table_entry *entry = get_entry(id, 0);
+	struct table_entry *entry = symbols_get_in_current_scope(ENTRY_ORDINARY, name);
 
-	if (entry && entry->block == current_block)
+	if (entry && entry->is_typedef)
 		return &entry->typedef_data;
 
-	return &add_entry(id)->typedef_data;
+	entry = symbols_add(ENTRY_ORDINARY, name);
+	entry->is_typedef = 1;
+	return &entry->typedef_data;
 }
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
-	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
-	return entry ? &entry->typedef_data : NULL;
+	struct table_entry *entry = symbols_get(ENTRY_ORDINARY, name);
+	return entry && entry->is_typedef ? &entry->typedef_data : NULL;
 }
 
 // Init everything. Called from main.
diff --git a/src/types.c b/src/types.c
index c573260..15f9542 100644
--- a/src/types.c
+++ b/src/types.c
@@ -378,6 +378,17 @@ int type_is_aggregate(struct type *type) {
 		type->type == TY_INCOMPLETE_ARRAY;
 }
 
+int type_is_complete(struct type *type) {
+	switch (type->type) {
+	case TY_STRUCT: return type->struct_data->is_complete;
+	case TY_ARRAY:
+	case TY_VARIABLE_LENGTH_ARRAY: return type_is_complete(type->children[0]);
+	case TY_INCOMPLETE_ARRAY:
+	case TY_FUNCTION: return 0;
+	default: return 1;
+	}
+}
+
 struct expr *type_sizeof(struct type *type) {
 	if (type_has_variable_size(type)) {
 		switch (type->type) {
diff --git a/src/types.h b/src/types.h
index 45a2e9a..1d58e68 100644
--- a/src/types.h
+++ b/src/types.h
@@ -126,6 +126,8 @@ struct enum_data {
 struct struct_data *register_struct(void);
 struct enum_data *register_enum(void);
 
+int type_is_complete(struct type *type);
+
 // The interface guarantees that if only these functions are used
 // to create and modify a type, it should be true that two types
 // are equal iff their pointers are equal. Similar to hash consing or
-- 
2.43.0


From 81a0ef7c70ab5d3dbdc4b6f7df7251dc51b11612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:35 +0000
Subject: [PATCH 46/51] fix: section alignment of objects whose data is already
 aligned

---
 src/linker/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..6054530 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -103,11 +103,11 @@ void object_write_zero(size_t size) {
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
 	size_t remainder = section->size % alignment;
+	section->alignment = MAX(section->alignment, alignment);
 	if (remainder == 0)
 		return;
 
 	object_write_zero(alignment - remainder);
-	section->alignment = MAX(section->alignment, alignment);
 }
 
 void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
-- 
2.43.0


From 88aa50a9dade6a4138418c41a768f816123621dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:44 +0000
Subject: [PATCH 47/51] fix: flags of the sections of objects

---
 src/linker/elf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..7e03265 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -332,7 +332,11 @@ static struct elf_file *elf_from_object(struct object *object) {
 			memcpy(elf_section->data, section->data, elf_section->size);
 		}
 
-		elf_section->header.sh_flags = SHF_ALLOC | SHF_EXECINSTR;
+		elf_section->header.sh_flags = SHF_ALLOC;
+		if (strcmp(section->name, ".text") == 0)
+			elf_section->header.sh_flags |= SHF_EXECINSTR;
+		else if (strcmp(section->name, ".data") == 0)
+			elf_section->header.sh_flags |= SHF_WRITE;
 		elf_section->header.sh_addralign = section->alignment;
 	}
 
-- 
2.43.0


From 7ffd2800de784bf02bb71e3862615f456fa2ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:20 +0000
Subject: [PATCH 48/51] fix: types of declarations and expressions: compatible
 and composite types, qualifiers of members, arrays and parameters,
 conditional pointers

---
 src/parser/declaration.c | 22 ++++++-----
 src/parser/expression.c  | 49 +++++++++++++++--------
 src/types.c              | 85 +++++++++++++++++++++++++++++++---------
 3 files changed, 112 insertions(+), 44 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 56e8c00..e6187f5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -134,16 +134,15 @@ static int parse_specifier(struct type_specifiers *ts,
 		}
 
 		if (prev != ts->specifiers) {
+			if (ts->data_type)
+				ERROR(T0->pos, "Invalid type");
 			*got_ts = 1;
 			return 1;
 		}
 
-		if (parse_struct(ts)) {
-			*got_ts = 1;
-			return 1;
-		}
-
-		if (parse_enum(ts)) {
+		if (parse_struct(ts) || parse_enum(ts)) {
+			if (*got_ts)
+				ERROR(T0->pos, "Invalid type");
 			*got_ts = 1;
 			return 1;
 		}
@@ -628,7 +627,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
+	if (tq->const_n)
 		type = type_make_const(type, 1);
 	return type;
 }
@@ -658,7 +657,7 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 
 			struct type *parameters[ast->function.n + 1];
 			for (int i = 0; i < ast->function.n; i++)
-				parameters[i + 1] = ast->function.types[i];
+				parameters[i + 1] = type_remove_qualifications(ast->function.types[i]);
 			parameters[0] = type;
 
 			type = type_create(&params, parameters);
@@ -718,8 +717,11 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 			}
 			if (!allow_tq_in_array && !null_type_qualifier(&ast->array.tq)) {
 				ICE("Can't have type qualifiers in array outside of function prototype.");
-			} else if (allow_tq_in_array) {
-				type = apply_tq(type, &ast->array.tq);
+			} else if (ast->array.tq.const_n) {
+				// This is the qualifier of the pointer that the parameter is adjusted to.
+				struct type params = *type;
+				params.is_const = 1;
+				type = type_create(&params, type->children);
 			}
 			ast = ast->parent;
 		} break;
diff --git a/src/parser/expression.c b/src/parser/expression.c
index c07f906..7a5938b 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -112,6 +112,12 @@ static void do_default_argument_promotion(struct expr **expr) {
 		*expr = expression_cast(*expr, type_simple(ST_DOUBLE));
 }
 
+// A member of a const structure is const.
+static struct type *member_type(struct type *type, int index) {
+	struct type *member = type_select(type, index);
+	return type->is_const ? type_make_const(member, 1) : member;
+}
+
 static struct type *calculate_type(struct expr *expr) {
 	switch (expr->type) {
 	case E_CONSTANT:
@@ -156,7 +162,7 @@ static struct type *calculate_type(struct expr *expr) {
 		return expr->cast.target;
 
 	case E_DOT_OPERATOR:
-		return type_select(expr->member.lhs->data_type, expr->member.member_idx);
+		return member_type(expr->member.lhs->data_type, expr->member.member_idx);
 
 	case E_CONDITIONAL:
 		assert(expr->args[1]->data_type == expr->args[2]->data_type);
@@ -241,21 +247,31 @@ static void cast_conditional(struct expr *expr) {
 		return;
 
 	if (type_is_pointer(a) && type_is_pointer(b)) {
-		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
-			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
-			expr->args[2] = expression_cast(expr->args[2], a);
-		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
-												  type_remove_qualifications(type_deref(b))))) {
-			composite = type_pointer(composite);
-			expr->args[2] = expression_cast(expr->args[2], composite);
-			expr->args[1] = expression_cast(expr->args[1], composite);
+		struct type *void_type = type_simple(ST_VOID), *target = type_deref(a), *other = type_deref(b);
+		int is_const = target->is_const || other->is_const;
+
+		if (a == type_pointer(void_type) && is_null_pointer_constant(expr->args[1])) {
+			target = other;
+		} else if (b == type_pointer(void_type) && is_null_pointer_constant(expr->args[2])) {
+			// The type of the other operand.
 		} else {
-			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
-				  strdup(dbg_type(a)),
-				  strdup(dbg_type(b)));
+			target = type_remove_qualifications(target);
+			other = type_remove_qualifications(other);
+			if (target == void_type || other == void_type)
+				target = void_type;
+			else
+				target = type_make_composite(target, other);
+
+			if (!target)
+				ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
+					  strdup(dbg_type(a)),
+					  strdup(dbg_type(b)));
+
+			target = type_make_const(target, is_const);
 		}
+
+		expr->args[1] = expression_cast(expr->args[1], type_pointer(target));
+		expr->args[2] = expression_cast(expr->args[2], type_pointer(target));
 	} else if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
 		expr->args[2] = expression_cast(expr->args[2], a);
 	} else if (type_is_pointer(b) && is_null_pointer_constant(expr->args[1])) {
@@ -702,7 +718,7 @@ static struct expr *parse_prefix(void) {
 				if (!res)
 					res = rhs;
 			} else {
-				if (type == match_type) {
+				if (type_make_composite(type, match_type)) {
 					if (res && !res_is_default)
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
 							  strdup(dbg_type(type)));
@@ -983,7 +999,7 @@ int evaluate_constant_expression(struct expr *expr,
 			if (bit_size != -1)
 				return 0;
 
-			struct type *child_type = type_select(lhs.data_type, expr->member.member_idx);
+			struct type *child_type = member_type(lhs.data_type, expr->member.member_idx);
 
 			*constant = lhs;
 			constant->label.offset += offset;
@@ -1087,6 +1103,7 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[0], &c))
 			return 0;
 		*constant = c;
+		constant->data_type = expr->data_type;
 	} break;
 
 	default:
diff --git a/src/types.c b/src/types.c
index 15f9542..1cee1c3 100644
--- a/src/types.c
+++ b/src/types.c
@@ -162,8 +162,21 @@ struct type *type_deref(struct type *type) {
 	return type->children[0];
 }
 
+static int is_array(struct type *type) {
+	return type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY;
+}
+
 struct type *type_make_const(struct type *type, int is_const) {
 	struct type params = *type;
+
+	// The qualifiers of an array are the ones of its elements.
+	if (is_const && is_array(type)) {
+		struct type *element = type_make_const(type->children[0], 1);
+		return type_create(&params, &element);
+	}
+
 	params.is_const = is_const;
 	return type_create(&params, type->children);
 }
@@ -441,35 +454,71 @@ int type_contains_unevaluated_vla(struct type *type) {
 	return type->type == TY_VARIABLE_LENGTH_ARRAY && type->variable_length_array.is_evaluated;
 }
 
+// Does the default argument promotion leave this type unchanged?
+static int is_promoted(struct type *type) {
+	if (type->type != TY_SIMPLE)
+		return 1;
+
+	switch (type->simple) {
+	case ST_CHAR:
+	case ST_SCHAR:
+	case ST_UCHAR:
+	case ST_SHORT:
+	case ST_USHORT:
+	case ST_BOOL:
+	case ST_FLOAT:
+		return 0;
+	default:
+		return 1;
+	}
+}
+
+static int lacks_prototype(struct type *type) {
+	return type->function.is_variadic && type->n == 1;
+}
+
 // See 6.2.7.
 // Returns NULL if not compatible.
 struct type *type_make_composite(struct type *a, struct type *b) {
 	if (a == b)
 		return a;
 
-	if (a->type == TY_ARRAY && b->type == TY_INCOMPLETE_ARRAY) {
-		return a;
-	} else if (b->type == TY_ARRAY && a->type == TY_INCOMPLETE_ARRAY) {
-		return b;
-	}
-
-	if (a->type != b->type)
+	if (a->is_const != b->is_const)
 		return NULL;
 
-	switch (a->type) {
-	case TY_FUNCTION:
-		if (a->function.is_variadic && a->n == 1) {
-			return b;
-		} else if (b->function.is_variadic && b->n == 1) {
-			return a;
+	struct type *params = a;
+	if (is_array(a) && is_array(b)) {
+		if (a->type == TY_ARRAY && b->type == TY_ARRAY && a->array.length != b->array.length)
+			return NULL;
+		if (b->type == TY_ARRAY || a->type == TY_INCOMPLETE_ARRAY)
+			params = b;
+	} else if (a->type == TY_FUNCTION && b->type == TY_FUNCTION) {
+		if (lacks_prototype(a))
+			params = b;
+
+		if (lacks_prototype(a) || lacks_prototype(b)) {
+			if (params->function.is_variadic && params->n > 1)
+				return NULL;
+			for (int i = 1; i < params->n; i++)
+				if (!is_promoted(params->children[i]))
+					return NULL;
+		} else if (a->n != b->n || a->function.is_variadic != b->function.is_variadic) {
+			return NULL;
 		}
-		break;
+	} else if (a->type != TY_POINTER || b->type != TY_POINTER) {
+		return NULL;
+	}
 
-	case TY_ARRAY:
-		break;
+	struct type *children[params->n];
+	for (int i = 0; i < params->n; i++) {
+		if (i < a->n && i < b->n)
+			children[i] = type_make_composite(a->children[i], b->children[i]);
+		else
+			children[i] = params->children[i];
 
-	default:;
+		if (!children[i])
+			return NULL;
 	}
 
-	return NULL;
+	return type_create(params, children);
 }
-- 
2.43.0


From 7d101fb62abce9d8ef83545f2289363c76b51499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:26 +0000
Subject: [PATCH 49/51] fix: indirection through the value of an assignment of
 an address constant

---
 src/parser/expression_to_ir.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b5078e1..a08f4c6 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -236,17 +236,12 @@ static struct evaluated_expression evaluate_indirection(struct expr *expr) {
 		};
 	}
 
-	case EE_CONSTANT: // For example &((type *)0)->member)
-		if (rhs.constant.type == CONSTANT_TYPE) {
-			rhs.constant.type = CONSTANT_TYPE_POINTER;
-		}
-
+	case EE_CONSTANT: // For example *(p = array).
 		return (struct evaluated_expression) {
-			.type = EE_CONSTANT,
+			.type = EE_POINTER,
 			.is_lvalue = 1,
-			.constant = rhs.constant
+			.pointer = ir_constant(rhs.constant)
 		};
-		break;
 
 	default:
 		ICE("Invalid evaluated type %d %s:%d", rhs.type, expr->pos.path, expr->pos.line);
-- 
2.43.0


From 35c90ac074a0d1ac707376c4c6e056065555c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:26 +0000
Subject: [PATCH 50/51] fix: constraints of operators, casts, calls and
 assignments are checked; missing operands of sizeof and _Alignof

---
 src/parser/expression.c | 220 ++++++++++++++++++++++++++++++++++++----
 src/parser/expression.h |   1 +
 2 files changed, 200 insertions(+), 21 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 7a5938b..d3a41df 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -306,6 +306,9 @@ static void fix_binary_operator(struct expr *expr) {
 	switch (expr->binary_op) {
 	case OP_SUB:
 		if (lhs_ptr && rhs_ptr) {
+			if (!type_make_composite(type_remove_qualifications(type_deref(expr->args[0]->data_type)),
+									 type_remove_qualifications(type_deref(expr->args[1]->data_type))))
+				ERROR(T0->pos, "Can't subtract pointers to different types.");
 			expr->type = E_POINTER_DIFF;
 		} else if (lhs_ptr) {
 			expr->type = E_POINTER_SUB;
@@ -424,12 +427,168 @@ static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	return lhs;
 }
 
+// Constraints of operators, checked before the operands are converted.
+static int becomes_pointer(struct type *type) {
+	return type_is_pointer(type) ||
+		type->type == TY_ARRAY ||
+		type->type == TY_INCOMPLETE_ARRAY ||
+		type->type == TY_VARIABLE_LENGTH_ARRAY ||
+		type->type == TY_FUNCTION;
+}
+
+static int is_scalar_operand(struct type *type) {
+	return type_is_arithmetic(type) || becomes_pointer(type);
+}
+
+// Pointers to objects, and to void as an extension.
+static int is_object_pointer(struct type *type) {
+	if (type_is_pointer(type))
+		return type_is_complete(type_deref(type));
+	return becomes_pointer(type) && type->type != TY_FUNCTION;
+}
+
+static int is_bitfield(struct expr *expr) {
+	return expr->type == E_DOT_OPERATOR && get_expression_bitfield(expr) != -1;
+}
+
+static int is_lvalue(struct expr *expr) {
+	switch (expr->type) {
+	case E_SYMBOL:
+	case E_VARIABLE:
+	case E_INDIRECTION:
+	case E_COMPOUND_LITERAL:
+		return 1;
+	case E_CONSTANT:
+		return expr->constant.type == CONSTANT_LABEL ||
+			expr->constant.type == CONSTANT_TYPE_POINTER;
+	case E_DOT_OPERATOR:
+		return is_lvalue(expr->member.lhs);
+	default:
+		return 0;
+	}
+}
+
+static void check_modifiable(struct expr *expr) {
+	struct type *type = expr->data_type;
+	if (!is_lvalue(expr) || type->is_const ||
+		(becomes_pointer(type) && !type_is_pointer(type)))
+		ERROR(T0->pos, "Expression of type %s is not a modifiable lvalue", strdup(dbg_type(type)));
+}
+
+void expression_check_assignable(struct type *type, struct expr *expr) {
+	struct type *from = type_remove_qualifications(expr->data_type);
+	type = type_remove_qualifications(type);
+
+	if (type == from ||
+		(type_is_pointer(type) && (becomes_pointer(from) || type_is_integer(from))) ||
+		(type_is_integer(type) && is_scalar_operand(from)) ||
+		(type_is_floating(type) && type_is_arithmetic(from)))
+		return;
+
+	ERROR(T0->pos, "Can't convert %s to %s", strdup(dbg_type(from)), strdup(dbg_type(type)));
+}
+
+static void check_constraints(struct expr *expr) {
+	switch (expr->type) {
+	case E_ADDRESS_OF:
+		if (!is_lvalue(expr->args[0]) || is_bitfield(expr->args[0]))
+			ERROR(T0->pos, "Can't take the address of expression");
+		break;
+
+	case E_INDIRECTION:
+		if (!becomes_pointer(expr->args[0]->data_type))
+			ERROR(T0->pos, "Can't dereference %s", strdup(dbg_type(expr->args[0]->data_type)));
+		break;
+
+	case E_ASSIGNMENT:
+		check_modifiable(expr->args[0]);
+		expression_check_assignable(expr->args[0]->data_type, expr->args[1]);
+		break;
+
+	case E_ASSIGNMENT_OP: {
+		struct type *lhs = expr->args[0]->data_type, *rhs = expr->args[1]->data_type;
+		enum operator_type op = expr->assignment_op.op;
+		check_modifiable(expr->args[0]);
+		if (!(type_is_arithmetic(lhs) && type_is_arithmetic(rhs)) &&
+			!(is_object_pointer(lhs) && type_is_integer(rhs) && (op == OP_ADD || op == OP_SUB)))
+			ERROR(T0->pos, "Invalid operands of assignment operator, %s and %s",
+				  strdup(dbg_type(lhs)), strdup(dbg_type(rhs)));
+	} break;
+
+	case E_CONDITIONAL:
+		if (!is_scalar_operand(expr->args[0]->data_type))
+			ERROR(T0->pos, "Condition is not scalar, got %s", strdup(dbg_type(expr->args[0]->data_type)));
+		break;
+
+	case E_CAST: {
+		struct type *from = type_remove_qualifications(expr->cast.arg->data_type),
+			*to = type_remove_qualifications(expr->cast.target);
+		if (to == from || type_is_simple(to, ST_VOID))
+			break;
+		if (!is_scalar_operand(from) || !(type_is_arithmetic(to) || type_is_pointer(to)) ||
+			(type_is_floating(from) && !type_is_arithmetic(to)) ||
+			(type_is_floating(to) && !type_is_arithmetic(from)))
+			ERROR(T0->pos, "Can't cast %s to %s", strdup(dbg_type(from)), strdup(dbg_type(to)));
+	} break;
+
+	case E_CALL: {
+		struct type *callee = expr->call.callee->data_type;
+		if (type_is_pointer(callee))
+			callee = type_deref(callee);
+		if (callee->type != TY_FUNCTION)
+			ERROR(T0->pos, "Can't call %s", strdup(dbg_type(expr->call.callee->data_type)));
+		for (int i = 0; i < expr->call.n_args; i++) {
+			if (i + 1 < callee->n)
+				expression_check_assignable(callee->children[i + 1], expr->call.args[i]);
+			else if (type_is_simple(expr->call.args[i]->data_type, ST_VOID))
+				ERROR(T0->pos, "Can't pass void as an argument");
+		}
+	} break;
+
+	case E_UNARY_OP:
+		if (!type_is_arithmetic(expr->args[0]->data_type) ||
+			(expr->unary_op == UOP_BNOT && !type_is_integer(expr->args[0]->data_type)))
+			ERROR(T0->pos, "Invalid operand of unary operator, %s", strdup(dbg_type(expr->args[0]->data_type)));
+		break;
+
+	case E_BINARY_OP: {
+		struct type *lhs = expr->args[0]->data_type, *rhs = expr->args[1]->data_type;
+		int valid = type_is_arithmetic(lhs) && type_is_arithmetic(rhs);
+		switch (expr->binary_op) {
+		case OP_MOD: case OP_LSHIFT: case OP_RSHIFT: case OP_BAND: case OP_BOR: case OP_BXOR:
+			valid = type_is_integer(lhs) && type_is_integer(rhs);
+			break;
+		case OP_MUL: case OP_DIV:
+			break;
+		case OP_ADD:
+			valid |= (is_object_pointer(lhs) && type_is_integer(rhs)) ||
+				(type_is_integer(lhs) && is_object_pointer(rhs));
+			break;
+		case OP_SUB:
+			valid |= is_object_pointer(lhs) && (type_is_integer(rhs) || is_object_pointer(rhs));
+			break;
+		default:
+			valid = is_scalar_operand(lhs) && is_scalar_operand(rhs);
+			break;
+		}
+		if (!valid)
+			ERROR(T0->pos, "Invalid operands of binary operator, %s and %s",
+				  strdup(dbg_type(lhs)), strdup(dbg_type(rhs)));
+	} break;
+
+	default:
+		break;
+	}
+}
+
 struct expr *expr_new(struct expr expr) {
 	for (int i = 0; i < num_args[expr.type]; i++) {
 		if (!expr.args[i])
 			ICE("Wrongly constructed expression of type %d", expr.type);
 	}
 
+	check_constraints(&expr);
+
 	for (int i = dont_decay_ptr[expr.type];
 		 i < num_args[expr.type]; i++) {
 		decay_array(&expr.args[i]);
@@ -539,6 +698,20 @@ static struct expr *parse_compound_literal(struct type *type) {
 		});
 }
 
+static void expect_characters(struct string_view str) {
+	if (!str.len)
+		ERROR(T0->pos, "Empty character constant");
+}
+
+static struct type *parse_operand_type(void) {
+	struct expr *expr = parse_pratt(PREFIX_PREC);
+	if (!expr)
+		ERROR(T0->pos, "Expected expression");
+	if (is_bitfield(expr))
+		ERROR(T0->pos, "Can't take the size or alignment of a bit-field");
+	return expr->data_type;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -594,10 +767,10 @@ static struct expr *parse_prefix(void) {
 					type = parse_pratt_with_lhs(PREFIX_PREC, parse_compound_literal(type))->data_type;
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand_type();
 			} 
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand_type();
 		}
 
 		if (!type_is_complete(type))
@@ -613,10 +786,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand_type();
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand_type();
 		}
 
 		return type_alignof(type);
@@ -677,18 +850,22 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (T0->type == T_CHARACTER_CONSTANT) {
 		struct string_view str = T0->str;
+		expect_characters(str);
 		TNEXT();
 		return EXPR_INT(character_constant_to_int(str));
 	} else if (T0->type == T_CHARACTER_CONSTANT_WCHAR) {
 		struct string_view str = T0->str;
+		expect_characters(str);
 		TNEXT();
 		return EXPR_INTEGER(abi_info.wchar_type, character_constant_wchar_to_int(str));
 	} else if (T0->type == T_CHARACTER_CONSTANT_CHAR16) {
 		struct string_view str = T0->str;
+		expect_characters(str);
 		TNEXT();
 		return EXPR_INTEGER(CHAR16_TYPE, character_constant_char16_to_int(str));
 	} else if (T0->type == T_CHARACTER_CONSTANT_CHAR32) {
 		struct string_view str = T0->str;
+		expect_characters(str);
 		TNEXT();
 		return EXPR_INTEGER(CHAR32_TYPE, character_constant_char32_to_int(str));
 	} else if (TACCEPT(T_KGENERIC)) {
@@ -700,33 +877,34 @@ static struct expr *parse_prefix(void) {
 		decay_array(&expr);
 		struct type *match_type = type_make_const(expr->data_type, 0);
 
-		struct expr *res = NULL;
-		int res_is_default = 0;
+		struct expr *res = NULL, *default_res = NULL;
 
 		while (TACCEPT(T_COMMA)) {
-			int default_ = 0;
 			struct type *type = NULL;
-			if (TACCEPT(T_KDEFAULT)) {
-				res_is_default = 1;
-				default_ = 1;
-			} else {
+			if (!TACCEPT(T_KDEFAULT)) {
 				type = parse_type_name();
+				if (!type)
+					ERROR(T0->pos, "Expected type name in _Generic association list");
 			}
 			TEXPECT(T_COLON);
 			struct expr *rhs = parse_assignment_expression();
-			if (default_) {
-				if (!res)
-					res = rhs;
-			} else {
-				if (type_make_composite(type, match_type)) {
-					if (res && !res_is_default)
-						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
-							  strdup(dbg_type(type)));
-					res = rhs;
-				}
+			if (!rhs)
+				ERROR(T0->pos, "Expected expression.");
+			if (!type) {
+				if (default_res)
+					ERROR(T0->pos, "More than one default in _Generic association list");
+				default_res = rhs;
+			} else if (type_make_composite(type, match_type)) {
+				if (res)
+					ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
+						  strdup(dbg_type(type)));
+				res = rhs;
 			}
 		}
 
+		if (!res)
+			res = default_res;
+
 		if (!res)
 			ERROR(T0->pos, "No type matched the expresison in _Generic");
 
diff --git a/src/parser/expression.h b/src/parser/expression.h
index f1d8af4..dccb236 100644
--- a/src/parser/expression.h
+++ b/src/parser/expression.h
@@ -168,6 +168,7 @@ struct expr {
 struct expr *parse_assignment_expression(void);
 struct expr *parse_expression(void);
 struct expr *expression_cast(struct expr *expr, struct type *type);
+void expression_check_assignable(struct type *type, struct expr *expr);
 
 struct constant *expression_to_constant(struct expr *expr);
 int evaluate_constant_expression(struct expr *expr, struct constant *constant);
-- 
2.43.0


From d3669b9041b5e11beeabcbc020483bef6cb3f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:26 +0000
Subject: [PATCH 51/51] fix: constraints of declarations, members,
 enumerations, case labels, substatements, numbers and static initializers are
 checked

---
 src/arch/x64.c               | 22 ++++++++-
 src/codegen/rodata.c         |  2 +
 src/parser/declaration.c     | 86 +++++++++++++++++++++++++++++-------
 src/parser/function_parser.c | 38 +++++++++++++---
 4 files changed, 126 insertions(+), 22 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index f307baf..8d5a3e5 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -332,8 +332,13 @@ static int is_float(struct string_view str) {
 
 static struct constant floating_point_constant_from_string(struct string_view sv) {
 	char *str = sv_to_str(sv);
-	double d = strtod(str, NULL);
-	char suffix = str[strlen(str) - 1];
+	char *end;
+	double d = strtod(str, &end);
+	char suffix = *end;
+	int is_hexadecimal = str[0] == '0' && (str[1] == 'x' || str[1] == 'X');
+
+	if ((suffix && end[1]) || (is_hexadecimal && !strchr(str, 'p') && !strchr(str, 'P')))
+		ERROR_NO_POS("Invalid format of floating constant: %s", str);
 
 	struct constant res = { .type = CONSTANT_TYPE };
 	if (suffix == 'f' || suffix == 'F') {
@@ -341,6 +346,8 @@ static struct constant floating_point_constant_from_string(struct string_view sv
 		res.float_d = d;
 	} else if (suffix == 'l' || suffix == 'L') {
 		ICE("Constants of type long double is not supported by this compiler. %s", str);
+	} else if (suffix) {
+		ERROR_NO_POS("Invalid format of floating constant: %s", str);
 	} else {
 		res.data_type = type_simple(ST_DOUBLE);
 		res.double_d = d;
@@ -376,6 +383,7 @@ static struct constant integer_constant_from_string(struct string_view str) {
 	if (base == BASE_HEXADECIMAL || base == BASE_BINARY)
 		start += 2;
 
+	int first_digit = start;
 	for (; start < str.len; start++) {
 		int binary_digit = (str.str[start] >= '0' && str.str[start] <= '1');
 		int octal_digit = (str.str[start] >= '0' && str.str[start] <= '7');
@@ -409,6 +417,10 @@ static struct constant integer_constant_from_string(struct string_view str) {
 			parsed += str.str[start] - 'A' + 10;
 	}
 
+	if (start == first_digit)
+		ERROR_NO_POS("Integer constant without digits: %.*s", str.len, str.str);
+
+	int suffix_u = 0, suffix_l = 0;
 	int allow_unsigned = base == BASE_HEXADECIMAL || base == BASE_OCTAL || base == BASE_BINARY;
 	int allow_signed = 1;
 	int allow_int = 1;
@@ -421,18 +433,24 @@ static struct constant integer_constant_from_string(struct string_view str) {
 			 (str.str[start] == 'L' && str.str[start + 1] == 'L'))) {
 			start += 2;
 			allow_int = allow_long = 0;
+			suffix_l++;
 		} else if (str.str[start] == 'l' || str.str[start] == 'L') {
 			start += 1;
 			allow_int = 0;
+			suffix_l++;
 		} else if (str.str[start] == 'u' || str.str[start] == 'U') {
 			start += 1;
 			allow_unsigned = 1;
 			allow_signed = 0;
+			suffix_u++;
 		} else {
 			ICE("Invalid format of integer constant: %.*s", str.len, str.str);
 		}
 	}
 
+	if (suffix_u > 1 || suffix_l > 1)
+		ERROR_NO_POS("Invalid suffix of integer constant: %.*s", str.len, str.str);
+
 	if (parsed <= get_type_max(ST_INT) && allow_int && allow_signed) {
 		return constant_simple_signed(ST_INT, parsed);
 	} else if (parsed <= get_type_max(ST_UINT) && allow_int && allow_unsigned) {
diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..0ac850d 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -142,6 +142,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer of static object is not constant.");
 		}
 	} break;
 	case INIT_BRACE:
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index e6187f5..5d4a75e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -196,14 +196,19 @@ static int parse_specifier(struct type_specifiers *ts,
 			else
 				length_expr = parse_expression();
 
+			if (!length_expr || !type_is_integer(length_expr->data_type))
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
+
 			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
 
 			TEXPECT(T_RPAR);
 			struct constant *constant = expression_to_constant(length_expr);
-			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
-				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
-			}
-			as->alignment = constant->uint_d;
+			if (!constant || constant->type != CONSTANT_TYPE)
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
+			if ((constant->uint_d & (constant->uint_d - 1)) || constant->uint_d > INT_MAX)
+				ERROR(T0->pos, "Invalid alignment");
+			if ((int)constant->uint_d > as->alignment) // The strictest one counts.
+				as->alignment = constant->uint_d;
 			return 1;
 		}
 	}
@@ -246,7 +251,7 @@ static int parse_enumerator(struct constant *prev, int first) {
 			ERROR(T0->pos, "Expected expression");
 			
 		struct constant *ret = expression_to_constant(expr);
-		if (!ret)
+		if (!ret || !type_is_integer(expr->data_type))
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
 
 		val = *ret;
@@ -288,6 +293,8 @@ int parse_enum(struct type_specifiers *ts) {
 	if (T0->type == T_IDENT) {
 		name = T0->str;
 		TNEXT();
+	} else if (T0->type != T_LBRACE) {
+		ERROR(T0->pos, "Expected tag or enumerators, got %s", dbg_token(T0));
 	} else {
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_counter++));
@@ -296,6 +303,8 @@ int parse_enum(struct type_specifiers *ts) {
 	if (TACCEPT(T_LBRACE)) {
 		int first = 1;
 		struct constant prev;
+		if (T0->type != T_IDENT)
+			ERROR(T0->pos, "Expected enumerator");
 		while (parse_enumerator(&prev, first)) {
 			first = 0;
 		}
@@ -392,6 +401,8 @@ int parse_struct(struct type_specifiers *ts) {
 	if (T0->type == T_IDENT) {
 		name = T0->str;
 		TNEXT();
+	} else if (T0->type != T_LBRACE) {
+		ERROR(T0->pos, "Expected tag or members, got %s", dbg_token(T0));
 	} else {
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
@@ -432,8 +443,11 @@ int parse_struct(struct type_specifiers *ts) {
 				if (TACCEPT(T_COLON)) {
 					found_one = 1; // Bit-fields can't declare anonymous structs.
 
-					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
+					if (!type)
+						type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (!bitfield_expr || !type_is_integer(bitfield_expr->data_type))
+						ERROR(T0->pos, "Bit-field must be an integer");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
 					if (!c)
@@ -442,10 +456,22 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Bit-field must an integer");
 					assert(c->type == CONSTANT_TYPE);
 					bitfield = c->int_d;
+
+					if (!type_is_integer(type) || bitfield < 0 || (bitfield == 0 && name.len) ||
+						bitfield > (type_is_simple(type_remove_qualifications(type), ST_BOOL) ? 1 : 8 * calculate_size(type)))
+						ERROR(T0->pos, "Invalid bit-field");
 				} else if (needs_bitfield) {
+					if (found_one)
+						ERROR(T0->pos, "Expected member");
 					break;
+				} else if (type_is_simple(type_remove_qualifications(type), ST_VOID) || type_has_variable_size(type) ||
+						   !(type->type == TY_INCOMPLETE_ARRAY || type_is_complete(type))) {
+					ERROR(T0->pos, "Member of incomplete or variable type %s", strdup(dbg_type(type)));
 				}
 
+				if (fields_size && fields[fields_size - 1].type->type == TY_INCOMPLETE_ARRAY)
+					ERROR(T0->pos, "Array without bound is not the last member");
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -453,7 +479,8 @@ int parse_struct(struct type_specifiers *ts) {
 					.alignment = s.as.alignment
 				};
 
-				TACCEPT(T_COMMA);
+				if (!TACCEPT(T_COMMA))
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
@@ -494,6 +521,10 @@ int parse_struct(struct type_specifiers *ts) {
 		if (is_packed)
 			data->packing = 1;
 
+		if (fields_size && fields[fields_size - 1].type->type == TY_INCOMPLETE_ARRAY &&
+			(is_union || fields_size == 1))
+			ERROR(T0->pos, "Array without bound is the only member");
+
 		calculate_offsets(data);
 		type_remove_unnamed(data);
 		check_member_names(data);
@@ -767,6 +798,11 @@ static struct parameter_list parse_parameter_list(void) {
 		type = type_adjust_parameter(type);
 		ret.types[ret.n - 1] = type;
 
+		if (type_is_simple(type_remove_qualifications(type), ST_VOID))
+			ERROR(T0->pos, "Parameter of type void");
+		if (s.scs.typedef_n || s.scs.extern_n || s.scs.static_n || s.scs.auto_n || s.scs.register_n > 1)
+			ERROR(T0->pos, "Invalid storage class of parameter");
+
 		ret.arguments = cc_realloc(ret.arguments, ret.n * sizeof(*ret.arguments));
 		struct symbol_identifier *ident =
 			symbols_add_identifier(was_abstract
@@ -781,13 +817,11 @@ static struct parameter_list parse_parameter_list(void) {
 			break;
 
 		TEXPECT(T_COMMA);
+		if (T0->type == T_RPAR)
+			ERROR(T0->pos, "Expected parameter");
 	}
 
-	if (TACCEPT(T_ELLIPSIS)) {
-		ret.vararg = 1;
-	} else {
-		ret.vararg = 0;
-	}
+	ret.vararg = ret.n && TACCEPT(T_ELLIPSIS);
 
 	TEXPECT(T_RPAR);
 
@@ -1388,6 +1422,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (!has_symbols)
 			symbols_push_scope();
 
+		if (type->type != TY_FUNCTION || s.scs.typedef_n)
+			ERROR(T0->pos, "Unexpected function body");
+
 		if (!external)
 			ERROR(T0->pos, "Function definition are not allowed inside functions.");
 
@@ -1423,6 +1460,14 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
+	if (s.as.alignment && (type->type == TY_FUNCTION || s.scs.register_n ||
+						   (type_is_complete(type) && s.as.alignment < calculate_alignment(type))))
+		ERROR(T0->pos, "Invalid alignment of %.*s", name.len, name.str);
+	if (s.fs.inline_n && type->type != TY_FUNCTION)
+		ERROR(T0->pos, "%.*s is inline, but not a function", name.len, name.str);
+	if (!s.scs.extern_n && type_is_simple(type_remove_qualifications(type), ST_VOID))
+		ERROR(T0->pos, "%.*s has type void", name.len, name.str);
+
 	// Functions, objects of file scope and extern objects have linkage.
 	if (type->type == TY_FUNCTION || external || s.scs.extern_n) {
 		if (type->type == TY_FUNCTION && !external && s.scs.static_n)
@@ -1510,7 +1555,10 @@ int parse_declaration(int external) {
 						  &s.as)) {
 		if (TACCEPT(T_KSTATIC_ASSERT)) {
 			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+			struct expr *condition = parse_assignment_expression();
+			if (!condition || !type_is_integer(condition->data_type))
+				ERROR(T0->pos, "Expected integer expression in _Static_assert");
+			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), condition);
 			struct constant *constant = expression_to_constant(expr);
 			if (!constant)
 				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
@@ -1540,9 +1588,17 @@ int parse_declaration(int external) {
 		return 0;
 	}
 
+	if (s.scs.typedef_n + s.scs.extern_n + s.scs.static_n + s.scs.auto_n + s.scs.register_n > 1)
+		ERROR(T0->pos, "More than one storage class");
+	if (external && (s.scs.auto_n || s.scs.register_n))
+		ERROR(T0->pos, "Invalid storage class outside of a function");
+
 	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
+	if (T0->type != T_SEMI_COLON) {
+		do {
+			if (!parse_init_declarator(s, external, &was_func))
+				ERROR(T0->pos, "Expected declarator, got %s", dbg_token(T0));
+		} while (!was_func && TACCEPT(T_COMMA));
 	}
 
 	if (!was_func)
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8073371..5673d07 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -21,6 +21,13 @@ struct jump_blocks {
 	struct node *block_entry, *block_default;
 	struct node *case_control;
 	struct type *case_type;
+	struct case_labels *case_labels;
+};
+
+// The labels of the current switch.
+struct case_labels {
+	size_t size, cap;
+	uint64_t *values;
 };
 
 static struct function_scope {
@@ -48,6 +55,11 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+static void expect_statement(struct jump_blocks *jump_blocks) {
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+}
+
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	if (T0->type == T_IDENT &&
 		T1->type == T_COLON) {
@@ -76,7 +88,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_goto(goto_block);
 		ir_block_start(goto_block);
 
-		parse_statement(jump_blocks);
+		expect_statement(jump_blocks);
 		return 1;
 	} else if (TACCEPT(T_KCASE)) {
 		struct expr *value = parse_expression();
@@ -88,10 +100,20 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		if (!type_is_integer(value->data_type))
+			ERROR(T0->pos, "Case label doesn't have integer type");
+
 		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
-		if (!constant)
+		if (!constant || constant->type != CONSTANT_TYPE)
 			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
+		struct case_labels *labels = jump_blocks->case_labels;
+		for (size_t i = 0; i < labels->size; i++) {
+			if (labels->values[i] == constant_to_u64(*constant))
+				ERROR(T0->pos, "Duplicate case label");
+		}
+		ADD_ELEMENT(labels->size, labels->cap, labels->values) = constant_to_u64(*constant);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -110,7 +132,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 
 		jump_blocks->block_entry = new_entry;
 
-		parse_statement(jump_blocks);
+		expect_statement(jump_blocks);
 		return 1;
 	} else if (TACCEPT(T_KDEFAULT)) {
 		TEXPECT(T_COLON);
@@ -119,9 +141,11 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(block_default);
 		if (!jump_blocks->block_entry)
 			ERROR(T0->pos, "Not currently in a switch statement");
+		if (jump_blocks->block_default)
+			ERROR(T0->pos, "More than one default label in a switch statement");
 		jump_blocks->block_default = block_default;
 
-		parse_statement(jump_blocks);
+		expect_statement(jump_blocks);
 		return 1;
 	}
 	return 0;
@@ -148,7 +172,7 @@ int parse_compound_statement(struct jump_blocks *jump_blocks) {
 // The substatement of a selection or iteration statement is a block.
 static void parse_substatement(struct jump_blocks *jump_blocks) {
 	symbols_push_scope();
-	parse_statement(jump_blocks);
+	expect_statement(jump_blocks);
 	symbols_pop_scope();
 }
 
@@ -187,6 +211,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	ir_goto(block_entry);
 	ir_block_start(block_body);
 
+	struct case_labels labels = { 0 };
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 
 	new_jump_blocks.block_entry = block_entry;
@@ -194,10 +219,13 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.case_control = case_control;
 	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
+	new_jump_blocks.case_labels = &labels;
 
 	// Parse body
 	parse_substatement(&new_jump_blocks);
 
+	free(labels.values);
+
 	// A continue in the body belongs to the enclosing loop.
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
 
-- 
2.43.0

