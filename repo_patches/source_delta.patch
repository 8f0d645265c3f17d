From ed9ef016f1f8cdbaf99ff28cefc1a8604be4bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 001/126] fix: string_strncpy reads one byte past its limit

It looked at src[limit] before comparing the index with the limit, so a copy
of a field that ends at the end of a buffer read past the buffer.
---
 util/stringy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..11a0ed7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,7 +141,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
-- 
2.43.0


From a8dfe6fe73a9a69c775446e614eab8f609699e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 002/126] fix: every table source leaks the string its name was
 exported from

---
 lib/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/query.c b/lib/query.c
index f8e515b..4f66d51 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -597,6 +597,7 @@ int query_add_source(query* self,
 	                alias,
 	                self->sources->size - 1,
 	                self->join);
+	string_destroy(&table_name);
 
 	if (is_variable) {
 		vec_push_back(self->variable_tables, &new_table);
-- 
2.43.0


From 6c7b30846368c2d8a924ae94a593fb1e42a6d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 003/126] fix: NOT in front of a search condition was parsed
 and then ignored

`where not a = 1' and `where not (a = 1 or b = 2)' selected the rows they
were meant to exclude.  A logic group of its own type now negates its item.
---
 lib/antlr/listenerinterface.cpp |  7 +++++--
 lib/fqlplan.c                   |  3 +++
 lib/logic.c                     | 10 +++++++++-
 lib/logic.h                     |  1 +
 lib/query.c                     |  5 +++++
 lib/query.h                     |  1 +
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..5ddad80 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -866,7 +866,8 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
-	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
+	bool negated = ctx->NOT().size() % 2;
+	if (ctx->LR_BRACKET() && ctx->RR_BRACKET() && !negated) {
 		return;
 	}
 	if (_query->logic_mode == LOGIC_UNDEFINED) {
@@ -889,11 +890,13 @@ void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContex
 		query_enter_search_and(_query);
 	} else if (ctx->OR()) {
 		query_enter_search_or(_query);
+	} else if (negated) {
+		query_enter_search_not(_query);
 	}
 }
 void ListenerInterface::exitSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
-	if (ctx->AND() || ctx->OR()) {
+	if (ctx->AND() || ctx->OR() || ctx->NOT().size() % 2) {
 		query_exit_search_item(_query);
 	}
 }
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..00d8831 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -218,6 +218,9 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 	case LG_AND:
 		string_strcat(logic_proc->plan_msg, "AND(");
 		break;
+	case LG_NOT:
+		string_strcat(logic_proc->plan_msg, "NOT(");
+		break;
 	case LG_PREDICATE:
 		if (lg->negation) {
 			string_strcat(logic_proc->plan_msg, "NOT(");
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..eec4304 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -212,6 +212,10 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 	int ret = 0;
 	ret = try_(logicgroup_eval(self->items[0], rg, skip));
 
+	if (self->type == LG_NOT) {
+		return !ret;
+	}
+
 	/* Check for short circuit */
 	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
 		return ret;
@@ -225,7 +229,7 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
  * true for the group to evaluate to true. I believe
  * ignoring negation here is correct. The purpose
  * being, if it must be true, it is a candidate for
- * hash join logic.
+ * hash join logic. Nothing below a NOT must be true.
  */
 int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
@@ -236,6 +240,10 @@ int logic_can_be_false(logicgroup* self, logic* check_logic)
 		return 1;
 	}
 
+	if (self->type == LG_NOT) {
+		return 1;
+	}
+
 	int ret = 0;
 	ret = logic_can_be_false(self->items[0], check_logic);
 
diff --git a/lib/logic.h b/lib/logic.h
index e64da8d..60cdcdc 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -86,6 +86,7 @@ enum logicgroup_type {
 	LG_AND,
 	LG_OR,
 	LG_PREDICATE,
+	LG_NOT,
 };
 
 struct logicgroup {
diff --git a/lib/query.c b/lib/query.c
index 4f66d51..9092ebc 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1034,6 +1034,11 @@ void query_enter_search_and(query* self)
 	_add_logic_item(self, LG_AND);
 }
 
+void query_enter_search_not(query* self)
+{
+	_add_logic_item(self, LG_NOT);
+}
+
 void query_exit_search_item(query* self)
 {
 	_check_for_logic_exit(self, node_pop(&self->logic_stack));
diff --git a/lib/query.h b/lib/query.h
index 282b590..89f8454 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -277,6 +277,7 @@ void query_set_logic_comparison(struct query*, const char*);
 void query_set_logic_isnull(struct query*, bool negation);
 void query_enter_search_or(struct query*);
 void query_enter_search_and(struct query*);
+void query_enter_search_not(struct query*);
 void query_exit_search_item(struct query*);
 void query_enter_predicate(struct query*, unsigned negation, bool in);
 void query_exit_predicate(struct query*, bool in, bool like);
-- 
2.43.0


From d90825579c1e5c35b72120419225d2226d2c3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 004/126] fix: integer overflow checks missed the smallest
 integer

The macros negated their operands, so with LONG_MIN they overflowed
themselves, let LONG_MIN + LONG_MIN and 0 - LONG_MIN through and returned a
wrapped result.
---
 lib/misc.h | 53 ++++++++++++-----------------------------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..167f0f3 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -35,63 +35,34 @@
 		ret_;                     \
 	})
 
-#define overflow_safe_add_i(n0_, n1_)                                    \
+#define overflow_safe_add_i(n0_, n1_)                                       \
 	({                                                               \
-		if (n0_ > 0 && n1_ > 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)n1_           \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_add_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ + n1_;                                               \
+		result_;                                                 \
 	})
 
-#define overflow_safe_minus_i(n0_, n1_)                                  \
+#define overflow_safe_minus_i(n0_, n1_)                                     \
 	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_sub_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ - n1_;                                               \
+		result_;                                                 \
 	})
 
-#define overflow_safe_multiply_i(n0_, n1_)                               \
+#define overflow_safe_multiply_i(n0_, n1_)                                  \
 	({                                                               \
-		unsigned long u0_ = 0;                                   \
-		unsigned long u1_ = 0;                                   \
-		bool neg_ = false;                                       \
-		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
-			neg_ = true;                                     \
-		} else {                                                 \
-			u0_ = n0_;                                       \
-		}                                                        \
-		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
-			neg_ = !neg_;                                    \
-		} else {                                                 \
-			u1_ = n1_;                                       \
-		}                                                        \
-		unsigned long result_ = u0_ * u1_;                       \
-		if (u0_ != 0                                             \
-		    && (result_ / u0_ != u1_                             \
-		        || result_ > (unsigned long)LONG_MAX + neg_)) {  \
+		long result_ = 0;                                        \
+		if (__builtin_mul_overflow(n0_, n1_, &result_)) {        \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		(neg_) ? -1 * result_ : result_;                         \
+		result_;                                                 \
 	})
 
 #endif /* MISC_H */
-- 
2.43.0


From f6faf690a77dc1a48180e13f877b86664ad5c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 005/126] fix: modulo by zero and LONG_MIN / -1 killed the
 process

Both raised SIGFPE.  They now fail as division by zero and as arithmetic
overflow like the other operators do.
---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..3e7b124 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps even though the result is representable */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 6760ee9f74127020d0ac29ae3d93874e47fd7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 006/126] fix: RIGHT read past the end of its argument

right(x, n) with n larger than the argument copied n bytes, so it returned
whatever followed the field in the file.
---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 3e7b124..098e141 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -231,7 +231,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From bd0d7e2d0e13daf79da7968368251d5350eeec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 007/126] fix: REPLACE searched for one byte more than its
 second argument

The copy of a pattern that is not a constant included the byte after it (the
delimiter, if it came from a file) and was written one past its buffer.
---
 lib/scalarfn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 098e141..3bd5528 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -335,7 +335,8 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	memcpy(needle_cpy, needle.data, needle.len);
+	needle_cpy[needle.len] = '\0';
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From 8694808921b1c553ce30cd316bb4b0f86539f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 008/126] fix: REPLACE with an empty pattern never returned

An empty pattern was found at the same place again and again while the string
grew.  It now finds nothing.
---
 util/stringy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 11a0ed7..fcdad30 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,9 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) { /* nothing to find */
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +277,9 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) { /* nothing to find */
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 407140ed4625aebbed609c4615b8cd0f94f7a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 009/126] fix: SUBSTRING that ends before the string begins
 copied past it

substring(x, -5, 2) made a length of -4 out of its arguments.
---
 lib/scalarfn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 3bd5528..285bdc6 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -285,6 +285,9 @@ int fql_substring(function* fn, union field* ret, node* rg)
 
 	if (start < 0) {
 		n += start;
+		if (n < 0) {
+			n = 0;
+		}
 	}
 
 	if (idx + n > sv.len) {
-- 
2.43.0


From 8d55235a9e176fa97bf08ffe0045857d2f317058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 010/126] fix: trimmed hash keys disagreed with the comparisons
 they stand for

Comparing ignores any trailing white space, but hashing trimmed only blanks,
and nothing from a key of only blanks.  GROUP BY, DISTINCT, IN (subquery) and
hash joins therefore split what = holds to be equal.
---
 util/hashmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..81a9a49 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -422,7 +422,7 @@ _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* re
 		*keyptr = key[i];
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -446,7 +446,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
 		*keyptr = tolower(key[i]);
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
-- 
2.43.0


From bde52b2044dfab69a1cc674f32886b9db4badce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 011/126] fix: BETWEEN, EXISTS, ESCAPE and quantified
 comparisons reached the planner

---
 lib/antlr/listenerinterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 5ddad80..824917f 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -903,6 +903,12 @@ void ListenerInterface::exitSearch_condition(TSqlParser::Search_conditionContext
 
 void ListenerInterface::enterPredicate(TSqlParser::PredicateContext * ctx)
 {
+	if (ctx->EXISTS() || ctx->BETWEEN() || ctx->ESCAPE() || ctx->ALL() || ctx->SOME()
+	    || ctx->ANY()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		/* Nothing could be evaluated in its place. */
+		_set_failure();
+	}
 	query_enter_predicate(_query, ctx->NOT().size(), (ctx->IN() != NULL));
 }
 
-- 
2.43.0


From c6aeff036a7beae266741ebf72444bc91520a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 012/126] fix: RIGHT and FULL JOIN were announced as
 unsupported and run as INNER JOIN

---
 lib/antlr/listenerinterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 824917f..bb4be78 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -341,9 +341,11 @@ void ListenerInterface::enterJoin_on(TSqlParser::Join_onContext* ctx)
 	} else if (ctx->RIGHT()) {
 		_query->join = JOIN_RIGHT;
 		std::cerr << "RIGHT JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else if (ctx->FULL()) {
 		_query->join = JOIN_FULL;
 		std::cerr << "FULL JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else {
 		_query->join = JOIN_INNER;
 	}
-- 
2.43.0


From 6abf9d962d05d42aff24076a964672c76c433996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 013/126] fix: a comma separated table list dereferenced its
 missing join condition

---
 lib/fqlplan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 00d8831..0863408 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -372,7 +372,8 @@ int _from(plan* self, query* query, fqlhandle* fql)
 	for (++table_iter; table_iter != vec_end(query->sources); ++table_iter) {
 
 		process* join_proc = NULL;
-		bool is_hash_join = (table_iter->condition->join_logic != NULL);
+		bool is_hash_join = (table_iter->condition != NULL
+		                     && table_iter->condition->join_logic != NULL);
 		if (is_hash_join) {
 			join_proc = _new_join_proc(table_iter->join_type, "hash", self);
 			join_proc->fifo_aux_root = (void*)1;
-- 
2.43.0


From 6ad93807e33bedf6c158a2d1f06007632a994ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 014/126] fix: a join key drawing on both tables was taken for
 a hash join key

---
 lib/schema.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..805ca0b 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -784,6 +784,9 @@ enum join_side _get_join_side(expression* expr, int right_idx)
 		}
 		return side0;
 	}
+	case EXPR_SWITCH_CASE:
+		/* its tests and values may come from anywhere */
+		return SIDE_MIXED;
 	default:
 		return SIDE_UNDEF;
 	}
@@ -804,6 +807,9 @@ void _resolve_join_conditions(table* right_table, int right_idx)
 			continue;
 		}
 		enum join_side side1 = _get_join_side((*it)->expr[1], right_idx);
+		if (side1 == SIDE_MIXED) {
+			continue;
+		}
 		if (side0 != side1) {
 			if (!logic_can_be_false(right_table->condition, *it)) {
 				right_table->condition->join_logic = *it;
-- 
2.43.0


From bd6c72bc7c1fb9892130dc4750283982a7502b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 015/126] fix: hash join matched NULL keys with '' and 0, and
 told 0.0 from -0.0

---
 lib/fqlprocesses.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..7ad1057 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1,4 +1,5 @@
 #include "process.h"
+#include <math.h>
 #include "fql.h"
 #include "misc.h"
 #include "group.h"
@@ -364,27 +365,35 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 	long int_hold = 0;
 	double float_hold = 0;
 	stringview sv;
+	int ret = FQL_GOOD;
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			float_hold += 0.0; /* -0.0 equals 0.0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
+			if (isnan(float_hold)) {
+				ret = FQL_NULL;
+			}
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		/* NULL never equals anything */
+		if (ret != FQL_NULL) {
+			multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -402,22 +411,30 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			float_hold += 0.0; /* -0.0 equals 0.0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
+			if (isnan(float_hold)) {
+				ret = FQL_NULL;
+			}
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (ret == FQL_NULL) {
+			return -1;
+		}
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
-- 
2.43.0


From b7dd4492ee5b77e06159a00867a2d4497cce0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 016/126] fix: LEFT JOIN repeated a row for every match its
 other conditions rejected

---
 lib/fqlprocesses.c | 32 ++++++++++++++++++++++++--------
 lib/logic.h        |  1 +
 lib/record.h       |  2 ++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 7ad1057..06161dd 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -520,6 +520,7 @@ enum proc_return fql_hash_join(process* proc)
 		node** right_rg = fifo_get_or_wait(proc->fifo_aux_root);
 		record* right_rec = (*right_rg)->data;
 		right_rec->src_idx = proc->out_src_count - 1;
+		right_rec->is_last_match = (hj->recs == NULL);
 		reader* reader = table->reader;
 		try_(reader->get_record_at__(reader, *right_rg, offset));
 
@@ -632,7 +633,7 @@ enum proc_return fql_left_join_logic(process* proc)
 	// No out_false for left_join
 	//fifo* out_false = proc->fifo_out[0];
 	fifo* out_true = proc->fifo_out[1];
-	if (out_true && !out_true->is_open) {
+	if (!out_true->is_open) {
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -644,7 +645,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
-	if (!out_true && !fifo_receivable(out_true)) {
+	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
 
@@ -659,22 +660,37 @@ enum proc_return fql_left_join_logic(process* proc)
 		/* If the right-most expected node is missing,
 		 * these records have already failed a hash join.
 		 */
-		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
-			if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
-				/* our condition failed, but we still want to pass
-				 * it on. Chop off right-most node and recycle it.
+		bool pass = true;
+		record* right_rec = record_at(*rg_iter, proc->out_src_count - 1);
+		if (right_rec != NULL) {
+			bool is_last = right_rec->is_last_match;
+			pass = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+			if (pass) {
+				lg->left_matched = true;
+			} else if (is_last && !lg->left_matched) {
+				/* our condition failed for every match, but we
+				 * still want to pass the left side on. Chop off
+				 * right-most node and recycle it.
 				 */
 				node* right_side = node_back(*rg_iter);
 				//node_export(right_side);
 				fqlprocess_recycle(proc, &right_side);
+				pass = true;
+			}
+			if (is_last) {
+				lg->left_matched = false;
 			}
 		}
 
 		_fqlprocess_print_iter_states(proc, -1);
-		fifo_add(out_true, rg_iter);
+		if (pass) {
+			fifo_add(out_true, rg_iter);
+		} else {
+			fqlprocess_recycle(proc, rg_iter);
+		}
 
 		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
+		if (!fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
diff --git a/lib/logic.h b/lib/logic.h
index 60cdcdc..177bbda 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -97,6 +97,7 @@ struct logicgroup {
 	struct logic* join_logic;
 	struct logic* condition;
 	bool negation;
+	bool left_matched; /* LEFT JOIN: current left side has been passed on */
 };
 typedef struct logicgroup logicgroup;
 
diff --git a/lib/record.h b/lib/record.h
index fa2cafe..defa171 100644
--- a/lib/record.h
+++ b/lib/record.h
@@ -3,6 +3,7 @@
 
 #include <inttypes.h>
 #include <csv.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <sys/types.h>
 #include "util/vec.h"
@@ -27,6 +28,7 @@ struct record {
 	unsigned max_subquery_count;
 	unsigned max_group_count;
 	unsigned root_fifo_idx;
+	bool is_last_match; /* no more hash join matches for the left side */
 };
 typedef struct record record;
 
-- 
2.43.0


From 4085fbddb77e07385811235c9b22c0401be1ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 017/126] fix: two threads recycling copies of a record could
 lose the original

---
 lib/fqlprocesses.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 06161dd..e25d631 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -132,10 +132,9 @@ void fqlprocess_recycle(process* proc, node** rg)
 		 */
 		if (rec->rec_copy_node != NULL) {
 			record* rec_src = rec->rec_copy_node->data;
-			if (rec_src->ref_count - 1 == 0) {
+			if (--rec_src->ref_count == 0) {
+				rec_src->ref_count = 1;
 				fqlprocess_recycle(proc, &rec->rec_copy_node);
-			} else {
-				--rec_src->ref_count;
 			}
 			rec->rec_copy_node = NULL; /* redundant? */
 		}
-- 
2.43.0


From 39015b42f47394304ef696088d9ba2d90c5dcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 018/126] fix: IN (subquery) compared numbers as caseless bytes
 and NULL as a value

---
 lib/fqllogic.c  |  1 +
 lib/fqlplan.c   |  4 +++-
 lib/fqlselect.c | 32 ++++++++++++++++++++++++++------
 lib/fqlselect.h |  3 ++-
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..792fb2d 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -240,6 +240,7 @@ int fql_logic_subin_f(logic* self, node* rg)
 {
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
+	n0 += 0.0; /* -0.0 equals 0.0 */
 	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
 }
 
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 0863408..73a9889 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -180,7 +180,9 @@ int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
 	query* subquery = lg->condition->in_data->subquery;
 	/* We can assume select because subquery */
-	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data));
+	try_(fqlselect_set_as_inlist(subquery->op,
+	                             lg->condition->in_data,
+	                             lg->condition->expr[0]));
 	lg->condition->comp_type = COMP_SUBIN;
 	process_add_to_wait_list(logic_proc, subquery->plan->op_true->data);
 	return FQL_GOOD;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..dac3803 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -1,4 +1,5 @@
 #include "fqlselect.h"
+#include <math.h>
 #include "csv.h"
 #include "field.h"
 #include "fql.h"
@@ -238,7 +239,7 @@ void fqlselect_apply_expression_alias(fqlselect* self, const char* alias)
 	schema_apply_expression_alias(self->schema, alias);
 }
 
-int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
+int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist, expression* left_side)
 {
 	if (self->schema->expressions->size == 1) {
 		expression** expr = vec_begin(self->schema->expressions);
@@ -250,7 +251,15 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	/* Keys are looked up as this type. Only strings compare
+	 * without regard to case and trailing space.
+	 */
+	self->list_type = inlist_determine_type(inlist, left_side);
+	inlist->list_data = new_(set,
+	                         16,
+	                         (self->list_type == FIELD_STRING)
+	                                 ? HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM
+	                                 : HASHMAP_PROP_DEFAULT);
 	self->list_data = inlist->list_data;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
@@ -310,6 +319,9 @@ int fqlselect_reset(fqlselect* self)
 	self->offset = 0;
 	self->rownum = 0;
 	self->rows_affected = 0;
+	if (self->list_data != NULL) {
+		set_clear(self->list_data);
+	}
 	if (self->const_dest != NULL) {
 		self->const_dest->expr = EXPR_SUBQUERY;
 	}
@@ -497,22 +509,30 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	switch (self->list_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL
+		    || isnan(num)) {
+			return 1;
+		}
+		num += 0.0; /* -0.0 equals 0.0 */
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..5d715b8 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -18,6 +18,7 @@ struct fqlselect {
 	struct schema* schema;
 	struct writer* writer;
 	set* list_data;
+	enum field_type list_type;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
@@ -42,7 +43,7 @@ void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
-int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
+int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
-- 
2.43.0


From 91e42ffeb716c0f066a1e9a2c74e38db37f33687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 019/126] fix: a filtered member of a UNION used a freed plan
 node

---
 lib/fqlplan.c      | 30 ++++++++++++++++++++++++++++++
 lib/fqlprocesses.c |  3 ++-
 lib/process.c      |  7 ++++---
 lib/process.h      |  1 +
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 73a9889..e7a5370 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -525,6 +525,25 @@ int _having(plan* self, query* query)
 	return plan_logicgroup_to_process(self, query->having, NULL, false);
 }
 
+/* Find the node that feeds this passive node. It will always be
+ * something that filters, so the records come from branch 1.
+ */
+dnode* _find_true_source(plan* self, dnode* passive)
+{
+	dnode** it = vec_begin(self->processes->nodes);
+	for (; it != vec_end(self->processes->nodes); ++it) {
+		if ((*it)->out[1] != passive) {
+			continue;
+		}
+		process* proc = (*it)->data;
+		if (proc->is_passive) {
+			return _find_true_source(self, *it);
+		}
+		return *it;
+	}
+	return NULL;
+}
+
 int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_union)
 {
 	dnode* prev = self->current;
@@ -544,6 +563,14 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 			self->current = prev;
 			return FQL_GOOD;
 		}
+		/* passive nodes do not survive. */
+		dnode* source = _find_true_source(self, prev);
+		if (source != NULL && !vec_empty(query->sources)) {
+			process* source_proc = source->data;
+			source_proc->union_out = 1;
+			self->current = source;
+			return FQL_GOOD;
+		}
 	}
 
 	try_(op_apply_process(query, self, (is_union || entry != NULL)));
@@ -580,6 +607,9 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	for (; it != vec_end(aquery->unions); ++it) {
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
+		_check_all_for_special_expression(self,
+		                                  select_proc,
+		                                  op_get_expressions((*it)->op));
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
 		if (!union_plan->is_const) {
 			process* union_true = union_plan->op_true->data;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index e25d631..a820f1e 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -847,7 +847,8 @@ enum proc_return fql_select(process* proc)
 		dnode** it = vec_begin(proc->union_end_nodes);
 		for (; it != vec_end(proc->union_end_nodes); ++it) {
 			process* union_end_proc = (*it)->data;
-			fifo_set_open(union_end_proc->fifo_out[0], false);
+			fifo_set_open(union_end_proc->fifo_out[union_end_proc->union_out],
+			              false);
 		}
 		return PROC_RETURN_COMPLETE;
 	}
diff --git a/lib/process.c b/lib/process.c
index 933062f..fc185d0 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -110,9 +110,10 @@ void process_activate(process* self, plan* plan, unsigned base_size, unsigned* p
 	for (; it != vec_end(self->union_end_nodes); ++it) {
 		process* select_proc = (*it)->data;
 		++(*pipe_count);
-		select_proc->fifo_out[0] = new_t_(fifo, node*, base_size);
-		select_proc->fifo_out[0]->input_count = 1;
-		node_enqueue(&self->queued_results, select_proc->fifo_out[0]);
+		fifo* union_fifo = new_t_(fifo, node*, base_size);
+		union_fifo->input_count = 1;
+		select_proc->fifo_out[select_proc->union_out] = union_fifo;
+		node_enqueue(&self->queued_results, union_fifo);
 	}
 
 	if (self->fifo_in[0] == NULL) {
diff --git a/lib/process.h b/lib/process.h
index 8ef4e49..52cca8e 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -42,6 +42,7 @@ struct process {
 	unsigned short in_src_count;  /* number of input sources at this step */
 	unsigned short out_src_count; /* number of output sources at this step */
 	short root_fifo;              /* index of root for fifo_in[x] */
+	short union_out;              /* where a union sends its records */
 	short killed_pipe;            /* start a process with a closed pipe */
 	_Atomic bool is_enabled;      /* enabled means it still has work to do*/
 	bool is_secondary;            /* fifo_out0 should link to a fifo_in1 */
-- 
2.43.0


From 6515036b427c94b947066cbd787836dda9e033f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 020/126] fix: SELECT without a header leaked its list of
 unions

---
 lib/fqlselect.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index dac3803..f6dfe95 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -48,6 +48,7 @@ void fqlselect_destroy(fqlselect* self)
 
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	node_free(&self->union_selects);
 	if (self->header_as_exprs == NULL) {
 		return;
 	}
@@ -57,8 +58,6 @@ void fqlselect_destroy(fqlselect* self)
 		delete_(expression, *it);
 	}
 	delete_(vec, self->header_as_exprs);
-
-	node_free(&self->union_selects);
 }
 
 unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
-- 
2.43.0


From fd6711e9905990ab194e6d18af97ef70ec8afbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 021/126] fix: a derived table returned only the first SELECT
 of its UNION

---
 lib/fqlselect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index f6dfe95..753b63e 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -210,6 +210,7 @@ void fqlselect_apply_process(query* query, plan* plan, bool is_subquery_source)
 		}
 	} else if (is_subquery_source) {
 		self->select__ = &_select_subquery;
+		self->_union_node = self->union_selects;
 	}
 
 	string_strcpy(proc->plan_msg, "SELECT ");
-- 
2.43.0


From 4b2306c2b7a2e7db0a11015faf1eba0f51331af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 022/126] fix: stdin on the right of a join was read back
 before its copy was written

---
 lib/fixedread.c  | 2 ++
 lib/fqlplan.c    | 3 +++
 lib/libcsvread.c | 3 +++
 lib/reader.c     | 9 +++++----
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index ecad6b4..49a2db0 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -161,6 +161,8 @@ int fixedread_reset_stdin(reader* reader)
 	reader_stop_file_backed_input(reader);
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
+	reader->rec_id = 0;
+	reader->eof = false;
 
 	return fixedread_open(reader, string_c_str(reader->random_access_filename));
 }
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index e7a5370..c189efe 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -436,6 +436,9 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				      stderr);
 				return FQL_FAIL;
 			}
+			if (table_iter->is_stdin) {
+				reader_start_file_backed_input(table_iter->reader);
+			}
 			join_proc =
 			        _new_join_proc(table_iter->join_type, "cartesian", self);
 			join_proc->action__ = &fql_cartesian_join;
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 0c66c9e..7c0ab5b 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -110,6 +110,9 @@ int libcsv_reset_stdin(reader* self)
 {
 	reader_stop_file_backed_input(self);
 	self->reset__ = libcsv_reset;
+	self->rec_id = 0;
+	self->eof = false;
+	self->skip_rows = 0; /* no header in the copy */
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
 		csv_perror();
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..320ed07 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -33,8 +33,7 @@ void reader_destroy(reader* self)
 		self->free__(self->reader_data);
 	}
 
-	/* TODO */
-	if (self->random_access_filename != NULL) { }
+	delete_if_exists_(string, self->random_access_filename);
 }
 
 int reader_assign(reader* self, table* table, struct fqlhandle* fql)
@@ -149,8 +148,10 @@ int reader_start_file_backed_input(reader* self)
 
 int reader_stop_file_backed_input(reader* self)
 {
-	// Should close on csv_writer_free
-	//fclose(self->random_access_file);
+	/* A subquery's file should close on csv_writer_free */
+	if (self->subquery_writer == NULL && self->random_access_file != NULL) {
+		fclose(self->random_access_file);
+	}
 	self->random_access_file = NULL;
 	return FQL_GOOD;
 }
-- 
2.43.0


From 7414a4373e261900a26104336ce5a77144b087a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 023/126] fix: a CASE without a match was NULL to the writer
 only

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From bcd1d277ac07f5609d65fa8385fc161b0938ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 024/126] fix: a function cast by a UNION or CASE had its bits
 reinterpreted

---
 lib/expression.c | 63 +++++++++++++++++++++++++++++++-----------------
 lib/expression.h |  2 ++
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index becd071..70aef29 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -289,7 +289,11 @@ int expression_cast(expression* self, enum field_type new_type)
 	}
 
 	if (self->expr != EXPR_CONST) {
-		/* lol - this is probably wrong */
+		/* A function still returns what it always returned */
+		if (self->expr == EXPR_FUNCTION && !self->is_cast) {
+			self->is_cast = true;
+			self->uncast_type = self->field_type;
+		}
 		self->field_type = new_type;
 		return FQL_GOOD;
 	}
@@ -371,6 +375,36 @@ void expression_update_indicies(vec* expr_vec)
 }
 
 
+/* Call a function, and convert what it returns if the
+ * expression has been cast since the function was resolved.
+ */
+int _call_function(expression* self, union field* ret, enum field_type* type, node* rg)
+{
+	function* func = self->field.fn;
+	*type = (self->is_cast) ? self->uncast_type : self->field_type;
+	if (*type == FIELD_STRING) {
+		ret->s = &self->buf;
+		string_clear(ret->s);
+	}
+	try_deref_(func->call__(func, ret, rg));
+
+	if (*type == self->field_type) {
+		return FQL_GOOD;
+	}
+	switch (self->field_type) {
+	case FIELD_INT: {
+		long num = 0;
+		return field_to_int(&num, ret, type);
+	}
+	case FIELD_FLOAT: {
+		double num = 0;
+		return field_to_float(&num, ret, type);
+	}
+	default:
+		return FQL_GOOD;
+	}
+}
+
 /* TODO: field_to_xx functions should only be called once.
 	 *       After which we should be able to assume the correct
 	 *       type. The best way to handle this would be to set
@@ -422,14 +456,9 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type = FIELD_UNDEFINED;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_int(ret, &new_field, &new_field_type));
 		break;
 	}
@@ -490,14 +519,9 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type = FIELD_UNDEFINED;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_float(ret, &new_field, &new_field_type));
 		break;
 	}
@@ -586,14 +610,9 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type = FIELD_UNDEFINED;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
 	}
diff --git a/lib/expression.h b/lib/expression.h
index 50eb0c2..3f6579e 100644
--- a/lib/expression.h
+++ b/lib/expression.h
@@ -40,6 +40,7 @@ struct expression {
 	string table_name;
 	string buf;
 	enum field_type field_type;
+	enum field_type uncast_type;
 	union field field;
 	unsigned index;
 	unsigned location;
@@ -48,6 +49,7 @@ struct expression {
 	int subquery_src_idx;
 	bool descending;
 	bool is_passthrough;
+	bool is_cast;
 };
 typedef struct expression expression;
 
-- 
2.43.0


From c7df74a623bc38f09d1ccadf3dd7a699c0dd080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 025/126] fix: LIKE with a pattern only known at execution
 leaked, or matched nothing

---
 lib/fqllogic.c |  5 +++--
 lib/like.c     | 21 +++++++++++++++++----
 lib/logic.c    |  5 ++++-
 lib/logic.h    |  1 +
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 792fb2d..8db0aa5 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -256,10 +256,11 @@ int fql_logic_like(logic* self, node* rg)
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
 
-	if (self->expr[1]->expr != EXPR_CONST) {
+	/* A variable only becomes a constant just before execution */
+	if (!self->like_data->is_const) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
-		like_to_regex(self->like_data, sv1);
+		try_(like_to_regex(self->like_data, sv1));
 	}
 	int match_ret = pcre2_match(self->like_data->regex,
 	                            (PCRE2_SPTR)sv0.data,
diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..ff0f8a0 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -8,22 +8,33 @@ like* like_construct(like* self)
 	string_construct(&self->regex_buffer);
 	vec_construct_(&self->ranges, string);
 	self->regex = NULL;
+	self->match = NULL;
+	self->is_const = false;
 	return self;
 }
 
-void like_destroy(like* self)
+/* Forget the last pattern */
+void _like_clear(like* self)
 {
 	string* it = vec_begin(&self->ranges);
 	for (; it != vec_end(&self->ranges); ++it) {
 		string_destroy(it);
 	}
-	vec_destroy(&self->ranges);
-	string_destroy(&self->like_buffer);
-	string_destroy(&self->regex_buffer);
+	vec_clear(&self->ranges);
 	if (self->regex != NULL) {
 		pcre2_match_data_free(self->match);
 		pcre2_code_free(self->regex);
 	}
+	self->regex = NULL;
+	self->match = NULL;
+}
+
+void like_destroy(like* self)
+{
+	_like_clear(self);
+	vec_destroy(&self->ranges);
+	string_destroy(&self->like_buffer);
+	string_destroy(&self->regex_buffer);
 }
 
 /* This is just a C version of the a C++ solution:
@@ -113,6 +124,8 @@ int like_to_regex(like* self, const stringview sql_like)
 {
 	//fprintf(stderr, "LIKE: %.*s\n", sql_like.len, sql_like.data);
 
+	_like_clear(self);
+
 	string* likebuf = &self->like_buffer;
 	string_copy_from_stringview(likebuf, &sql_like);
 	string_find_replace(likebuf, "\\", "\\\\");
diff --git a/lib/logic.c b/lib/logic.c
index eec4304..8685292 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -56,13 +56,16 @@ void logic_destroy(logic* self)
 
 int _precompile_like(logic* self)
 {
-	self->like_data = new_(like);
+	if (self->like_data == NULL) {
+		self->like_data = new_(like);
+	}
 	if (self->expr[1]->expr != EXPR_CONST) {
 		return FQL_GOOD;
 	}
 	stringview sv = {0};
 	try_(expression_get_stringview(&sv, self->expr[1], NULL));
 	try_(like_to_regex(self->like_data, sv));
+	self->like_data->is_const = true;
 
 	pcre2_jit_compile(self->like_data->regex, PCRE2_JIT_COMPLETE);
 
diff --git a/lib/logic.h b/lib/logic.h
index 177bbda..66f8f80 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -74,6 +74,7 @@ struct like {
 	struct vec ranges;
 	pcre2_code* regex;
 	pcre2_match_data* match;
+	bool is_const;
 };
 typedef struct like like;
 
-- 
2.43.0


From ac32f238100a039cd9aaac179b728be2992e31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 026/126] fix: LIKE took the ^ of a negated [^set] for a member
 of the set

---
 lib/like.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/like.c b/lib/like.c
index ff0f8a0..538f520 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -72,6 +72,11 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 		char* b_end = vec_back(&bracketed);
 		vec_erase_one(&bracketed, b_end);
 
+		/* A leading ^ negates, and was escaped with the others */
+		if (bracketed.size > 1 && !memcmp(bracketed.data, "\\^", 2)) {
+			vec_erase_at(&bracketed, 0, 1);
+		}
+
 		/* Escaple all brackets left */
 		string_find_replace(&bracketed, "[", "\\[");
 		string_find_replace(&bracketed, "]", "\\]");
-- 
2.43.0


From 6f9292aec1db2e7cd5def7441c47de65e9c3251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 027/126] fix: LIKE wildcards did not match a line feed, and a
 pattern ignored a last one

---
 lib/like.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/like.c b/lib/like.c
index 538f520..5cc441c 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -162,7 +162,7 @@ int like_to_regex(like* self, const stringview sql_like)
 	PCRE2_SIZE pcre_error_offset = 0;
 	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(&self->regex_buffer),
 	                            self->regex_buffer.size,
-	                            PCRE2_CASELESS,
+	                            PCRE2_CASELESS | PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY,
 	                            &pcre_error,
 	                            &pcre_error_offset,
 	                            NULL);
-- 
2.43.0


From c304bed00ac1b7f10ddd09845265b0e8868ed03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 028/126] fix: a branch at the end of a loop, an IF or an ELSE
 lost its way out

---
 lib/antlr/listenerinterface.cpp |  68 ++++++------
 lib/antlr/listenerinterface.h   |   2 -
 lib/fqlbranch.c                 |   7 +-
 lib/fqlbranch.h                 |   3 -
 lib/fqlhandle.h                 |   6 --
 lib/libfql.c                    |   1 -
 lib/query.c                     | 176 ++++++++------------------------
 lib/query.h                     |  11 +-
 lib/scope.c                     |   1 -
 lib/scope.h                     |   1 -
 10 files changed, 79 insertions(+), 197 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index bb4be78..a0e42d9 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -67,8 +67,7 @@ void ListenerInterface::enterIf_statement(TSqlParser::If_statementContext * ctx)
 	_query->mode = MODE_IF;
 	_operation = FQL_IF;
 
-	/* enter_if will call query_init_op */
-	if (query_enter_if(_query, _query_stack, _operation, (ctx->ELSE() != NULL))) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -81,8 +80,7 @@ void ListenerInterface::enterWhile_statement(TSqlParser::While_statementContext
 {
 	_query->mode = MODE_WHILE;
 	_operation = FQL_WHILE;
-	/* enter_if will call query_init_op */
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -91,16 +89,8 @@ void ListenerInterface::exitWhile_statement(TSqlParser::While_statementContext *
 	query_exit_branch(_query);
 }
 
-void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx)
-{
-	_entering_block_stmt = true;
-	query_enter_block(_query);
-}
-void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx)
-{
-	_exiting_block_stmt = true;
-	query_exit_block(_query);
-}
+void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx) { }
+void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx) { }
 
 void ListenerInterface::enterAnother_statement(TSqlParser::Another_statementContext * ctx) { }
 void ListenerInterface::exitAnother_statement(TSqlParser::Another_statementContext * ctx) { }
@@ -109,7 +99,7 @@ void ListenerInterface::enterDeclare_statement(TSqlParser::Declare_statementCont
 {
 	_query->mode = MODE_DECLARE;
 	_operation = FQL_SET;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -136,7 +126,6 @@ void ListenerInterface::enterSet_statement(TSqlParser::Set_statementContext * ct
 	_query->mode = MODE_SET;
 	_operation = FQL_SET;
 	if (query_enter_set(_query,
-	                    _query_stack,
 	                    _operation,
 	                    ctx->LOCAL_ID()->getText().c_str())) {
 		_set_failure();
@@ -177,13 +166,22 @@ void ListenerInterface::exitAssignment_operator(TSqlParser::Assignment_operatorC
 void ListenerInterface::enterDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 void ListenerInterface::exitDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 
+/* Block statements pass through here, and we don't want to
+ * initialize a query for those. The statements inside of the
+ * block pass through here as well. Nor is a lone semicolon
+ * anything to execute.
+ */
+static bool _is_query(TSqlParser::Sql_clausesContext* ctx)
+{
+	if (ctx->cfl_statement() && ctx->cfl_statement()->block_statement()) {
+		return false;
+	}
+	return ctx->getStart()->getType() != TSqlParser::SEMI;
+}
+
 void ListenerInterface::enterSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	/* block statements pass through here, and we don't want
-	 * to initialize a query for that...
-	 */
-	if (_entering_block_stmt) {
-		_entering_block_stmt = false;
+	if (!_is_query(ctx)) {
 		return;
 	}
 
@@ -193,19 +191,21 @@ void ListenerInterface::enterSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 }
 void ListenerInterface::exitSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	if (_exiting_block_stmt) {
-		_exiting_block_stmt = false;
-		return;
+	if (_is_query(ctx)) {
+		_query->query_total = _query_id + 1;
+		node_pop(&_query_stack);
+		_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
 	}
-	_query->query_total = _query_id + 1;
-	query* prev = (query*) node_pop(&_query_stack);
-	int last_idx = prev->idx;
-	_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
 
-	if (query_exit_query(_query, prev)) {
-		_set_failure();
+	TSqlParser::If_statementContext* if_ctx =
+	        dynamic_cast<TSqlParser::If_statementContext*>(ctx->parent);
+	if (if_ctx != NULL) {
+		if (if_ctx->sql_clauses(0) == ctx) {
+			query_exit_true_part(_query, if_ctx->ELSE() != NULL);
+		}
+	} else if (dynamic_cast<TSqlParser::While_statementContext*>(ctx->parent)) {
+		query_exit_true_part(_query, false);
 	}
-
 }
 
 void ListenerInterface::enterSelect_statement_standalone(TSqlParser::Select_statement_standaloneContext* ctx) { }
@@ -655,7 +655,7 @@ void ListenerInterface::enterSelect_statement(TSqlParser::Select_statementContex
 {
 	_query->mode = MODE_SELECTLIST;
 	_operation = FQL_SELECT;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -665,7 +665,7 @@ void ListenerInterface::exitSelect_statement(TSqlParser::Select_statementContext
 void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContext * ctx)
 {
 	_operation = FQL_DELETE;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 	if (ctx->WHERE()) {
@@ -691,7 +691,7 @@ void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContex
 {
 	_query->mode = MODE_UPDATELIST;
 	_operation = FQL_UPDATE;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 	if (ctx->WHERE()) {
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 92df316..685216a 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -44,8 +44,6 @@ class ListenerInterface : public TSqlParserBaseListener {
 	enum tok_type _tok_type;
 	enum fql_operation _operation;
 	bool _on_asterisk = false;
-	bool _entering_block_stmt = false;
-	bool _exiting_block_stmt = false;
 	bool _is_table_variable = false;
 
 	void _set_failure();
diff --git a/lib/fqlbranch.c b/lib/fqlbranch.c
index 6154563..9003ecc 100644
--- a/lib/fqlbranch.c
+++ b/lib/fqlbranch.c
@@ -21,12 +21,7 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 	        .false_idx = -1,
 	};
 
-	if (fql->branch_state == BRANCH_EXPECT_ELSE) {
-		self->scope->parent_scope = fql->_scope->parent_scope;
-	} else {
-		fql->branch_state = BRANCH_EXPECT_EXPR;
-		self->scope->parent_scope = fql->_scope;
-	}
+	self->scope->parent_scope = fql->_scope;
 	fql->_scope = self->scope;
 
 	return self;
diff --git a/lib/fqlbranch.h b/lib/fqlbranch.h
index 78cac2a..728bbdf 100644
--- a/lib/fqlbranch.h
+++ b/lib/fqlbranch.h
@@ -11,13 +11,10 @@ struct fqlbranch {
 	enum fql_operation oper_type;
 	struct logicgroup* condition;
 	int* next_query_idx_ref;
-	struct query* last_true_block_query;
 	struct scope* scope;
 	struct scope* else_scope;
 	int true_idx;
 	int false_idx;
-	bool expect_else;
-	bool is_elseif;
 };
 typedef struct fqlbranch fqlbranch;
 
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..23ce477 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,12 +24,6 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
-	enum {
-		BRANCH_NO_BRANCH,
-		BRANCH_EXPECT_EXPR,
-		BRANCH_EXPECT_ELSE,
-		BRANCH_EXPECT_EXIT,
-	} branch_state;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..ea3bc4e 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,7 +42,6 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
-	        .branch_state = BRANCH_EXPECT_EXPR,
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
diff --git a/lib/query.c b/lib/query.c
index 9092ebc..0bcb63b 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -183,80 +183,71 @@ int query_prepare(query* self)
 
 
 /** control flow **/
-void query_enter_block(query* self)
-{
-	self->fqlref->_scope->is_in_block = true;
-}
-
-void query_exit_block(query* self)
+/* The statement of an IF or WHILE has ended. This is where
+ * we go on if the condition is false, may it be an ELSE or
+ * whatever follows.
+ */
+void query_exit_true_part(query* self, bool expect_else)
 {
-	self->fqlref->_scope->is_in_block = false;
-
-	/* the current active query can be assumed to be the branch */
 	fqlbranch* branch = self->op;
+	if (branch == NULL) {
+		return;
+	}
 	branch->false_idx = self->fqlref->query_vec->size;
 
-	if (branch->expect_else) {
-		self->fqlref->branch_state = BRANCH_EXPECT_ELSE;
-	} else {
-		self->fqlref->branch_state = BRANCH_EXPECT_EXIT;
-		branch->false_idx = self->fqlref->query_vec->size;
+	if (expect_else) {
+		branch->else_scope = new_(scope);
+		branch->else_scope->parent_scope = branch->scope->parent_scope;
+		self->fqlref->_scope = branch->else_scope;
 	}
 }
 
-int query_enter_if(query* self,
-                   node* query_stack,
-                   enum fql_operation operation,
-                   bool expect_else)
+void query_exit_branch(query* self)
 {
-	try_(query_init_op(self, query_stack, operation));
-
 	fqlbranch* branch = self->op;
-	branch->expect_else = expect_else;
+	if (branch == NULL) {
+		return;
+	}
+	self->fqlref->_scope = branch->scope->parent_scope;
 
-	return FQL_GOOD;
-}
+	/* Whatever runs off the end of our statement, be it a
+	 * plain query or the false side of a nested branch, skips
+	 * the ELSE or goes back to the WHILE.
+	 */
+	int end = branch->false_idx;
+	int next = (branch->oper_type == FQL_WHILE)
+	                   ? self->idx
+	                   : (int)self->fqlref->query_vec->size;
 
-void query_exit_branch(query* self)
-{
-	fqlbranch* ifstmt = self->op;
-	self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-	//self->fqlref->_scope = self->fqlref->_scope->parent_scope;
-	self->fqlref->_scope = ifstmt->scope->parent_scope;
-	if (self->fqlref->_scope == self->fqlref->global_scope) {
-		self->fqlref->branch_state = BRANCH_NO_BRANCH;
+	if (branch->true_idx == end) { /* there is no statement */
+		branch->true_idx = next;
 	}
 
-	if (ifstmt->oper_type != FQL_IF) {
-		return;
-	}
-	/* Now, we need to loop back through all queries
-	 * inside this if block. If they are if statements
-	 * and have the same parent_scope, then we can set
-	 * the next_idx of each last_true_block_query.
-	 * Above, we set fql->_scope to this ifbranch's
-	 * parent_scope. So we compare on that.
-	 */
-	query** it = vec_at(self->fqlref->query_vec, self->idx);
-	for (; it != vec_end(self->fqlref->query_vec); ++it) {
-		ifstmt = (*it)->op;
-		if (ifstmt->oper_type != FQL_IF
-		    || ifstmt->scope->parent_scope != self->fqlref->_scope) {
+	int i = self->idx + 1;
+	for (; i < end; ++i) {
+		query** it = vec_at(self->fqlref->query_vec, i);
+		if ((*it)->next_idx == end) {
+			(*it)->next_idx = next;
+		}
+		enum fql_operation* operation = (*it)->op;
+		if (operation == NULL
+		    || (*operation != FQL_IF && *operation != FQL_WHILE)) {
 			continue;
 		}
-
-		ifstmt->last_true_block_query->next_idx = self->fqlref->query_vec->size;
+		fqlbranch* nested = (*it)->op;
+		if (nested->false_idx == end) {
+			nested->false_idx = next;
+		}
 	}
 }
 
 int query_enter_set(query* self,
-                    node* query_stack,
                     enum fql_operation operation,
                     const char* varname)
 {
 	int idx = try_(scope_get_var_index(self->fqlref->_scope, varname));
 
-	try_(query_init_op(self, query_stack, operation));
+	try_(query_init_op(self, operation));
 
 	fqlset* setstmt = self->op;
 	setstmt->variable_idx = idx;
@@ -287,58 +278,6 @@ query* query_enter_query(fqlhandle* fql, unsigned start, unsigned end)
 	return newquery;
 }
 
-int query_exit_query(query* self, query* prev_query)
-{
-	fqlhandle* fql = prev_query->fqlref;
-
-	/* If the previously active query was a branch operation */
-	enum fql_operation* prev_op = prev_query->op;
-	fqlbranch* prev_branch = NULL;
-
-	if (*prev_op == FQL_IF) {
-		prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = fql->query_vec->size;
-	}
-
-	if (*prev_op == FQL_WHILE) {
-		fqlbranch* prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = prev_query->idx;
-	}
-
-	/* If there is no parent query to return to */
-	if (self == NULL) {
-		fql->branch_state = BRANCH_NO_BRANCH;
-		return FQL_GOOD;
-	}
-
-	/* If you have reached this point, you have exited a query
-	 * that resided inside of a non-global scope.
-	 */
-	fqlbranch* branch = self->op;
-
-	switch (fql->branch_state) {
-	case BRANCH_EXPECT_EXPR:
-		if (prev_branch == NULL || !prev_branch->is_elseif) {
-			branch->last_true_block_query = prev_query;
-		}
-		if (fql->_scope->is_in_block) {
-			return FQL_GOOD;
-		}
-		if (branch->expect_else) {
-			fql->branch_state = BRANCH_EXPECT_ELSE;
-		} else {
-			fql->branch_state = BRANCH_EXPECT_EXIT;
-			branch->false_idx = fql->query_vec->size;
-		}
-		break;
-	case BRANCH_EXPECT_ELSE:
-	case BRANCH_EXPECT_EXIT:
-	case BRANCH_NO_BRANCH:;
-	}
-
-	return FQL_GOOD;
-}
-
 /** variables **/
 void query_set_variable_idx(query* self, int idx)
 {
@@ -752,9 +691,7 @@ int query_exit_union(query* self, query* union_query)
 }
 
 /** operations **/
-int query_init_op(query* self,
-                  node* query_stack,
-                  enum fql_operation operation)
+int query_init_op(query* self, enum fql_operation operation)
 {
 	switch (operation) {
 	case FQL_SET:
@@ -778,35 +715,6 @@ int query_init_op(query* self,
 		return FQL_FAIL;
 	}
 
-	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE) {
-		/* Top of stack will be the active query. If this is an
-		 * else block, then the "next" query will be the parent
-		 * branch structure. We must set false_idx there.
-		 */
-		query* branch_query = query_stack->next->data;
-
-		/* May as well check it or this will be a bitch to fix */
-		fqlbranch* branch = branch_query->op;
-		assert(branch->oper_type == FQL_IF);
-
-		branch->false_idx = self->idx;
-		if (operation != FQL_IF) { /* if bare else */
-			branch->else_scope = new_(scope);
-			branch->else_scope->parent_scope = branch->scope->parent_scope;
-
-			self->fqlref->_scope = branch->else_scope;
-			return FQL_GOOD;
-		}
-
-		/* if we've made it this far, we have entered an "else if" */
-		self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-		query** elseifstmt = vec_back(self->fqlref->query_vec);
-		fqlbranch* elseif = (*elseifstmt)->op;
-		elseif->is_elseif = true;
-		//branch->last_true_block_query = *(elseifstmt - 1);
-	}
-
 	return FQL_GOOD;
 }
 
diff --git a/lib/query.h b/lib/query.h
index 89f8454..64c7504 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -194,21 +194,14 @@ int query_preflight(struct query*, bool);
 int query_prepare(struct query*);
 
 /* control flow */
-int query_enter_if(struct query*,
-                   struct node* query_stack,
-                   enum fql_operation,
-                   bool expect_else);
+void query_exit_true_part(struct query*, bool expect_else);
 void query_exit_branch(struct query*);
 int query_enter_set(struct query*,
-                    struct node*,
                     enum fql_operation,
                     const char* varname);
-void query_enter_block(struct query*);
-void query_exit_block(struct query*);
 
 /* queries */
 struct query* query_enter_query(struct fqlhandle*, unsigned start, unsigned end);
-int query_exit_query(struct query*, struct query*);
 
 /* variables */
 void query_set_variable_idx(struct query*, int);
@@ -253,7 +246,7 @@ int query_enter_union(struct query*, struct query*);
 int query_exit_union(struct query*, struct query*);
 
 /* operations */
-int query_init_op(struct query*, struct node*, enum fql_operation);
+int query_init_op(struct query*, enum fql_operation);
 int query_set_top_count(struct query*, const char*);
 int query_set_op_table(struct query*, const char*);
 void query_exit_non_select_op(struct query*);
diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..b973d17 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -7,7 +7,6 @@ scope* scope_construct(scope* self)
 {
 	*self = (scope) {
 	        .parent_scope = NULL,
-	        .is_in_block = false,
 	};
 	hashmap_construct_(&self->variable_map, int, 16, HASHMAP_PROP_NOCASE);
 	return self;
diff --git a/lib/scope.h b/lib/scope.h
index d4bdb73..bfad758 100644
--- a/lib/scope.h
+++ b/lib/scope.h
@@ -7,7 +7,6 @@
 struct scope {
 	struct scope* parent_scope;
 	struct hashmap variable_map;
-	bool is_in_block;
 };
 typedef struct scope scope;
 
-- 
2.43.0


From 293da9e345b9b62214462e748b03726cc76af534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 029/126] fix: vec_set_iter copied one byte of its last element

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..8e6a266 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -131,9 +131,9 @@ void* vec_add_one_front(vec* restrict self)
 	return vec_begin(self);
 }
 
-void vec_set_iter(vec* restrict _unused, void* pos, const void* begin, const void* back)
+void vec_set_iter(vec* restrict self, void* pos, const void* begin, const void* back)
 {
-	memcpy(pos, begin, (char*)back - (char*)begin + 1);
+	memcpy(pos, begin, (const char*)back - (const char*)begin + self->_elem_size);
 }
 
 void vec_set_one(vec* restrict self, void* pos, const void* restrict src)
-- 
2.43.0


From 1302bf02a528d60ef950c934ccf09200e8e353df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 030/126] fix: vec_insert_one wrote to the old position after a
 reallocation

---
 util/vec.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 8e6a266..d2e136e 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,10 +174,11 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	size_t idx = vec_get_idx_(self, pos);
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	size_t move_bytes = self->_elem_size * (self->size - 1 - idx);
 
+	pos = vec_at(self, idx);
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
 }
-- 
2.43.0


From 0f330a23c8e0396328cfb3616b02616b1c5226ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 031/126] fix: vec_resize_and_zero left elements unset when it
 had room already

---
 util/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index d2e136e..21474a9 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,9 +82,8 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
 	void* new_shit = vec_at(self, org_size);
-- 
2.43.0


From 4db8e46a6cff2bbe06bc3d601d9506cbcdf0c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 032/126] fix: vec_insert_at and vec_erase_at of nothing broke
 the vector

---
 util/vec.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 21474a9..9111c01 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -184,9 +184,7 @@ void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 
 void vec_insert_at(vec* restrict self, size_t idx, const void* begin, size_t len)
 {
-	void* pos = vec_at(self, idx);
-	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);
-	vec_insert_iter(self, pos, begin, back);
+	vec_insert(self, vec_at(self, idx), begin, len);
 }
 
 void vec_insert(vec* restrict self, void* pos, const void* begin, size_t len)
@@ -212,9 +210,7 @@ void vec_erase_one(vec* restrict self, void* elem)
 
 void vec_erase_at(vec* restrict self, size_t index, size_t len)
 {
-	void* begin = vec_at(self, index);
-	const void* back = vec_at(self, index + len - 1);
-	vec_erase_iter(self, begin, back);
+	vec_erase(self, vec_at(self, index), len);
 }
 
 void vec_erase(vec* restrict self, void* begin, size_t len)
-- 
2.43.0


From 7e3d89d8208f8e05b1bd5bf8b8e65a4146fa5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 033/126] fix: flex_resize left the elements it adds unset

---
 util/flex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/flex.c b/util/flex.c
index 3145389..4446ccb 100644
--- a/util/flex.c
+++ b/util/flex.c
@@ -60,7 +60,13 @@ void flex_reserve(flex* restrict self, size_t size)
 void flex_resize(flex* restrict self, size_t size)
 {
 	if (size > self->_pairs.size) {
-		vec_resize(&self->_pairs, size);
+		struct _pair pair = {
+			 self->_raw.size
+			,0
+		};
+		while (self->_pairs.size < size) {
+			vec_push_back(&self->_pairs, &pair);
+		}
 		return;
 	}
 	for (; self->_pairs.size > size;
-- 
2.43.0


From ce3f40701340e3fddebf857ffebd8c1b80bbf71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 034/126] fix: a fifo transfer of nothing copied the whole
 buffer

---
 util/fifo.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..739c3a8 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -156,6 +156,10 @@ int fifo_nget(fifo* restrict self,
 	}
 	unsigned transfer_count = (available > max) ? max : available;
 	transfer_count -= transfer_count % block_size;
+	if (transfer_count == 0) {
+		pthread_mutex_unlock(&self->tail_mutex);
+		return available;
+	}
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
 	if (new_tail == 0 || new_tail > self->tail) {
@@ -243,7 +247,7 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	pthread_mutex_lock(&self->head_mutex);
 
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return;
 	}
@@ -282,7 +286,7 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 		return ret;
 	}
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return 0;
 	}
-- 
2.43.0


From eb163c80bdd0ea5d1f3f451e56843bbd182de28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 035/126] fix: a fifo filled by all of its inputs claimed to be
 empty

---
 util/fifo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 739c3a8..bacef74 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -110,8 +110,8 @@ bool fifo_is_full(const fifo* restrict self)
 
 unsigned fifo_receivable(fifo* restrict self)
 {
-	unsigned avail = fifo_available(self);
-	return self->buf->size - avail - self->input_count;
+	unsigned used = fifo_available(self) + self->input_count;
+	return (used < self->buf->size) ? self->buf->size - used : 0;
 }
 
 void fifo_set_full(fifo* restrict self)
-- 
2.43.0


From 9c02d4ebd0211af7bc65479e7bc254b82147f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 036/126] fix: a NULL in the list of an IN hid the values
 behind it

---
 lib/fqllogic.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 8db0aa5..1043eae 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -184,7 +184,9 @@ int fql_logic_in_i(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
+		if (try_(expression_get_int(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n0 == n1) {
 			return true;
 		}
@@ -202,7 +204,9 @@ int fql_logic_in_f(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
+		if (try_(expression_get_float(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n1 == n0) {
 			return true;
 		}
@@ -220,7 +224,9 @@ int fql_logic_in_s(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
+		if (try_(expression_get_stringview(&sv1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
-- 
2.43.0


From 6f4ca8a076d39ef44b85bdedc88ee9ac7c6d2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 037/126] fix: an imported value was not cut to the length of
 its declared type

---
 lib/variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable.c b/lib/variable.c
index ffd3bd6..9f878e3 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -144,7 +144,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 			self->_data = new_(string);
 		}
 		stringview sv;
-		if (self->limit != INT_MAX) {
+		if (self->limit == INT_MAX) {
 			try_(field_to_stringview(&sv,
 			                         self->_data,
 			                         &self->value,
-- 
2.43.0


From da536742d93c46e57270e8dd997fbf34bd896c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 038/126] fix: a reset between two steps kept the fields of the
 old query

---
 lib/libfql.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index ea3bc4e..88eee2c 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -155,6 +155,16 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 	return FQL_GOOD;
 }
 
+void _free_api_strings(vec* api)
+{
+	struct fql_field* it = vec_begin(api);
+	for (; it != vec_end(api); ++it) {
+		if (it->type == FQL_STRING) {
+			delete_(string, it->_in);
+		}
+	}
+}
+
 int fql_reset(fqlhandle* fql)
 {
 	query** it = vec_begin(fql->query_vec);
@@ -164,6 +174,9 @@ int fql_reset(fqlhandle* fql)
 	vec_clear(fql->query_vec);
 	fql->query_idx = 0;
 
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
 	fqlsig_tmp_removeall();
 
 	hashmap_clear(fql->schema_map);
@@ -630,16 +643,6 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 	return fql->query_vec->size;
 }
 
-void _free_api_strings(vec* api)
-{
-	struct fql_field* it = vec_begin(api);
-	for (; it != vec_end(api); ++it) {
-		if (it->type == FQL_STRING) {
-			delete_(string, it->_in);
-		}
-	}
-}
-
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
 	query** query = vec_at(fql->query_vec, fql->query_idx);
-- 
2.43.0


From 11e3ae0cb023b925fcf2c0264857f11541978967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 039/126] fix: a pipe factor out of range was announced as
 adjusted and used as given

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 88eee2c..f1ea05d 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -371,7 +371,7 @@ void fql_set_pipe_factor(fqlhandle* fql, int pipe_factor)
 		applied_pipe_factor = PIPE_FACTOR_MAX;
 	}
 
-	fql->props.pipe_factor = pipe_factor;
+	fql->props.pipe_factor = applied_pipe_factor;
 	if (applied_pipe_factor != pipe_factor) {
 		fprintf(stderr,
 		        "Invalid pipe factor `%d'. Applied `%d'\n",
-- 
2.43.0


From e24234a332d1256bcbc1f92a02cc6316b6b68ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 040/126] fix: importing a variable twice leaked its name

---
 lib/libfql.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index f1ea05d..f813d87 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -472,7 +472,11 @@ int fql_import_variable(fqlhandle* fql, const char* assign_expression)
 		*iter = '\0';
 	}
 
-	int idx = try_(libfql_declare_variable(fql, varname));
+	int idx = libfql_declare_variable(fql, varname);
+	if (idx == FQL_FAIL) {
+		free_(expr_cpy);
+		return FQL_FAIL;
+	}
 
 	variable* var = vec_at(fql->variables, idx);
 	var->can_be_redeclared = true;
-- 
2.43.0


From 0642ee23857494897458eb48f6bcabef801a5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 041/126] fix: a table variable was lost when another source
 was added

---
 lib/query.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 0bcb63b..c17893a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -45,7 +45,7 @@ query* query_construct(query* self, fqlhandle* fql, int id)
 	        .sources = new_t_(vec, table),
 	        .subquery_const_vec = new_t_(vec, query*),
 	        .variable_table_indicies = new_t_(vec, int),
-	        .variable_tables = new_t_(vec, table*),
+	        .variable_tables = new_t_(vec, unsigned),
 	        .variable_expr_indicies = new_t_(vec, int),
 	        .variable_expressions = new_t_(vec, expression*),
 	        .unions = new_t_(vec, query*),
@@ -132,11 +132,12 @@ int query_preflight(query* self, bool has_executed)
 
 	for (i = 0; i < self->variable_table_indicies->size; ++i) {
 		int* var_idx = vec_at(self->variable_table_indicies, i);
-		table** var_table = vec_at(self->variable_tables, i);
+		unsigned* src_idx = vec_at(self->variable_tables, i);
+		table* var_table = vec_at(self->sources, *src_idx);
 		variable* var = vec_at(self->fqlref->variables, *var_idx);
 		//string_copy(&(*var_table)->reader->file_name, var->value.s);
 		enum fuzzy_return ret =
-		        schema_fuzzy_resolve_file(&(*var_table)->reader->file_name,
+		        schema_fuzzy_resolve_file(&var_table->reader->file_name,
 		                                  var->value.s,
 		                                  self->fqlref->props.strictness);
 		switch (ret) {
@@ -539,7 +540,8 @@ int query_add_source(query* self,
 	string_destroy(&table_name);
 
 	if (is_variable) {
-		vec_push_back(self->variable_tables, &new_table);
+		unsigned src_idx = self->sources->size - 1;
+		vec_push_back(self->variable_tables, &src_idx);
 		new_table->must_reopen = true;
 	}
 
-- 
2.43.0


From 60328b087d22b0369651285c6eef5fc15974d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 042/126] fix: SUBSTRING overflowed with the largest integers
 as its limits

---
 lib/scalarfn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 285bdc6..d1039b6 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -262,7 +262,9 @@ int fql_substring(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_stringview(&sv, args[0], rg));
 	long start = 0;
 	try_deref_(expression_get_int(&start, args[1], rg));
-	--start;
+	if (start > LONG_MIN) {
+		--start;
+	}
 	long n = 0;
 	try_deref_(expression_get_int(&n, args[2], rg));
 
@@ -290,7 +292,7 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		}
 	}
 
-	if (idx + n > sv.len) {
+	if (n > sv.len - idx) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From a52b9b4322aac305d9ed4e4f4d72c29221e84e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 043/126] fix: a derived table handed out values its next
 record overwrites

---
 lib/subquery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..a013b0a 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -47,6 +47,7 @@ int subquery_get_record(reader* reader, node* rg)
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
 		stringview* copy_sv = vec_add_one(&self->copy_data.fields);
+		*copy_sv = (stringview) {"", 0};
 		try_(expression_get_stringview(copy_sv, *it, rg));
 
 		if (reader->random_access_file) {
@@ -58,6 +59,9 @@ int subquery_get_record(reader* reader, node* rg)
 		}
 
 		switch ((*it)->expr) {
+		case EXPR_SWITCH_CASE:
+		case EXPR_ROW_NUMBER:
+		case EXPR_REFERENCE:
 		case EXPR_GROUPING:
 		case EXPR_FUNCTION: {
 			/* NOTE: we actually need to copy some data here
-- 
2.43.0


From 1397920b8bd88bb6db93b5440c30fdbeaee523ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 044/126] fix: a subquery for a value took a second one if the
 first was NULL

---
 lib/fqlselect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 753b63e..e71da9e 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -545,7 +545,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 int _select_record_to_const(fqlselect* self, node* rg)
 {
 	++self->rownum;
-	if (self->const_dest->expr == EXPR_CONST) {
+	if (self->const_dest->expr != EXPR_SUBQUERY) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
 	}
-- 
2.43.0


From b644d36c5244641a4432789fb47e9ce484bfef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 045/126] fix: COUNT of no records was NULL instead of 0

---
 lib/expression.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 70aef29..0e85b59 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -405,6 +405,13 @@ int _call_function(expression* self, union field* ret, enum field_type* type, no
 	}
 }
 
+/* There was no record to count, see fqlselect_verify_must_run */
+bool _is_count_of_nothing(expression* self, node* rg)
+{
+	return (rg == NULL && self->expr == EXPR_AGGREGATE
+	        && self->field.agg->agg_type == AGG_COUNT);
+}
+
 /* TODO: field_to_xx functions should only be called once.
 	 *       After which we should be able to assume the correct
 	 *       type. The best way to handle this would be to set
@@ -448,7 +455,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
-			return FQL_NULL;
+			return (_is_count_of_nothing(self, rg)) ? FQL_GOOD : FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		string_copy_from_stringview(&self->buf, sv);
@@ -511,7 +518,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
-			return FQL_NULL;
+			return (_is_count_of_nothing(self, rg)) ? FQL_GOOD : FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		string_copy_from_stringview(&self->buf, sv);
@@ -571,7 +578,9 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			case FIELD_FLOAT:
 				ret->data = _null_agg_numeric;
 				ret->len = 1;
-				return FQL_NULL;
+				return (_is_count_of_nothing(self, rg))
+				               ? FQL_GOOD
+				               : FQL_NULL;
 			case FIELD_STRING:
 				ret->len = 0;
 				return FQL_NULL;
-- 
2.43.0


From 95e984f04b4387776acabb74ec0e4c8c37bcdec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 046/126] fix: ordering the aggregate of no records
 dereferenced the missing one

---
 lib/fqlselect.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index e71da9e..8b93844 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -460,6 +460,9 @@ int _select_record_api(fqlselect* self, node* rg)
 
 int _select_record_order_api(fqlselect* self, node* rg)
 {
+	if (rg == NULL) { /* an aggregate of no records has nothing to order */
+		return 1;
+	}
 	++self->rownum;
 	FILE* order_input = writer_get_file(self->writer);
 
-- 
2.43.0


From 7a35f7efea9b2161a20d9204950e77c3535ea4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 047/126] fix: strings ending in different white space hashed
 alike and compared unlike

---
 util/stringview.c | 49 ++++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/util/stringview.c b/util/stringview.c
index fb39016..7783853 100644
--- a/util/stringview.c
+++ b/util/stringview.c
@@ -46,57 +46,50 @@ int stringview_compare(const stringview* restrict sv0, const stringview* restric
 	return ret;
 }
 
-int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+/* White space at the end does not count, no matter which */
+unsigned _rtrim_len(const stringview* sv)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
+	const unsigned char* s = (const unsigned char*)sv->data;
+	unsigned len = sv->len;
+	while (len > 0 && isspace(s[len - 1])) {
+		--len;
 	}
+	return len;
+}
+
+int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+{
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
+	unsigned short_len = (len0 > len1) ? len1 : len0;
 
 	const unsigned char *s0 = (unsigned char*) sv0->data;
 	const unsigned char *s1 = (unsigned char*) sv1->data;
 
 	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
+	for (; ret == 0 && i < short_len; ++i) {
 		ret = s0[i] - s1[i];
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return (ret != 0) ? ret : num_compare_(len0, len1);
 }
 
 int stringview_compare_nocase_rtrim(const stringview* sv0, const stringview* sv1)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
-	}
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
+	unsigned short_len = (len0 > len1) ? len1 : len0;
 
 	const unsigned char* s0 = (unsigned char*)sv0->data;
 	const unsigned char* s1 = (unsigned char*)sv1->data;
 
 	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
+	for (; ret == 0 && i < short_len; ++i) {
 		ret = tolower (s0[i]) - tolower (s1[i]);
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return (ret != 0) ? ret : num_compare_(len0, len1);
 }
 
-- 
2.43.0


From b251c93383b21d04059e17b226b458c74086c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 048/126] fix: waiting for either of two fifos could deadlock
 with who adds to the first

---
 util/fifo.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index bacef74..4ae20f4 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -3,7 +3,7 @@
 
 #define _idx_adv_(idx_) idx_ = (idx_ + 1) % self->buf->size;
 
-bool _fifo_signal_shared(fifo* restrict self);
+void _fifo_signal_shared(fifo* restrict shared);
 
 fifo* fifo_construct(fifo* restrict self, size_t elem_size, unsigned buf_size)
 {
@@ -78,15 +78,12 @@ void fifo_set_open(fifo* restrict self, int is_open)
 
 	pthread_cond_broadcast(&self->cond_get);
 	pthread_cond_broadcast(&self->cond_add);
-	if (self->shared_mutex_fifo != NULL) {
-		pthread_mutex_lock(&self->shared_mutex_fifo->head_mutex);
-		pthread_cond_broadcast(&self->shared_mutex_fifo->cond_add);
-		pthread_mutex_unlock(&self->shared_mutex_fifo->head_mutex);
-		self->shared_mutex_fifo = NULL;
-	}
+	fifo* shared = self->shared_mutex_fifo;
 
 	pthread_mutex_unlock(&self->head_mutex);
 	pthread_mutex_unlock(&self->tail_mutex);
+
+	_fifo_signal_shared(shared);
 }
 
 unsigned fifo_available(const fifo* restrict self)
@@ -224,8 +221,9 @@ void fifo_add(fifo* restrict self, void* restrict data)
 	vec_set_at(self->buf, self->head, data, 1);
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
+	fifo* shared = self->shared_mutex_fifo;
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(shared);
 }
 
 int fifo_add_try(fifo* restrict self, void* restrict data)
@@ -237,8 +235,9 @@ int fifo_add_try(fifo* restrict self, void* restrict data)
 	vec_set_at(self->buf, self->head, data, 1);
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
+	fifo* shared = self->shared_mutex_fifo;
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(shared);
 	return 0;
 }
 
@@ -269,8 +268,9 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	self->head = new_head;
 
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
+	fifo* shared = self->shared_mutex_fifo;
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(shared);
 
 	if (transfer_count == src->size) {
 		vec_clear(src);
@@ -308,8 +308,9 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 	self->head = new_head;
 
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
+	fifo* shared = self->shared_mutex_fifo;
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(shared);
 
 	if (transfer_count == src->size) {
 		vec_clear(src);
@@ -410,17 +411,18 @@ void fifo_wait_for_get(fifo* restrict self)
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 
-bool _fifo_signal_shared(fifo* restrict self)
+/* Wake who waits for either of two fifos. It waits with the mutex of
+ * one and looks at the other while it holds it. Therefore, no other
+ * mutex can be held here. Only the waiting side unlinks the two.
+ */
+void _fifo_signal_shared(fifo* restrict shared)
 {
-	fifo* shared = self->shared_mutex_fifo;
 	if (shared == NULL) {
-		return false;
+		return;
 	}
 	pthread_mutex_lock(&shared->head_mutex);
 	pthread_cond_signal(&shared->cond_add);
 	pthread_mutex_unlock(&shared->head_mutex);
-	self->shared_mutex_fifo = NULL;
-	return true;
 }
 
 
-- 
2.43.0


From 6dcb030d5e766e79bb991b03c0d644688e4ecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:04 +0000
Subject: [PATCH 049/126] fix: a CASE over anything but a column freed its
 input once per WHEN

---
 lib/antlr/listenerinterface.cpp |  4 +++-
 lib/expression.c                | 37 ++++++++++++++++++++++++++++-----
 lib/query.c                     | 32 ++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index a0e42d9..6f07ec3 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -1022,7 +1022,9 @@ void ListenerInterface::exitCase_expression(TSqlParser::Case_expressionContext*
 
 void ListenerInterface::enterSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
-	query_enter_switch_section(_query);
+	if (query_enter_switch_section(_query)) {
+		_set_failure();
+	}
 }
 void ListenerInterface::exitSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
diff --git a/lib/expression.c b/lib/expression.c
index 0e85b59..1661eb1 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -90,20 +90,47 @@ void expression_destroy(void* generic_expr)
 	string_destroy(&self->buf);
 }
 
-/* This is used for static case expressions */
+/* This is used for static case expressions.  NULL for an expression
+ * that can not be shared between several places. */
 expression* expression_copy(const struct expression* src)
 {
+	switch (src->expr) {
+	case EXPR_SWITCH_CASE:
+	case EXPR_AGGREGATE:
+	case EXPR_SUBQUERY:
+		fputs("CASE input must not be a CASE, an aggregate or a subquery\n",
+		      stderr);
+		return NULL;
+	default:;
+	}
+
+	function* fn = NULL;
+	if (src->expr == EXPR_FUNCTION) {
+		fn = malloc_(sizeof(*fn));
+		*fn = *src->field.fn;
+		fn->args = new_t_(vec, expression*);
+		expression** it = vec_begin(src->field.fn->args);
+		for (; it != vec_end(src->field.fn->args); ++it) {
+			expression* arg = expression_copy(*it);
+			if (arg == NULL) {
+				delete_(function, fn);
+				return NULL;
+			}
+			vec_push_back(fn->args, &arg);
+		}
+	}
+
 	expression* dest = malloc_(sizeof(*dest));
-	memset(dest, 0, sizeof(*dest));
+	*dest = *src;
 
 	string_construct_from_string(&dest->name, &src->name);
 	string_construct_from_string(&dest->alias, &src->alias);
 	string_construct_from_string(&dest->table_name, &src->table_name);
 	string_construct_from_string(&dest->buf, &src->buf);
 
-	dest->expr = src->expr;
-	dest->field = src->field;
-	dest->field_type = src->field_type;
+	if (fn != NULL) {
+		dest->field.fn = fn;
+	}
 
 	return dest;
 }
diff --git a/lib/query.c b/lib/query.c
index c17893a..f799737 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -465,6 +465,7 @@ int query_enter_assignment_operator(query* self, enum scalar_function op)
 		fqlupdate* update = self->op;
 		expression** set_expr = vec_back(&update->set_columns);
 		expression* set_expr_cpy = expression_copy(*set_expr);
+		fail_if_(set_expr_cpy == NULL);
 		return _distribute_expression(self, set_expr_cpy);
 	}
 	default:
@@ -851,6 +852,35 @@ int query_exit_case_expression(query* self)
 	return FQL_GOOD;
 }
 
+/* the variables in a copy follow those in the original */
+static void _track_copied_variables(query* self, expression* copy, expression* src)
+{
+	if (src->expr == EXPR_FUNCTION) {
+		unsigned i = 0;
+		for (; i < src->field.fn->args->size; ++i) {
+			expression** arg = vec_at(copy->field.fn->args, i);
+			expression** src_arg = vec_at(src->field.fn->args, i);
+			_track_copied_variables(self, *arg, *src_arg);
+		}
+		return;
+	}
+
+	if (src->expr != EXPR_VARIABLE) {
+		return;
+	}
+
+	unsigned i = 0;
+	for (; i < self->variable_expressions->size; ++i) {
+		expression** var_expr = vec_at(self->variable_expressions, i);
+		if (*var_expr == src) {
+			int idx = *(int*)vec_at(self->variable_expr_indicies, i);
+			vec_push_back(self->variable_expr_indicies, &idx);
+			vec_push_back(self->variable_expressions, &copy);
+			return;
+		}
+	}
+}
+
 int query_enter_switch_section(query* self)
 {
 	switchcase* sc = self->switchcase_stack->data;
@@ -862,6 +892,8 @@ int query_enter_switch_section(query* self)
 	}
 
 	expression* static_expr_copy = expression_copy(sc->static_expr);
+	fail_if_(static_expr_copy == NULL);
+	_track_copied_variables(self, static_expr_copy, sc->static_expr);
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-- 
2.43.0


From 174739baa3d59e59f758fe50dffd329035f7bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 050/126] fix: DATALENGTH of a NULL number was 8 instead of
 NULL

---
 lib/scalarfn.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index d1039b6..b3b06df 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -160,12 +160,18 @@ int fql_datalength(function* fn, union field* ret, node* rg)
 {
 	expression** arg = vec_begin(fn->args);
 	switch ((*arg)->field_type) {
-	case FIELD_INT:
+	case FIELD_INT: {
+		long num = 0;
+		try_deref_(expression_get_int(&num, *arg, rg));
 		ret->i = sizeof(long);
 		return FQL_GOOD;
-	case FIELD_FLOAT:
+	}
+	case FIELD_FLOAT: {
+		double num = 0;
+		try_deref_(expression_get_float(&num, *arg, rg));
 		ret->i = sizeof(double);
 		return FQL_GOOD;
+	}
 	case FIELD_STRING:
 		break;
 	default:
-- 
2.43.0


From a0a3ca09c19896eb87523b958bbf1c3696e8eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 051/126] fix: what an aggregate inside a function was given
 went to the function

---
 lib/aggregate.h | 1 +
 lib/query.c     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/lib/aggregate.h b/lib/aggregate.h
index 1807d5b..5470a50 100644
--- a/lib/aggregate.h
+++ b/lib/aggregate.h
@@ -34,6 +34,7 @@ struct aggregate {
 	enum aggregate_function agg_type;
 	enum field_type data_type;
 	enum mode return_mode;
+	struct node* return_function_stack;
 };
 typedef struct aggregate aggregate;
 
diff --git a/lib/query.c b/lib/query.c
index f799737..f1d1efc 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -640,6 +640,12 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	agg->return_mode = self->mode;
 	self->mode = MODE_AGGREGATE;
 
+	/* what follows belongs to the aggregate,
+	 * not to the function the aggregate is in
+	 */
+	agg->return_function_stack = self->function_stack;
+	self->function_stack = NULL;
+
 	return FQL_GOOD;
 }
 
@@ -647,6 +653,7 @@ int query_exit_aggregate(query* self)
 {
 	aggregate** agg = vec_back(&self->groupby->aggregates);
 	self->mode = (*agg)->return_mode;
+	self->function_stack = (*agg)->return_function_stack;
 	return FQL_GOOD;
 }
 
-- 
2.43.0


From d4cf9c7788a3e8db0be42d400f7a92570bf7785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 052/126] fix: an operator with an aggregate as operand was
 resolved before its type was known

---
 lib/schema.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 805ca0b..b0185f9 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -649,6 +649,18 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 		try_(_evaluate_if_const(expr));
 		break;
 	}
+	case EXPR_AGGREGATE: {
+		aggregate* agg = expr->field.agg;
+		if (agg->call__ == NULL) {
+			try_(_assign_expressions_limited(agg->args,
+			                                 sources,
+			                                 limit,
+			                                 strictness));
+			try_(aggregate_resolve(agg, expr));
+		}
+		expr->field_type = agg->data_type;
+		break;
+	}
 	case EXPR_SUBQUERY:
 		try_(fqlselect_resolve_type_from_subquery(expr));
 		break;
@@ -1047,10 +1059,6 @@ int _map_groups(struct fqlhandle* fql, query* query)
 			continue;
 		}
 		aggregate* agg = (*it)->field.agg;
-		try_(_assign_expressions(agg->args,
-		                         query->sources,
-		                         fql->props.strictness));
-		try_(aggregate_resolve(agg, *it));
 		(*it)->field_type = agg->data_type;
 		agg->linked_expression->field_type = agg->data_type;
 	}
-- 
2.43.0


From 841b42546b451e8d622628dda9329c7f2533247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 053/126] fix: aggregates of no records inside expressions had
 no row, and those of no groups had one

---
 lib/fqlselect.c | 28 ++++++++++++++++++++++++++--
 lib/fqlselect.h |  3 ++-
 lib/operation.c |  2 +-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 8b93844..4a394c5 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -13,6 +13,7 @@
 #include "reader.h"
 #include "schema.h"
 #include "process.h"
+#include "function.h"
 #include "expression.h"
 #include "util/stringy.h"
 #include "util/util.h"
@@ -297,13 +298,36 @@ int fqlselect_next_union(fqlselect* self)
  *
  * TODO: Verify this behavior when UNION is involved
  */
-void fqlselect_verify_must_run(fqlselect* self)
+static bool _has_aggregate(expression* expr)
 {
+	if (expr->expr == EXPR_AGGREGATE) {
+		return true;
+	}
+	if (expr->expr != EXPR_FUNCTION) {
+		return false;
+	}
+	expression** it = vec_begin(expr->field.fn->args);
+	for (; it != vec_end(expr->field.fn->args); ++it) {
+		if (_has_aggregate(*it)) {
+			return true;
+		}
+	}
+	return false;
+}
+
+void fqlselect_verify_must_run(fqlselect* self, group* groupby)
+{
+	/* No records make no groups */
+	if (groupby != NULL
+	    && groupby->expressions.size > groupby->aggregates.size) {
+		self->must_run_once = false;
+	}
+
 	if (self->must_run_once) {
 		expression** it = vec_begin(self->schema->expressions);
 		bool agg_found = false;
 		for (; it != vec_end(self->schema->expressions); ++it) {
-			if ((*it)->expr == EXPR_AGGREGATE) {
+			if (_has_aggregate(*it)) {
 				agg_found = true;
 				break;
 			}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 5d715b8..f238924 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -10,6 +10,7 @@
 struct record;
 struct fqlselect;
 struct inlist;
+struct group;
 typedef int (*select_fn)(struct fqlselect*, struct node*);
 
 struct fqlselect {
@@ -46,7 +47,7 @@ void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
-void fqlselect_verify_must_run(struct fqlselect*);
+void fqlselect_verify_must_run(struct fqlselect*, struct group*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
 void fqlselect_preop(struct fqlselect*, struct query*);
diff --git a/lib/operation.c b/lib/operation.c
index 818651e..3196460 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -411,7 +411,7 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
-		fqlselect_verify_must_run((fqlselect*)self);
+		fqlselect_verify_must_run((fqlselect*)self, query->groupby);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 94e8dfbd0053055e5ea445fb88f34316cd2e5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 054/126] fix: TOP 0 let the aggregate of no records through

---
 lib/fqlprocesses.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index a820f1e..5b06eb7 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -854,7 +854,8 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
+		if (select->must_run_once && select->rows_affected == 0
+		    && current_select->top_count != 0) {
 			try_(select->select__(select, NULL));
 			++select->rows_affected;
 			++proc->rows_affected;
-- 
2.43.0


From adf1b9dcdbdcc1262ed83509a341d68a99e1128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 055/126] fix: a FLOAT of a derived table or group could not
 become an INT

---
 lib/expression.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/expression.c b/lib/expression.c
index 1661eb1..0b1e93e 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -486,6 +486,12 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		string_copy_from_stringview(&self->buf, sv);
+		if (src_expr->field_type == FIELD_FLOAT) {
+			double num = 0;
+			fail_if_(str2double(&num, self->buf.data));
+			*ret = num;
+			return FQL_GOOD;
+		}
 		fail_if_(str2long(ret, self->buf.data));
 		return FQL_GOOD;
 	}
-- 
2.43.0


From 4d78098b163b20fc454d96a1508adbb394139004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 056/126] fix: ORDER BY lost NULLs and read a subquery's value
 as what it is ordered by

---
 lib/fqlselect.c | 25 +++++++++++++++++--------
 lib/order.c     | 17 ++++++++++++++---
 lib/order.h     |  1 +
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 4a394c5..cad0766 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -495,27 +495,36 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	unsigned i = 0;
 	unsigned len = 0;
 	for (; i < expr_vec->size; ++i) {
+		/* every value follows a flag that tells NULL */
+		char is_null = false;
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			long num = 0;
-			try_(expression_get_int(&num, exprs[i], rg));
+			is_null = (try_(expression_get_int(&num, exprs[i], rg)) == FQL_NULL);
+			fwrite(&is_null, sizeof(is_null), 1, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += sizeof(is_null) + sizeof(num);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num = 0;
-			try_(expression_get_float(&num, exprs[i], rg));
+			is_null = (try_(expression_get_float(&num, exprs[i], rg)) == FQL_NULL);
+			fwrite(&is_null, sizeof(is_null), 1, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += sizeof(is_null) + sizeof(num);
 			break;
 		}
 		case FIELD_STRING: {
-			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			stringview sv = {"", 0};
+			is_null = (try_(expression_get_stringview(&sv, exprs[i], rg))
+			           == FQL_NULL);
+			if (is_null) {
+				sv.len = 0;
+			}
+			fwrite(&is_null, sizeof(is_null), 1, order_input);
 			fwrite(&sv.len, sizeof(sv.len), 1, order_input);
 			fwrite(sv.data, 1, sv.len, order_input);
-			len += sizeof(sv.len) + sv.len;
+			len += sizeof(is_null) + sizeof(sv.len) + sv.len;
 			break;
 		}
 		default:;
@@ -601,7 +610,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 		return 1;
 	}
 	case FIELD_STRING: {
-		stringview sv;
+		stringview sv = {"", 0};
 		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
 		}
diff --git a/lib/order.c b/lib/order.c
index 1830756..2e36b15 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -124,6 +124,7 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	 */
 
 	vec* select_exprs = select->schema->expressions;
+	self->select_exprs = select_exprs;
 	schema_preflight(select->schema);
 	multimap* select_map = select->schema->expr_map;
 
@@ -235,8 +236,10 @@ int order_add_record(order* self, node* rg)
 			break;
 		}
 		case FIELD_STRING: {
-			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			stringview sv = {"", 0};
+			if (try_(expression_get_stringview(&sv, exprs[i], rg)) == FQL_NULL) {
+				sv.len = 0;
+			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
 			break;
 		}
@@ -314,6 +317,7 @@ int _order_select_api(order* self, process* proc)
 	size_t offset = self->entry_iter->offset;
 	struct fql_field* it = vec_begin(self->api);
 	for (; it != vec_end(self->api); ++it) {
+		it->is_null = self->mmap[offset++];
 		switch (it->type) {
 		case FQL_INT:
 			it->data.i = *(long*)(&self->mmap[offset]);
@@ -356,12 +360,19 @@ int _order_select_to_const(order* self, process* proc)
 	}
 
 	struct _entry* first_ent = vec_begin(&self->entries);
-	expression* first_expr = *(expression**)vec_begin(&self->expressions);
+
+	/* the record holds what was selected, the
+	 * expressions in here are what it is ordered by
+	 */
+	expression* first_expr = *(expression**)vec_begin(self->select_exprs);
 
 	self->const_dest->expr = EXPR_CONST;
 	self->const_dest->field_type = first_expr->field_type;
 
 	size_t offset = first_ent->offset;
+	if (self->mmap[offset++]) {
+		self->const_dest->expr = EXPR_NULL;
+	}
 	switch (first_expr->field_type) {
 	case FIELD_INT:
 		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
diff --git a/lib/order.h b/lib/order.h
index 9cdb6ff..137014c 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -23,6 +23,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct vec* select_exprs;
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
-- 
2.43.0


From 8e550fa53f3f129277516bdc09c87e3e41149ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 057/126] fix: ORDER BY took the records of a UNION for those
 of its first SELECT

---
 lib/order.c  | 22 +++++++++++++++++-----
 lib/order.h  |  3 ++-
 lib/schema.c |  3 ++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 2e36b15..86019ac 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -107,7 +107,10 @@ void order_set_const_dest(order* self, expression* const_dest)
 	self->select__ = &_order_select_to_const;
 }
 
-int order_preresolve_expressions(order* self, fqlselect* select, const vec* sources)
+int order_preresolve_expressions(order* self,
+                                 fqlselect* select,
+                                 const vec* sources,
+                                 bool is_union)
 {
 	/* First, we want to try and resolve by ordinal:
 	 * SELECT foo
@@ -125,6 +128,7 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 
 	vec* select_exprs = select->schema->expressions;
 	self->select_exprs = select_exprs;
+	self->select = select;
 	schema_preflight(select->schema);
 	multimap* select_map = select->schema->expr_map;
 
@@ -167,7 +171,7 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 		if (result == NULL) {
 			continue;
 		}
-		if ((*result)->expr == EXPR_CONST) {
+		if ((*result)->expr == EXPR_CONST && !is_union) {
 			table* result_table = vec_at(sources, (*result)->src_idx);
 			expression_link(*it, *result, result_table);
 			continue;
@@ -218,26 +222,34 @@ int order_add_record(order* self, node* rg)
 	};
 
 	expression** exprs = vec_begin(&self->expressions);
+	vec* union_exprs = self->select->current_select->schema->expressions;
 
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
+		/* A record of a UNION is ordered by what its own SELECT
+		 * has in that place.
+		 */
+		expression* expr = exprs[i];
+		if (expr->expr == EXPR_REFERENCE && union_exprs != self->select_exprs) {
+			expr = *(expression**)vec_at(union_exprs, expr->index);
+		}
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			/* NOTE: storing numbers in binary */
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			try_(expression_get_int(&num_i, expr, rg));
 			flex_push_back_(&self->order_data, &num_i, long);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			try_(expression_get_float(&num_f, expr, rg));
 			flex_push_back_(&self->order_data, &num_f, double);
 			break;
 		}
 		case FIELD_STRING: {
 			stringview sv = {"", 0};
-			if (try_(expression_get_stringview(&sv, exprs[i], rg)) == FQL_NULL) {
+			if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 				sv.len = 0;
 			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
diff --git a/lib/order.h b/lib/order.h
index 137014c..84d5739 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -24,6 +24,7 @@ struct order {
 	struct vec* api;
 	struct expression* const_dest;
 	struct vec* select_exprs;
+	struct fqlselect* select;
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
@@ -43,7 +44,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
-int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*);
+int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*, bool);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
 
diff --git a/lib/schema.c b/lib/schema.c
index b0185f9..ae60645 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1251,7 +1251,8 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		order_exprs = &aquery->orderby->expressions;
 		try_(order_preresolve_expressions(aquery->orderby,
 		                                  aquery->op,
-		                                  aquery->sources));
+		                                  aquery->sources,
+		                                  !vec_empty(aquery->unions)));
 		try_(_assign_expressions(order_exprs,
 		                         aquery->sources,
 		                         fql->props.strictness));
-- 
2.43.0


From 6e41de62d813539b48aa30f6b3d3f9bcabd5cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 058/126] fix: ORDER BY a constant that is selected sorted by
 some column instead

---
 lib/order.c  | 10 +---------
 lib/order.h  |  2 +-
 lib/schema.c |  5 +----
 3 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 86019ac..582bbe6 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -107,10 +107,7 @@ void order_set_const_dest(order* self, expression* const_dest)
 	self->select__ = &_order_select_to_const;
 }
 
-int order_preresolve_expressions(order* self,
-                                 fqlselect* select,
-                                 const vec* sources,
-                                 bool is_union)
+int order_preresolve_expressions(order* self, fqlselect* select)
 {
 	/* First, we want to try and resolve by ordinal:
 	 * SELECT foo
@@ -171,11 +168,6 @@ int order_preresolve_expressions(order* self,
 		if (result == NULL) {
 			continue;
 		}
-		if ((*result)->expr == EXPR_CONST && !is_union) {
-			table* result_table = vec_at(sources, (*result)->src_idx);
-			expression_link(*it, *result, result_table);
-			continue;
-		}
 		(*it)->index = (*result)->index;
 		(*it)->expr = EXPR_REFERENCE;
 	}
diff --git a/lib/order.h b/lib/order.h
index 84d5739..9a06ed8 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -44,7 +44,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
-int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*, bool);
+int order_preresolve_expressions(struct order*, struct fqlselect*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
 
diff --git a/lib/schema.c b/lib/schema.c
index ae60645..a125204 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1249,10 +1249,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	vec* order_exprs = NULL;
 	if (aquery->orderby) {
 		order_exprs = &aquery->orderby->expressions;
-		try_(order_preresolve_expressions(aquery->orderby,
-		                                  aquery->op,
-		                                  aquery->sources,
-		                                  !vec_empty(aquery->unions)));
+		try_(order_preresolve_expressions(aquery->orderby, aquery->op));
 		try_(_assign_expressions(order_exprs,
 		                         aquery->sources,
 		                         fql->props.strictness));
-- 
2.43.0


From c58e1cd86da56362a814f7993e063dede55910ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 059/126] fix: stepping an ORDER BY crashed on no records and
 returned a row for TOP 0

---
 lib/order.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 582bbe6..38ff0c9 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -315,7 +315,8 @@ int _order_select(order* self, process* proc)
 
 int _order_select_api(order* self, process* proc)
 {
-	if (self->entry_iter == vec_end(&self->entries)) {
+	if (self->entry_iter == vec_end(&self->entries)
+	    || proc->rows_affected >= self->top_count) {
 		return 0;
 	}
 	size_t offset = self->entry_iter->offset;
@@ -405,6 +406,7 @@ int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
 	self->sorted = true;
+	self->entry_iter = vec_begin(&self->entries);
 
 	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
 	if (self->fd == -1) {
@@ -432,7 +434,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From 8b26166e9d201a4c6f1de9fc609d7e79542762b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 060/126] fix: a SELECT of a UNION kept its type when a later
 one changed that of the column

---
 lib/fqlselect.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index cad0766..906f2a5 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -131,21 +131,29 @@ int fqlselect_resolve_final_types(fqlselect* self)
 
 	vec* expr_vec = self->schema->expressions;
 
-	node* union_node = self->union_selects;
-	for (; union_node; union_node = union_node->next) {
-		fqlselect* union_select = union_node->data;
-		vec* union_expr_vec = union_select->schema->expressions;
-		unsigned i = 0;
-		for (; i < expr_vec->size; ++i) {
-			expression** expr1 = vec_at(expr_vec, i);
-			expression** expr2 = vec_at(union_expr_vec, i);
-			enum field_type type1 = (*expr1)->field_type;
-			enum field_type type2 = (*expr2)->field_type;
-			enum field_type new_type = field_determine_type(type1, type2);
-			if (new_type != type1) {
-				try_(expression_cast(*expr1, new_type));
-			}
-			if (new_type != type2) {
+	/* The type of a column is known once all SELECTs had
+	 * their say. Only then can each of them be cast to it.
+	 */
+	unsigned i = 0;
+	for (; i < expr_vec->size; ++i) {
+		expression** expr1 = vec_at(expr_vec, i);
+		enum field_type new_type = (*expr1)->field_type;
+
+		node* union_node = self->union_selects;
+		for (; union_node; union_node = union_node->next) {
+			fqlselect* union_select = union_node->data;
+			expression** expr2 = vec_at(union_select->schema->expressions, i);
+			new_type = field_determine_type(new_type, (*expr2)->field_type);
+		}
+
+		if (new_type != (*expr1)->field_type) {
+			try_(expression_cast(*expr1, new_type));
+		}
+		for (union_node = self->union_selects; union_node;
+		     union_node = union_node->next) {
+			fqlselect* union_select = union_node->data;
+			expression** expr2 = vec_at(union_select->schema->expressions, i);
+			if (new_type != (*expr2)->field_type) {
 				try_(expression_cast(*expr2, new_type));
 			}
 		}
-- 
2.43.0


From 1a319af28b9e2154a8b82ecde261a89813f8daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 061/126] fix: the size guess of a hash join leaked a record if
 the file was empty

---
 lib/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/table.c b/lib/table.c
index d16a2c7..1b0a26b 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -174,14 +174,14 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	if (i == 0) {
+		return HASH_JOIN_MIN_SIZE;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
-- 
2.43.0


From 9528d32c0e5984e148dfc97c3f3e350057318629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:17 +0000
Subject: [PATCH 062/126] fix: a CASE that became FLOAT still printed its INT
 values as INT

---
 lib/expression.c |  3 +++
 lib/switchcase.c | 18 +++++++++++-------
 lib/switchcase.h |  2 ++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 0b1e93e..4ba1d8f 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -321,6 +321,9 @@ int expression_cast(expression* self, enum field_type new_type)
 			self->is_cast = true;
 			self->uncast_type = self->field_type;
 		}
+		if (self->expr == EXPR_SWITCH_CASE) {
+			try_(switchcase_cast(self->field.sc, new_type));
+		}
 		self->field_type = new_type;
 		return FQL_GOOD;
 	}
diff --git a/lib/switchcase.c b/lib/switchcase.c
index 51bef60..75bfa20 100644
--- a/lib/switchcase.c
+++ b/lib/switchcase.c
@@ -50,16 +50,20 @@ int switchcase_resolve_type(switchcase* self, expression* expr)
 	expr->field_type = (*it)->field_type;
 
 	for (; it != vec_end(&self->values); ++it) {
-		enum field_type new_type =
+		expr->field_type =
 		        field_determine_type(expr->field_type, (*it)->field_type);
-		if (expr->field_type != new_type) {
-			try_(expression_cast(expr, new_type));
-		}
-		if ((*it)->field_type != new_type) {
-			try_(expression_cast(*it, new_type));
-		}
 	}
 
+	return switchcase_cast(self, expr->field_type);
+}
+
+/* whichever value is returned, it must be of the same type */
+int switchcase_cast(switchcase* self, enum field_type new_type)
+{
+	expression** it = vec_begin(&self->values);
+	for (; it != vec_end(&self->values); ++it) {
+		try_(expression_cast(*it, new_type));
+	}
 	return FQL_GOOD;
 }
 
diff --git a/lib/switchcase.h b/lib/switchcase.h
index 16ef920..65ef31b 100644
--- a/lib/switchcase.h
+++ b/lib/switchcase.h
@@ -1,6 +1,7 @@
 #ifndef SWITCHCASE_H
 #define SWITCHCASE_H
 
+#include "field.h"
 #include "query.h"
 #include "util/vec.h"
 
@@ -35,6 +36,7 @@ void switchcase_destroy(struct switchcase*);
 void switchcase_add_value(struct switchcase*, const struct expression*);
 void switchcase_add_logicgroup(struct switchcase*, struct logicgroup*);
 int switchcase_resolve_type(struct switchcase*, struct expression*);
+int switchcase_cast(struct switchcase*, enum field_type);
 
 int switchcase_eval_to_int(struct switchcase*, long* ret, struct node*);
 int switchcase_eval_to_float(struct switchcase*, double* ret, struct node*);
-- 
2.43.0


From 9952e42492d68e315213abc5f1f105f722c301db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:20 +0000
Subject: [PATCH 063/126] fix: stepping through two joins could wait forever
 for a free record

---
 lib/fqlprocesses.c | 6 ++++++
 lib/process.c      | 1 +
 2 files changed, 7 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 5b06eb7..dabdf60 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -496,6 +496,12 @@ enum proc_return fql_hash_join(process* proc)
 
 	node** left_rg_iter = fifo_begin(in_left);
 	while (left_rg_iter != fifo_end(in_left)) {
+		/* Without threads, nobody returns records while we wait */
+		if (!proc->is_threading
+		    && fifo_available(proc->fifo_aux_root) < proc->out_src_count) {
+			ret = PROC_RETURN_WAIT_ON_OUT1;
+			break;
+		}
 		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
 		if (offset == -1) {
 			if (table->join_type == JOIN_LEFT) {
diff --git a/lib/process.c b/lib/process.c
index fc185d0..491bab9 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -440,6 +440,7 @@ int _join_threads(vec* tdata_vec)
 		struct thread_data* tdata = vec_at(tdata_vec, i);
 		process* proc = tdata->proc_node->data;
 		ret += pthread_join(proc->thread, &status);
+		proc->is_threading = false;
 	}
 	return ret;
 }
-- 
2.43.0


From 1b98063950493dc34236413cad1289d73d12d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:08 +0000
Subject: [PATCH 064/126] fix: a nested loop join dropped records when what
 follows could not receive them

---
 lib/fqlprocesses.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index dabdf60..37ae582 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -303,6 +303,10 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
-- 
2.43.0


From aaad18797f00cab90531dd9a998a83ae0ad13aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 065/126] fix: describing a constant of more than 29 digits
 overflowed a buffer

---
 lib/expression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/expression.c b/lib/expression.c
index 4ba1d8f..f6ab060 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -202,7 +202,8 @@ void expression_cat_description(expression* self, string* msg)
 			break;
 		}
 		case FIELD_FLOAT: {
-			char buf[30];
+			/* up to 309 digits before the point */
+			char buf[330];
 			sprintf(buf, "%lf", self->field.f);
 			string_strcat(msg, buf);
 			break;
-- 
2.43.0


From 1c445d9bba1c1d785d5e059bfa5dc36f7edcff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 066/126] fix: a LIKE pattern with an unopened ] was searched
 after it had moved

---
 lib/like.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/like.c b/lib/like.c
index 5cc441c..bfe5943 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -112,11 +112,14 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 			if (open <= 0) {
 				end[0] = '\\';
 				char end_bracket = ']';
+				unsigned end_idx = end - begin;
 				vec_insert_iter(likebuf,
 				                end + 1,
 				                &end_bracket,
 				                &end_bracket);
-				search = end + 3;
+				/* in case of realloc */
+				begin = vec_begin(likebuf);
+				search = begin + end_idx + 2;
 			} else {
 				open--;
 				search = end + 1;
-- 
2.43.0


From 8bc1e23961bbca9f33b590b7a289ca0c93793faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:31 +0000
Subject: [PATCH 067/126] fix: what an UPDATE or DELETE wrote was not seen, and
 undone, by later statements

---
 lib/libfql.c | 36 ++++++++++++++++++++++++++++++++++++
 lib/table.c  |  3 +++
 2 files changed, 39 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index f813d87..c9e0da6 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -545,6 +545,34 @@ void _exec_plans_print_footer(plan* plan, query* query)
 	default:;
 	}
 }
+
+/* UPDATE and DELETE replace the file. All who have it open
+ * still read what it was before.
+ */
+void _mark_replaced(query* self, const char* file_name)
+{
+	table* table_iter = vec_begin(self->sources);
+	for (; table_iter != vec_end(self->sources); ++table_iter) {
+		if (table_iter->subquery != NULL) {
+			_mark_replaced(table_iter->subquery, file_name);
+		} else if (!table_iter->is_stdin
+		           && string_eq(string_c_str(&table_iter->reader->file_name),
+		                        file_name)) {
+			table_iter->must_reopen = true;
+		}
+	}
+
+	query** it = vec_begin(self->subquery_const_vec);
+	for (; it != vec_end(self->subquery_const_vec); ++it) {
+		_mark_replaced(*it, file_name);
+	}
+
+	it = vec_begin(self->unions);
+	for (; it != vec_end(self->unions); ++it) {
+		_mark_replaced(*it, file_name);
+	}
+}
+
 /**
  * Execution
  */
@@ -583,6 +611,14 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 			break;
 		}
 
+		enum fql_operation* op = (*query)->op;
+		if (*op == FQL_UPDATE || *op == FQL_DELETE) {
+			struct query** it = vec_begin(fql->query_vec);
+			for (; it != vec_end(fql->query_vec); ++it) {
+				_mark_replaced(*it, (*query)->into_table_name);
+			}
+		}
+
 		if (fql->props.verbosity > FQL_QUIET) {
 			_exec_plans_print_footer(plan, *query);
 		}
diff --git a/lib/table.c b/lib/table.c
index 1b0a26b..c14f32d 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -81,6 +81,9 @@ int table_reset(table* self, bool has_executed)
 	} else if (has_executed) {
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
+	} else if (self->subquery != NULL) {
+		/* Variables and files may have changed since it was built */
+		try_(query_preflight(self->subquery, false));
 	}
 
 	return FQL_GOOD;
-- 
2.43.0


From e5c53f2211610486b2d50dd3a359591e1334a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:31 +0000
Subject: [PATCH 068/126] fix: a plan without roots leaked its list of them

---
 lib/fqlplan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index c189efe..f437102 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -72,6 +72,7 @@ void plan_destroy(void* generic_plan)
 	delete_if_exists_(vec, self->execution_vector);
 
 	if (self->_root_data == NULL) {
+		delete_if_exists_(vec, self->root_fifo_vec);
 		return;
 	}
 
-- 
2.43.0


From a180fd61c88f32e3990bdb24cdf24e21786c2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 069/126] fix: SELECT alias = expression wrote through a
 missing column

---
 lib/antlr/listenerinterface.cpp | 51 ++++++++++++++++++++++++++-------
 lib/antlr/listenerinterface.h   |  2 ++
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 6f07ec3..8902715 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -248,7 +248,15 @@ void ListenerInterface::exitColumn_elem(TSqlParser::Column_elemContext * ctx)
 }
 
 void ListenerInterface::enterExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
-void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
+void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx)
+{
+	if (ctx->leftAlias == NULL) {
+		return;
+	}
+	/* alias = expression */
+	std::string alias = _id_text(ctx->leftAlias->getText());
+	query_apply_expression_alias(_query, alias.c_str());
+}
 
 void ListenerInterface::enterSelect_list_elem(TSqlParser::Select_list_elemContext * ctx)
 {
@@ -372,10 +380,25 @@ void ListenerInterface::exitAs_column_alias(TSqlParser::As_column_aliasContext *
 
 void ListenerInterface::enterColumn_alias(TSqlParser::Column_aliasContext * ctx)
 {
+	TSqlParser::Expression_elemContext* elem =
+		dynamic_cast<TSqlParser::Expression_elemContext*>(ctx->parent);
+	if (elem != NULL && elem->leftAlias == ctx) {
+		_tok_type = TOK_LEFT_ALIAS;
+		return;
+	}
 	_tok_type = TOK_COLUMN_ALIAS;
+	if (ctx->STRING()) {
+		std::string alias = _id_text(ctx->getText());
+		query_apply_expression_alias(_query, alias.c_str());
+	}
 }
 
-void ListenerInterface::exitColumn_alias(TSqlParser::Column_aliasContext * ctx) { }
+void ListenerInterface::exitColumn_alias(TSqlParser::Column_aliasContext * ctx)
+{
+	if (_tok_type == TOK_LEFT_ALIAS) {
+		_tok_type = TOK_COLUMN_NAME;
+	}
+}
 
 void ListenerInterface::enterAs_table_alias(TSqlParser::As_table_aliasContext * ctx) { }
 void ListenerInterface::exitAs_table_alias(TSqlParser::As_table_aliasContext * ctx) { }
@@ -482,16 +505,20 @@ void ListenerInterface::exitUnary_operator_expression(TSqlParser::Unary_operator
 	}
 }
 
-void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
+std::string ListenerInterface::_id_text(std::string text)
 {
-	std::string new_str = ctx->getText();
-
-	if (new_str[0] == '\'') {
-		_trim_end_chars(new_str, '\'', '\'');
-		_find_replace(new_str, "''", "'");
-	} else if (new_str[0] == '[') {
-		_trim_end_chars(new_str, '[', ']');
+	if (text[0] == '\'') {
+		_trim_end_chars(text, '\'', '\'');
+		_find_replace(text, "''", "'");
+	} else if (text[0] == '[') {
+		_trim_end_chars(text, '[', ']');
 	}
+	return text;
+}
+
+void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
+{
+	std::string new_str = _id_text(ctx->getText());
 
 	char* token = strdup(new_str.c_str());
 
@@ -510,6 +537,10 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		query_apply_expression_alias(_query, token);
 		free_(token);
 		break;
+	case TOK_LEFT_ALIAS:
+		/* applied once its expression is known */
+		free_(token);
+		break;
 	case TOK_INTO_TABLE:
 		/* No need to free here, into_table_name
 		 * is now owned by the query.
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 685216a..4ad1649 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -17,6 +17,7 @@ class ListenerInterface : public TSqlParserBaseListener {
 		TOK_INTO_TABLE,
 		TOK_COLUMN_NAME,
 		TOK_COLUMN_ALIAS,
+		TOK_LEFT_ALIAS,
 		TOK_TABLE_NAME,
 		TOK_TABLE_SOURCE,
 		TOK_TABLE_ALIAS,
@@ -47,6 +48,7 @@ class ListenerInterface : public TSqlParserBaseListener {
 	bool _is_table_variable = false;
 
 	void _set_failure();
+	std::string _id_text(std::string);
 	void _no_impl(const std::string&, int);
 
       public:
-- 
2.43.0


From 9afa43849310b7802bd23f9311d054b588cb4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 070/126] fix: TOP of DELETE, OFFSET, WITH TIES, SELECT @x =
 and DISTINCT of an aggregate were parsed and ignored

---
 lib/antlr/listenerinterface.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 8902715..32fd312 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -260,6 +260,9 @@ void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext *
 
 void ListenerInterface::enterSelect_list_elem(TSqlParser::Select_list_elemContext * ctx)
 {
+	if (ctx->LOCAL_ID()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_SELECTLIST;
 	_tok_type = TOK_COLUMN_NAME;
 }
@@ -695,6 +698,9 @@ void ListenerInterface::exitSelect_statement(TSqlParser::Select_statementContext
 
 void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContext * ctx)
 {
+	if (ctx->TOP()) {
+		_no_impl(ctx->TOP()->getText(), ctx->getRuleIndex());
+	}
 	_operation = FQL_DELETE;
 	if (query_init_op(_query, _operation)) {
 		_set_failure();
@@ -720,6 +726,9 @@ void ListenerInterface::exitDelete_statement_from(TSqlParser::Delete_statement_f
 
 void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContext * ctx)
 {
+	if (ctx->TOP()) {
+		_no_impl(ctx->TOP()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_UPDATELIST;
 	_operation = FQL_UPDATE;
 	if (query_init_op(_query, _operation)) {
@@ -1004,11 +1013,19 @@ void ListenerInterface::exitAggregate_windowed_function(TSqlParser::Aggregate_wi
 void ListenerInterface::enterAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 void ListenerInterface::exitAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 
-void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
+void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx)
+{
+	if (ctx->DISTINCT()) {
+		_no_impl(ctx->DISTINCT()->getText(), ctx->getRuleIndex());
+	}
+}
 void ListenerInterface::exitAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
 
 void ListenerInterface::enterOrder_by_clause(TSqlParser::Order_by_clauseContext * ctx)
 {
+	if (ctx->OFFSET()) {
+		_no_impl(ctx->OFFSET()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_ORDERBY;
 	query_init_orderby(_query);
 }
@@ -1026,6 +1043,9 @@ void ListenerInterface::exitOrder_by_expression(TSqlParser::Order_by_expressionC
 
 void ListenerInterface::enterTop_clause(TSqlParser::Top_clauseContext * ctx)
 {
+	if (ctx->TIES()) {
+		_no_impl(ctx->TIES()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode_store = _query->mode;
 	_query->mode = MODE_TOP;
 }
-- 
2.43.0


From 533c73dff2232442914ae16e7cfcdfbfce657d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 071/126] fix: DECLARE of several variables set only the last
 of them

---
 lib/antlr/listenerinterface.cpp | 22 +++++++++++++++++-----
 lib/antlr/listenerinterface.h   |  1 +
 lib/fqlhandle.h                 |  4 ++--
 lib/libfql.c                    |  8 ++++----
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 32fd312..81d11a7 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -110,13 +110,25 @@ void ListenerInterface::exitDeclare_statement(TSqlParser::Declare_statementConte
 
 void ListenerInterface::enterDeclare_local(TSqlParser::Declare_localContext * ctx)
 {
-	int idx = libfql_declare_variable(_fql, ctx->LOCAL_ID()->getText().c_str());
-	if (idx == FQL_FAIL) {
+	/* Each variable has an initial value of its own to be set */
+	TSqlParser::Declare_statementContext* stmt =
+		dynamic_cast<TSqlParser::Declare_statementContext*>(ctx->parent);
+	if (stmt != NULL && stmt->declare_local(0) != ctx) {
+		_query->query_total = _query_id + 1;
+		node_pop(&_query_stack);
+		_query = query_enter_query(_fql, ctx->getStart()->getStartIndex(), ctx->getStop()->getStopIndex());
+		_query_id = 0;
+		node_push(&_query_stack, _query);
+		enterDeclare_statement(stmt);
+	}
+
+	_declare_idx = libfql_declare_variable(_fql, ctx->LOCAL_ID()->getText().c_str());
+	if (_declare_idx == FQL_FAIL) {
 		_set_failure();
 		return;
 	}
 
-	query_set_variable_idx(_query, idx);
+	query_set_variable_idx(_query, _declare_idx);
 }
 void ListenerInterface::exitDeclare_local(TSqlParser::Declare_localContext * ctx) { }
 
@@ -566,7 +578,7 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		break;
 	case TOK_DATA_TYPE:
 		if (_query->mode == MODE_DECLARE) {
-			if (libfql_set_variable_type(_fql, token)) {
+			if (libfql_set_variable_type(_fql, _declare_idx, token)) {
 				_set_failure();
 			}
 		} else {
@@ -838,7 +850,7 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 
 	switch (_query->mode) {
 	case MODE_DECLARE:
-		if (libfql_set_variable_limit(_fql, numstr)) {
+		if (libfql_set_variable_limit(_fql, _declare_idx, numstr)) {
 			_set_failure();
 		}
 		break;
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 4ad1649..0c0c138 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -40,6 +40,7 @@ class ListenerInterface : public TSqlParserBaseListener {
 	char _table_alias[TABLE_NAME_MAX + 1];
 
 	int _query_id = 0;
+	int _declare_idx = 0;
 	int _return_code = 0;
 	enum tok_type _next_tok_type;
 	enum tok_type _tok_type;
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 23ce477..347ddab 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -54,8 +54,8 @@ struct fqlhandle {
 typedef struct fqlhandle fqlhandle;
 
 int libfql_declare_variable(struct fqlhandle*, const char*);
-int libfql_set_variable_limit(struct fqlhandle*, const char*);
-int libfql_set_variable_type(struct fqlhandle*, const char*);
+int libfql_set_variable_limit(struct fqlhandle*, int idx, const char*);
+int libfql_set_variable_type(struct fqlhandle*, int idx, const char*);
 /* actually enum but extern "C" */
 int libfql_get_sql_type(const char* type_str);
 
diff --git a/lib/libfql.c b/lib/libfql.c
index c9e0da6..1fe5185 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -106,9 +106,9 @@ int libfql_get_sql_type(const char* type_str)
 	return SQL_UNDEFINED;
 }
 
-int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
+int libfql_set_variable_type(fqlhandle* fql, int idx, const char* type_str)
 {
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, idx);
 
 	try_(variable_set_type(var, libfql_get_sql_type(type_str)));
 
@@ -140,7 +140,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 	return new_var_idx;
 }
 
-int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
+int libfql_set_variable_limit(fqlhandle* fql, int idx, const char* limit_str)
 {
 	long limit = 0;
 	if (str2long(&limit, limit_str)) {
@@ -150,7 +150,7 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 		fprintf(stderr, "invalid size argument(%ld)\n", limit);
 		return FQL_FAIL;
 	}
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, idx);
 	var->limit = limit;
 	return FQL_GOOD;
 }
-- 
2.43.0


From 26e27e99e949e876c5dfc4132f8eb660405fadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 072/126] fix: a record that a join matched several times could
 be kept several times by DELETE and UPDATE

---
 lib/fqlprocesses.c | 338 ++++++++++++---------------------------------
 lib/operation.h    |   3 +-
 2 files changed, 91 insertions(+), 250 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 37ae582..0dc38f9 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -995,128 +995,75 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-enum proc_return
-_del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* A join may send a record of the operation's table several
+ * times, and to either side. It is kept, once, if all of them
+ * are false. Both sides are in order, so once a later record
+ * shows up on either of them, no more of the current one will.
+ */
+enum filter_step {
+	FILTER_WAIT,
+	FILTER_DROP_FALSE,
+	FILTER_DROP_TRUE,
+	FILTER_KEEP,
+	FILTER_MATCH,
+};
+
+enum filter_step _filter_step(fifo* in_false,
+                              fifo* in_true,
+                              unsigned table_idx,
+                              enum filter_state* state,
+                              size_t* filter_idx)
 {
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
+	/* Look in this order: what was sent before the records
+	 * we see in one step is there to be seen in the next.
+	 */
+	unsigned false_count = fifo_available(in_false);
+	bool true_is_open = in_true->is_open;
+	bool has_true = !fifo_is_empty(in_true);
+	bool has_false = !fifo_is_empty(in_false);
 
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
+	record* true_rec = NULL;
+	record* false_rec = NULL;
+	if (has_false) {
+		node** node = fifo_peek(in_false);
+		false_rec = record_at(*node, table_idx);
 	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		delete->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
+	if (has_true) {
+		node** node = fifo_peek(in_true);
+		true_rec = record_at(*node, table_idx);
 	}
 
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			if (false_done) {
-				delete->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
+	if (has_true && (!has_false || true_rec->rec_idx <= false_rec->rec_idx)) {
+		if (*state == FILTER_DECIDED && true_rec->rec_idx == *filter_idx) {
+			return FILTER_DROP_TRUE;
 		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
+		*state = FILTER_DECIDED;
+		*filter_idx = true_rec->rec_idx;
+		return FILTER_MATCH;
 	}
-	fifo_update(in_true);
 
-	return ret;
-}
-
-enum proc_return
-_del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(delete->undelete__(delete, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
+	if (!has_false) {
+		return FILTER_WAIT;
 	}
 
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(delete->undelete__(delete, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
+	if (*state == FILTER_DECIDED && false_rec->rec_idx == *filter_idx) {
+		return FILTER_DROP_FALSE;
 	}
 
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
+	if (!has_true && true_is_open) {
+		if (false_count < 2) {
+			return FILTER_WAIT;
 		}
-		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
-		if (look_ahead_rec->rec_idx > delete->delete_idx) {
-			try_(delete->undelete__(delete, *iter_false));
-			delete->state = FILTER_OPEN;
+		node** node = fifo_look_ahead(in_false);
+		record* next_rec = record_at(*node, table_idx);
+		if (next_rec->rec_idx == false_rec->rec_idx) {
+			return FILTER_DROP_FALSE;
 		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
 	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
 
-enum proc_return
-_del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, delete->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		delete->delete_idx = true_rec->rec_idx;
-		delete->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	delete->delete_idx = false_rec->rec_idx;
-	delete->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
+	*state = FILTER_DECIDED;
+	*filter_idx = false_rec->rec_idx;
+	return FILTER_KEEP;
 }
 
 enum proc_return fql_delete_filter(process* proc)
@@ -1141,14 +1088,24 @@ enum proc_return fql_delete_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (delete->state) {
-	case FILTER_PASSTHROUGH:
-		return _del_passthrough(proc, delete, in_false, in_true);
-	case FILTER_FILTERING:
-		return _del_filtering(proc, delete, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _del_open(proc, delete, in_false, in_true);
+	for (;;) {
+		enum filter_step step = _filter_step(in_false,
+		                                     in_true,
+		                                     delete->table_idx,
+		                                     &delete->state,
+		                                     &delete->delete_idx);
+		if (step == FILTER_WAIT) {
+			return PROC_RETURN_WAIT_ON_IN_EITHER;
+		}
+
+		bool is_true = (step == FILTER_MATCH || step == FILTER_DROP_TRUE);
+		node** it = fifo_get(is_true ? in_true : in_false);
+		if (step == FILTER_KEEP) {
+			try_(delete->undelete__(delete, *it));
+		} else if (step == FILTER_MATCH) {
+			++proc->rows_affected;
+		}
+		fqlprocess_recycle(proc, it);
 	}
 }
 
@@ -1212,132 +1169,6 @@ enum proc_return fql_update(process* proc)
 	return ret;
 }
 
-enum proc_return
-_update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		update->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			if (false_done) {
-				update->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(update->noupdate__(update, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			try_(update->update__(update, *true_node));
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(update->noupdate__(update, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
-		if (look_ahead_rec->rec_idx > update->update_idx) {
-			try_(update->noupdate__(update, *iter_false));
-			update->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, update->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		try_(update->update__(update, *true_node));
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		update->update_idx = true_rec->rec_idx;
-		update->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	update->update_idx = false_rec->rec_idx;
-	update->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
 enum proc_return fql_update_filter(process* proc)
 {
 	fifo* in_false = proc->fifo_in[0];
@@ -1359,14 +1190,25 @@ enum proc_return fql_update_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (update->state) {
-	case FILTER_PASSTHROUGH:
-		return _update_passthrough(proc, update, in_false, in_true);
-	case FILTER_FILTERING:
-		return _update_filtering(proc, update, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _update_open(proc, update, in_false, in_true);
+	for (;;) {
+		enum filter_step step = _filter_step(in_false,
+		                                     in_true,
+		                                     update->table_idx,
+		                                     &update->state,
+		                                     &update->update_idx);
+		if (step == FILTER_WAIT) {
+			return PROC_RETURN_WAIT_ON_IN_EITHER;
+		}
+
+		bool is_true = (step == FILTER_MATCH || step == FILTER_DROP_TRUE);
+		node** it = fifo_get(is_true ? in_true : in_false);
+		if (step == FILTER_KEEP) {
+			try_(update->noupdate__(update, *it));
+		} else if (step == FILTER_MATCH) {
+			try_(update->update__(update, *it));
+			++proc->rows_affected;
+		}
+		fqlprocess_recycle(proc, it);
 	}
 }
 
diff --git a/lib/operation.h b/lib/operation.h
index 915c1a0..758274a 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -11,8 +11,7 @@ struct expression;
 
 enum filter_state {
 	FILTER_OPEN,
-	FILTER_PASSTHROUGH,
-	FILTER_FILTERING,
+	FILTER_DECIDED,
 };
 
 enum fql_operation;
-- 
2.43.0


From e453837a04de9e28f8de20fada1a502698f39323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 073/126] fix: UPDATE and DELETE of a table that is not among
 the sources crashed

---
 lib/antlr/listenerinterface.cpp |  8 ++++++--
 lib/operation.c                 | 13 +++++++++++++
 lib/operation.h                 |  1 +
 lib/query.c                     | 28 ++++++++++++++++++----------
 lib/query.h                     |  2 +-
 5 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 81d11a7..11eb132 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -724,7 +724,9 @@ void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContex
 
 void ListenerInterface::exitDelete_statement(TSqlParser::Delete_statementContext * ctx)
 {
-	query_exit_non_select_op(_query);
+	if (query_exit_non_select_op(_query)) {
+		_set_failure();
+	}
 }
 
 void ListenerInterface::enterDelete_statement_from(TSqlParser::Delete_statement_fromContext * ctx)
@@ -754,7 +756,9 @@ void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContex
 void ListenerInterface::exitUpdate_statement(TSqlParser::Update_statementContext * ctx)
 {
 	_tok_type = TOK_UNDEFINED;
-	query_exit_non_select_op(_query);
+	if (query_exit_non_select_op(_query)) {
+		_set_failure();
+	}
 }
 
 void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx) { }
diff --git a/lib/operation.c b/lib/operation.c
index 3196460..dc7f552 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -174,6 +174,19 @@ void op_match_table_alias(enum fql_operation* self, table* check_table)
 	}
 }
 
+/* has one of the sources been taken for the table to change? */
+bool op_has_matched_table(enum fql_operation* self)
+{
+	switch (*self) {
+	case FQL_DELETE:
+		return ((fqldelete*)self)->table_idx != (unsigned)-1;
+	case FQL_UPDATE:
+		return ((fqlupdate*)self)->table_idx != (unsigned)-1;
+	default:
+		return true;
+	}
+}
+
 void op_set_table_name(enum fql_operation* self, const char* table_name)
 {
 	schema* op_schema = op_get_schema(self);
diff --git a/lib/operation.h b/lib/operation.h
index 758274a..e743e77 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -22,6 +22,7 @@ struct vec* op_get_additional_exprs(enum fql_operation*);
 struct schema* op_get_schema(enum fql_operation*);
 const char* op_get_table_name(enum fql_operation*);
 void op_match_table_alias(enum fql_operation*, struct table*);
+bool op_has_matched_table(enum fql_operation*);
 void op_set_table(enum fql_operation*, struct table*);
 void op_set_table_name(enum fql_operation*, const char*);
 void op_set_top_count(enum fql_operation*, size_t);
diff --git a/lib/query.c b/lib/query.c
index f1d1efc..aba4eae 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -789,20 +789,28 @@ int query_set_op_table(query* self, const char* op_table_name)
 	return FQL_GOOD;
 }
 
-void query_exit_non_select_op(query* self)
+int query_exit_non_select_op(query* self)
 {
-	if (!vec_empty(self->sources)) {
-		return;
-	}
-
 	const char* op_table_name = op_get_table_name(self->op);
-	char* table_name_dup = strdup(op_table_name);
 
-	node* fake_source_stack = NULL;
-	node_push(&fake_source_stack, table_name_dup);
-	query_add_source(self, &fake_source_stack, table_name_dup, false);
+	if (vec_empty(self->sources)) {
+		char* table_name_dup = strdup(op_table_name);
+
+		node* fake_source_stack = NULL;
+		node_push(&fake_source_stack, table_name_dup);
 
-	/* query_add_source will free the stack and its data */
+		/* query_add_source will free the stack and its data */
+		try_(query_add_source(self, &fake_source_stack, table_name_dup, false));
+	}
+
+	if (!op_has_matched_table(self->op)) {
+		fprintf(stderr,
+		        "Unable to resolve the table to change: `%s'\n",
+		        op_table_name);
+		return FQL_FAIL;
+	}
+
+	return FQL_GOOD;
 }
 
 /** in statement **/
diff --git a/lib/query.h b/lib/query.h
index 64c7504..acdf11b 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -249,7 +249,7 @@ int query_exit_union(struct query*, struct query*);
 int query_init_op(struct query*, enum fql_operation);
 int query_set_top_count(struct query*, const char*);
 int query_set_op_table(struct query*, const char*);
-void query_exit_non_select_op(struct query*);
+int query_exit_non_select_op(struct query*);
 int query_set_into_table(struct query*, const char*);
 int query_set_into_table_var(struct query*, const char*);
 
-- 
2.43.0


From f5304904db50e1c88ee4dbcbc180beb501ca4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 074/126] fix: records added just before a pipe was closed
 could be lost with threads

---
 lib/fqlprocesses.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 0dc38f9..fc7c48d 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -239,7 +239,7 @@ enum proc_return fql_read(process* proc)
 	fifo* in = proc->fifo_in[0];
 	//if (fifo_is_empty(in) && (proc->root_fifo == 0 || vec_empty(proc->inbuf))) {
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (!in->is_open && fifo_is_empty(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -297,7 +297,7 @@ enum proc_return fql_cartesian_join(process* proc)
 	fifo* in_right = proc->fifo_in[1];
 
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (!in_left->is_open && fifo_is_empty(in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -471,7 +471,7 @@ enum proc_return fql_hash_join(process* proc)
 
 	if (hj->state == SIDE_RIGHT) {
 		if (fifo_is_empty(in_right)) {
-			if (!in_right->is_open) {
+			if (!in_right->is_open && fifo_is_empty(in_right)) {
 				hj->state = SIDE_LEFT;
 				table->reader->reset__(table->reader);
 				return PROC_RETURN_RUNNING;
@@ -490,7 +490,7 @@ enum proc_return fql_hash_join(process* proc)
 	}
 
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (!in_left->is_open && fifo_is_empty(in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -584,7 +584,7 @@ enum proc_return fql_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (!in->is_open && fifo_is_empty(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -648,7 +648,7 @@ enum proc_return fql_left_join_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (!in->is_open && fifo_is_empty(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -805,7 +805,7 @@ enum proc_return fql_distinct(process* proc)
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
 		// hmmm... this may be impossible...
-		if (proc->wait_for_in0 && !in->is_open) {
+		if (proc->wait_for_in0 && !in->is_open && fifo_is_empty(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -893,7 +893,7 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (fifo_is_empty(in)) {
-		if (proc->wait_for_in0 && in->is_open) {
+		if (proc->wait_for_in0 && (in->is_open || !fifo_is_empty(in))) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -956,7 +956,7 @@ enum proc_return fql_delete(process* proc)
 	fifo* in = proc->fifo_in[0];
 
 	if (proc->wait_for_in0 && fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (in->is_open || !fifo_is_empty(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1072,7 +1072,8 @@ enum proc_return fql_delete_filter(process* proc)
 	fifo* in_true = proc->fifo_in[1];
 
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
+		if (in_true->is_open || in_false->is_open
+		    || !fifo_is_empty(in_false) || !fifo_is_empty(in_true)) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
@@ -1115,7 +1116,8 @@ enum proc_return fql_update(process* proc)
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
+		if (in_true->is_open || in_false->is_open
+		    || !fifo_is_empty(in_false) || !fifo_is_empty(in_true)) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
@@ -1174,7 +1176,8 @@ enum proc_return fql_update_filter(process* proc)
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
+		if (in_true->is_open || in_false->is_open
+		    || !fifo_is_empty(in_false) || !fifo_is_empty(in_true)) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
-- 
2.43.0


From c4bfd60b2c2e00dbd8b9933c713eaf5cfc6d74fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 075/126] fix: DISTINCT, ORDER BY and SELECT evaluated the same
 expressions at the same time with threads

---
 lib/fqlprocesses.c | 25 ++++++++++++++++++++++---
 lib/fqlselect.c    |  2 ++
 lib/fqlselect.h    |  3 +++
 lib/group.h        |  2 ++
 lib/operation.c    |  1 +
 lib/subquery.c     | 15 ++++++++++++++-
 6 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index fc7c48d..1b5e7fb 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -795,6 +795,18 @@ enum proc_return fql_groupby(process* proc)
 	return ret;
 }
 
+/* These expressions also belong to the SELECT */
+int _distinct_record(group* group, node* rg)
+{
+	if (group->select == NULL) {
+		return group_record(group, rg);
+	}
+	pthread_mutex_lock(&group->select->expr_mutex);
+	int ret = group_record(group, rg);
+	pthread_mutex_unlock(&group->select->expr_mutex);
+	return ret;
+}
+
 enum proc_return fql_distinct(process* proc)
 {
 	fifo* out = proc->fifo_out[0];
@@ -823,7 +835,7 @@ enum proc_return fql_distinct(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		switch (group_record(group, *rg_iter)) {
+		switch (_distinct_record(group, *rg_iter)) {
 		case FQL_FAIL:
 			return PROC_RETURN_FAIL;
 		case 1:
@@ -916,7 +928,10 @@ enum proc_return fql_select(process* proc)
 			break;
 		}
 
-		try_(select->select__(select, *rg_iter));
+		pthread_mutex_lock(&current_select->expr_mutex);
+		int select_ret = select->select__(select, *rg_iter);
+		pthread_mutex_unlock(&current_select->expr_mutex);
+		try_(select_ret);
 		_fqlprocess_print_iter_states(proc,
 		                              ((record*)(*rg_iter)->data)->node_idx);
 
@@ -1239,7 +1254,11 @@ enum proc_return fql_orderby(process* proc)
 	node** rg_iter = fifo_begin(in);
 	for (; iters++ < proc->max_recs_iter && rg_iter != fifo_end(in);
 	     rg_iter = fifo_iter(in)) {
-		try_(order_add_record(order, *rg_iter));
+		fqlselect* select = order->select->current_select;
+		pthread_mutex_lock(&select->expr_mutex);
+		int add_ret = order_add_record(order, *rg_iter);
+		pthread_mutex_unlock(&select->expr_mutex);
+		try_(add_ret);
 		_fqlprocess_print_iter_states(proc, -1);
 		fqlprocess_recycle(proc, rg_iter);
 	}
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 906f2a5..353f183 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -37,6 +37,7 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	};
 
 	self->current_select = self;
+	pthread_mutex_init(&self->expr_mutex, NULL);
 
 	return self;
 }
@@ -47,6 +48,7 @@ void fqlselect_destroy(fqlselect* self)
 		return;
 	}
 
+	pthread_mutex_destroy(&self->expr_mutex);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
 	node_free(&self->union_selects);
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index f238924..331a6e3 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -1,6 +1,7 @@
 #ifndef SELECT_H
 #define SELECT_H
 
+#include <pthread.h>
 #include "query.h"
 #include "writer.h"
 #include "schema.h"
@@ -27,6 +28,8 @@ struct fqlselect {
 	//struct vec* _selection_exprs;
 	struct vec* header_as_exprs;
 	select_fn select__;
+	/* DISTINCT and ORDER BY evaluate our expressions as well */
+	pthread_mutex_t expr_mutex;
 	size_t offset;
 	size_t rows_affected;
 	size_t top_count;
diff --git a/lib/group.h b/lib/group.h
index 11ae6e3..3e950b4 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -9,6 +9,7 @@
 #include "util/hashmap.h"
 
 struct record;
+struct fqlselect;
 
 struct group {
 	compositemap* expr_map;
@@ -18,6 +19,7 @@ struct group {
 	struct flex group_data;
 	struct vec _composite; /* temporary */
 	//struct vec _roots;
+	struct fqlselect* select; /* DISTINCT only, owner of expressions */
 	size_t _dump_idx;
 };
 typedef struct group group;
diff --git a/lib/operation.c b/lib/operation.c
index dc7f552..8312b25 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -419,6 +419,7 @@ int op_writer_init(struct query* query)
 	if (*self == FQL_SELECT) {
 		op_expand_asterisks(query, (!query->groupby || !query->distinct));
 		if (query->distinct != NULL) {
+			query->distinct->select = (fqlselect*)self;
 			expression** it = vec_begin(op_schema->expressions);
 			for (; it != vec_end(op_schema->expressions); ++it) {
 				group_add_expression(query->distinct, *it);
diff --git a/lib/subquery.c b/lib/subquery.c
index a013b0a..134cbe5 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -30,7 +30,7 @@ void subquery_free(void* generic)
  *       until we've copied all stringviews to copy_data.
  *       Then, move that shit into dest afterward.
  */
-int subquery_get_record(reader* reader, node* rg)
+int _get_record(reader* reader, node* rg)
 {
 	subquery* self = reader->reader_data;
 	vec* expressions = self->select->current_select->schema->expressions;
@@ -106,6 +106,19 @@ int subquery_get_record(reader* reader, node* rg)
 	return FQL_GOOD;
 }
 
+int subquery_get_record(reader* reader, node* rg)
+{
+	subquery* self = reader->reader_data;
+	fqlselect* select = self->select->current_select;
+
+	/* DISTINCT may be evaluating them for later records */
+	pthread_mutex_lock(&select->expr_mutex);
+	int ret = _get_record(reader, rg);
+	pthread_mutex_unlock(&select->expr_mutex);
+
+	return ret;
+}
+
 int subquery_get_record_at(reader* unused_self, node* unused_rg, size_t unused_offset)
 {
 	fputs("cannot seek through subquery\n", stderr);
-- 
2.43.0


From ddbb568b03b147493326deb94329d5d36c91aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 076/126] fix: a CAST in a DECLARE was taken for the type of
 the variable

---
 lib/antlr/listenerinterface.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 11eb132..f8ebef4 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -577,7 +577,8 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		free_(token);
 		break;
 	case TOK_DATA_TYPE:
-		if (_query->mode == MODE_DECLARE) {
+		/* within a function, it is the type of a CAST */
+		if (_query->mode == MODE_DECLARE && _query->function_stack == NULL) {
 			if (libfql_set_variable_type(_fql, _declare_idx, token)) {
 				_set_failure();
 			}
@@ -852,17 +853,15 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 		return;
 	}
 
-	switch (_query->mode) {
-	case MODE_DECLARE:
+	/* within a function, it is the limit of a CAST */
+	if (_query->mode == MODE_DECLARE && _query->function_stack == NULL) {
 		if (libfql_set_variable_limit(_fql, _declare_idx, numstr)) {
 			_set_failure();
 		}
-		break;
-	default:  /* TODO: actually be explicit here... */
+	} else {
 		if (query_add_constant(_query, numstr, num_iter - numstr)) {
 			_set_failure();
 		}
-		break;
 	}
 }
 void ListenerInterface::exitData_type(TSqlParser::Data_typeContext * ctx) { }
-- 
2.43.0


From a4a789ad65625b2ddbf9aa363c86fe3508b7676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 077/126] fix: operators in the condition of an IF or a WHILE
 were not implemented

---
 lib/operation.c | 11 +++++++++++
 lib/operation.h |  1 +
 lib/schema.c    |  7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index 8312b25..0a5aaec 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -73,6 +73,17 @@ vec* op_get_additional_exprs(enum fql_operation* self)
 	}
 }
 
+struct logicgroup* op_get_condition(enum fql_operation* self)
+{
+	switch (*self) {
+	case FQL_IF:
+	case FQL_WHILE:
+		return ((fqlbranch*)self)->condition;
+	default:
+		return NULL;
+	}
+}
+
 schema* op_get_schema(enum fql_operation* self)
 {
 	switch (*self) {
diff --git a/lib/operation.h b/lib/operation.h
index e743e77..a550a7c 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -19,6 +19,7 @@ enum fql_operation;
 int op_preop(struct query*);
 struct vec* op_get_expressions(enum fql_operation*);
 struct vec* op_get_additional_exprs(enum fql_operation*);
+struct logicgroup* op_get_condition(enum fql_operation*);
 struct schema* op_get_schema(enum fql_operation*);
 const char* op_get_table_name(enum fql_operation*);
 void op_match_table_alias(enum fql_operation*, struct table*);
diff --git a/lib/schema.c b/lib/schema.c
index a125204..495d4a0 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1222,6 +1222,13 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		                         fql->props.strictness));
 	}
 
+	/* Validate the condition of an IF or a WHILE */
+	if (op_get_condition(aquery->op) != NULL) {
+		try_(_assign_expressions(op_get_condition(aquery->op)->expressions,
+		                         aquery->sources,
+		                         fql->props.strictness));
+	}
+
 	/* Validate the expressions from the operation.
 	 * (e.g. expressions listed in SELECT).
 	 */
-- 
2.43.0


From 8af891fd8ea2f9e8d8bfdfefb7ffe444147d258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 078/126] fix: an INT variable in a CASE or UNION that became
 FLOAT was still printed as INT

---
 lib/expression.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/expression.c b/lib/expression.c
index f6ab060..67713c0 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -322,6 +322,9 @@ int expression_cast(expression* self, enum field_type new_type)
 			self->is_cast = true;
 			self->uncast_type = self->field_type;
 		}
+		if (self->expr == EXPR_VARIABLE) {
+			self->is_cast = true;
+		}
 		if (self->expr == EXPR_SWITCH_CASE) {
 			try_(switchcase_cast(self->field.sc, new_type));
 		}
@@ -371,6 +374,8 @@ int expression_set_variable(expression* self, variable* var)
 		return FQL_GOOD;
 	}
 
+	bool is_float = (self->is_cast && self->field_type == FIELD_FLOAT);
+
 	self->expr = EXPR_CONST;
 	switch (var->type) {
 	case SQL_INT:
@@ -393,6 +398,11 @@ int expression_set_variable(expression* self, variable* var)
 		return FQL_FAIL;
 	}
 
+	/* An INT that is returned beside a FLOAT, see expression_cast */
+	if (is_float && self->field_type == FIELD_INT) {
+		return expression_cast(self, FIELD_FLOAT);
+	}
+
 	return FQL_GOOD;
 }
 
-- 
2.43.0


From 9ba9dfc077e636e877c3ee3c473af7687c921c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 079/126] fix: a subquery in a SELECT without sources of a
 UNION was used after free, or never ended with threads

---
 lib/fqlplan.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index f437102..cf07c77 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -579,6 +579,11 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 
 	try_(op_apply_process(query, self, (is_union || entry != NULL)));
 
+	/* The expressions are evaluated by the first SELECT, see _union */
+	if (is_union) {
+		return FQL_GOOD;
+	}
+
 	_check_all_for_special_expression(self,
 	                                  self->op_true->data,
 	                                  op_get_expressions(query->op));
@@ -615,7 +620,8 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		                                  select_proc,
 		                                  op_get_expressions((*it)->op));
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
-		if (!union_plan->is_const) {
+		/* the SELECT is the end node if there is nothing before it */
+		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From 0037b6b2e200c0d0a905fb93d400f1e393ebd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 080/126] fix: an INT variable in a FLOAT CASE was printed as
 INT after the first time

---
 lib/expression.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 67713c0..ee80471 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -323,7 +323,7 @@ int expression_cast(expression* self, enum field_type new_type)
 			self->uncast_type = self->field_type;
 		}
 		if (self->expr == EXPR_VARIABLE) {
-			self->is_cast = true;
+			self->is_cast = (new_type == FIELD_FLOAT);
 		}
 		if (self->expr == EXPR_SWITCH_CASE) {
 			try_(switchcase_cast(self->field.sc, new_type));
@@ -374,8 +374,6 @@ int expression_set_variable(expression* self, variable* var)
 		return FQL_GOOD;
 	}
 
-	bool is_float = (self->is_cast && self->field_type == FIELD_FLOAT);
-
 	self->expr = EXPR_CONST;
 	switch (var->type) {
 	case SQL_INT:
@@ -399,7 +397,7 @@ int expression_set_variable(expression* self, variable* var)
 	}
 
 	/* An INT that is returned beside a FLOAT, see expression_cast */
-	if (is_float && self->field_type == FIELD_INT) {
+	if (self->is_cast && self->field_type == FIELD_INT) {
 		return expression_cast(self, FIELD_FLOAT);
 	}
 
-- 
2.43.0


From 8166c47d66e5ddac7e816a7e311d52c9fb37528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 081/126] fix: a comparison that cannot be made within a CASE
 was called all the same, and crashed

---
 lib/fqlplan.c | 74 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index cf07c77..e2af08c 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -91,7 +91,7 @@ void plan_destroy(void* generic_plan)
 	delete_(vec, self->_root_data);
 }
 
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
 int _build(query*, fqlhandle*, dnode* entry, bool is_union);
 void _print_plan(plan*);
 void _activate_procs(plan*, fqlhandle*);
@@ -138,10 +138,10 @@ void plan_pipeline_root_preempt(plan* self)
 	}
 }
 
-void _check_for_special_expression(plan* self, process* proc, expression* expr)
+int _check_for_special_expression(plan* self, process* proc, expression* expr)
 {
 	if (expr == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 
 	switch (expr->expr) {
@@ -151,30 +151,34 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 	case EXPR_SWITCH_CASE: {
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
-			plan_logic_to_process(self, proc, *it);
+			try_(plan_logic_to_process(self, proc, *it));
 		}
-		_check_all_for_special_expression(self, proc, &expr->field.sc->values);
+		try_(_check_all_for_special_expression(self,
+		                                       proc,
+		                                       &expr->field.sc->values));
 
 		break;
 	}
 	case EXPR_AGGREGATE:
-		_check_all_for_special_expression(self, proc, expr->field.agg->args);
+		try_(_check_all_for_special_expression(self, proc, expr->field.agg->args));
 		break;
 	case EXPR_FUNCTION:
-		_check_all_for_special_expression(self, proc, expr->field.fn->args);
+		try_(_check_all_for_special_expression(self, proc, expr->field.fn->args));
 		break;
 	default:;
 	}
+	return FQL_GOOD;
 }
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
 {
 	if (expressions == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
-		_check_for_special_expression(self, proc, *it);
+		try_(_check_for_special_expression(self, proc, *it));
 	}
+	return FQL_GOOD;
 }
 
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
@@ -234,12 +238,12 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 			if (lg->condition->in_data && lg->condition->in_data->subquery) {
 				try_(_subquery_inlist(self, logic_proc, lg));
 			}
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[0]);
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[1]);
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[0]));
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[1]));
 			try_(logic_assign_process(lg->condition, logic_proc));
 		}
 		break;
@@ -480,7 +484,7 @@ int _where(plan* self, query* query)
 /* NOTE: If there is a grouping, the grouping becomes the
  *       one and only source. hence source_count = 1...
  */
-void _group(plan* self, query* query)
+int _group(plan* self, query* query)
 {
 	if (query->groupby != NULL && self->loose_groups) {
 		delete_if_exists_(distinct, query->distinct);
@@ -489,9 +493,9 @@ void _group(plan* self, query* query)
 	}
 	if (query->groupby != NULL) {
 		process* group_proc = new_(process, "GROUP BY ", self);
-		_check_all_for_special_expression(self,
-		                                  group_proc,
-		                                  &query->groupby->expressions);
+		try_(_check_all_for_special_expression(self,
+		                                       group_proc,
+		                                       &query->groupby->expressions));
 		self->source_count = 1;
 		group_proc->out_src_count = 1;
 		process* true_proc = self->op_true->data;
@@ -518,6 +522,7 @@ void _group(plan* self, query* query)
 		self->current->out[0] = group_node;
 		self->current = group_node;
 	}
+	return FQL_GOOD;
 }
 
 int _having(plan* self, query* query)
@@ -584,15 +589,15 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 		return FQL_GOOD;
 	}
 
-	_check_all_for_special_expression(self,
-	                                  self->op_true->data,
-	                                  op_get_expressions(query->op));
+	try_(_check_all_for_special_expression(self,
+	                                       self->op_true->data,
+	                                       op_get_expressions(query->op)));
 
 	vec* op_add_exprs = op_get_additional_exprs(query->op);
 	if (op_add_exprs != NULL) {
-		_check_all_for_special_expression(self,
-		                                  self->op_true->data,
-		                                  op_add_exprs);
+		try_(_check_all_for_special_expression(self,
+		                                       self->op_true->data,
+		                                       op_add_exprs));
 	}
 
 	if (entry == NULL) {
@@ -616,9 +621,9 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	for (; it != vec_end(aquery->unions); ++it) {
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
-		_check_all_for_special_expression(self,
-		                                  select_proc,
-		                                  op_get_expressions((*it)->op));
+		try_(_check_all_for_special_expression(self,
+		                                       select_proc,
+		                                       op_get_expressions((*it)->op)));
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
 		/* the SELECT is the end node if there is nothing before it */
 		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
@@ -631,13 +636,13 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	return FQL_GOOD;
 }
 
-void _order(plan* self, query* query)
+int _order(plan* self, query* query)
 {
 	if (query->orderby == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	process* order_proc = new_(process, "ORDER BY ", self);
-	_check_all_for_special_expression(self, order_proc, &query->orderby->expressions);
+	try_(_check_all_for_special_expression(self, order_proc, &query->orderby->expressions));
 	order_proc->action__ = &fql_orderby;
 	order_proc->proc_data = query->orderby;
 	order_cat_description(query->orderby, order_proc);
@@ -645,6 +650,7 @@ void _order(plan* self, query* query)
 	self->current->out[0] = order_node;
 	self->current = order_node;
 	self->op_true = order_node;
+	return FQL_GOOD;
 }
 
 /* In an effort to make building of the process graph easier
@@ -852,7 +858,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	/* aquery */
 	try_(_from(self, aquery, fql));
 	try_(_where(self, aquery));
-	_group(self, aquery);
+	try_(_group(self, aquery));
 	try_(_having(self, aquery));
 	try_(_operation(self, aquery, fql, entry, is_union));
 
@@ -862,7 +868,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
 	try_(_union(self, aquery, fql));
-	_order(self, aquery);
+	try_(_order(self, aquery));
 
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
-- 
2.43.0


From 4265ddd3b9b367fb40bd2ea66cb1c51cb68b2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 082/126] fix: a subquery within DISTINCT or an aggregate was
 used before it ended, or waited for forever with threads

---
 lib/fqlplan.c   |  3 +++
 lib/fqlselect.c |  1 +
 lib/logic.c     |  2 +-
 lib/process.c   | 25 ++++++++++++++++---------
 lib/process.h   |  2 +-
 5 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index e2af08c..f2b0164 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -515,6 +515,9 @@ int _group(plan* self, query* query)
 
 	if (query->distinct) {
 		process* group_proc = new_(process, "DISTINCT ", self);
+		try_(_check_all_for_special_expression(self,
+		                                       group_proc,
+		                                       &query->distinct->expressions));
 		group_proc->action__ = &fql_distinct;
 		group_proc->proc_data = query->distinct;
 		group_cat_description(query->distinct, group_proc);
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 353f183..0d0dd59 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -266,6 +266,7 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist, expression* left_si
 	 * without regard to case and trailing space.
 	 */
 	self->list_type = inlist_determine_type(inlist, left_side);
+	delete_if_exists_(set, inlist->list_data);
 	inlist->list_data = new_(set,
 	                         16,
 	                         (self->list_type == FIELD_STRING)
diff --git a/lib/logic.c b/lib/logic.c
index 8685292..fe90643 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -59,7 +59,7 @@ int _precompile_like(logic* self)
 	if (self->like_data == NULL) {
 		self->like_data = new_(like);
 	}
-	if (self->expr[1]->expr != EXPR_CONST) {
+	if (self->like_data->is_const || self->expr[1]->expr != EXPR_CONST) {
 		return FQL_GOOD;
 	}
 	stringview sv = {0};
diff --git a/lib/process.c b/lib/process.c
index 491bab9..bfddd50 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -60,6 +60,7 @@ void process_destroy(process* self, bool is_root)
 		delete_(fifo, self->fifo_in[1]);
 	}
 	delete_if_exists_(vec, self->wait_list);
+	delete_if_exists_(vec, self->waitees);
 	delete_if_exists_(vec, self->inbuf);
 	delete_if_exists_(vec, self->rebuf);
 	delete_(vec, self->union_end_nodes);
@@ -157,10 +158,13 @@ void process_add_to_wait_list(process* self, process* wait_proc)
 {
 	if (self->wait_list == NULL) {
 		self->wait_list = new_t_(vec, process*);
+		pthread_mutex_init(&self->wait_mutex, NULL);
+		pthread_cond_init(&self->wait_cond, NULL);
 	}
-	pthread_mutex_init(&self->wait_mutex, NULL);
-	pthread_cond_init(&self->wait_cond, NULL);
-	wait_proc->waitee_proc = self;
+	if (wait_proc->waitees == NULL) {
+		wait_proc->waitees = new_t_(vec, process*);
+	}
+	vec_push_back(wait_proc->waitees, &self);
 	vec_push_back(self->wait_list, &wait_proc);
 }
 
@@ -245,13 +249,16 @@ void process_disable(process* self)
 		fifo_update(in);
 	}
 
-	/* This process must terminate before waitee_proc can
-	 * Begin. Time to let it know we have finished.
+	/* This process must terminate before those that wait for it
+	 * can begin. Time to let them know we have finished.
 	 */
-	if (self->waitee_proc != NULL) {
-		pthread_mutex_lock(&self->waitee_proc->wait_mutex);
-		pthread_cond_signal(&self->waitee_proc->wait_cond);
-		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);
+	if (self->waitees != NULL) {
+		process** it = vec_begin(self->waitees);
+		for (; it != vec_end(self->waitees); ++it) {
+			pthread_mutex_lock(&(*it)->wait_mutex);
+			pthread_cond_signal(&(*it)->wait_cond);
+			pthread_mutex_unlock(&(*it)->wait_mutex);
+		}
 	}
 
 	if (self->fql_ref->props.verbosity == FQL_DEBUG) {
diff --git a/lib/process.h b/lib/process.h
index 52cca8e..aeabdae 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -30,7 +30,7 @@ struct process {
 	struct vec* union_end_nodes;  /* nodes that will re-link for union */
 	struct node* queued_results;  /* list of additional input fifos */
 	struct vec* wait_list;        /* list of fifos that we wait for */
-	struct process* waitee_proc;  /* pointer to a waiting process */
+	struct vec* waitees;          /* list of waiting processes */
 	struct vec* rootvec_ref;      /* reference to plan->root_fifo_vec */
 	pthread_mutex_t wait_mutex;   /* mutex used be woken up */
 	pthread_cond_t wait_cond;     /* condition for wait list */
-- 
2.43.0


From 5bad8b93353255482b1308b14f571bcae8a7e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 083/126] fix: an imported variable that is declared as BIT or
 VARCHAR(n) kept its value as it was

---
 lib/variable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/variable.c b/lib/variable.c
index 9f878e3..725d7ac 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -60,8 +60,7 @@ void variable_reset(variable* self)
 		return;
 	}
 
-	string_copy(self->_data, self->_import_value);
-	self->value.s = self->_data;
+	variable_set_string(self, self->_import_value);
 
 	enum sql_type correct_type = self->type;
 	self->type = SQL_VARCHAR;
@@ -125,6 +124,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 	case SQL_BIT: {
 		long n = 0;
 		try_(field_to_int(&n, &self->value, &fieldtype));
+		self->value.i = (n != 0);
 		break;
 	}
 	case SQL_INT: {
-- 
2.43.0


From c943de058e3aa5aef28180b947861cbc43dfa80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 084/126] fix: a subquery beside other items of an IN list was
 not waited for

---
 lib/fqlplan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index f2b0164..238fe46 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -237,6 +237,11 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 		if (lg->condition != NULL) {
 			if (lg->condition->in_data && lg->condition->in_data->subquery) {
 				try_(_subquery_inlist(self, logic_proc, lg));
+			} else if (lg->condition->in_data) {
+				try_(_check_all_for_special_expression(
+				        self,
+				        logic_proc,
+				        lg->condition->in_data->expressions));
 			}
 			try_(_check_for_special_expression(self,
 			                                   logic_proc,
-- 
2.43.0


From 998cd5d5d4f59f67790866d5a188e1fe0a7122a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 085/126] fix: an INT subquery in a CASE or UNION that became
 FLOAT was still printed as INT

---
 lib/expression.c | 2 +-
 lib/fqlselect.c  | 6 +++++-
 lib/order.c      | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index ee80471..38020d3 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -322,7 +322,7 @@ int expression_cast(expression* self, enum field_type new_type)
 			self->is_cast = true;
 			self->uncast_type = self->field_type;
 		}
-		if (self->expr == EXPR_VARIABLE) {
+		if (self->expr == EXPR_VARIABLE || self->expr == EXPR_SUBQUERY) {
 			self->is_cast = (new_type == FIELD_FLOAT);
 		}
 		if (self->expr == EXPR_SWITCH_CASE) {
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 0d0dd59..e1e0358 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -180,7 +180,7 @@ int fqlselect_connect_api(query* query, vec* api)
 	expression** it = vec_begin(exprs);
 	unsigned i = 0;
 	for (; i < exprs->size; ++i) {
-		if ((*it)->subquery != NULL) {
+		if ((*it)->subquery != NULL && !(*it)->is_cast) {
 			try_(fqlselect_resolve_type_from_subquery(*it));
 		}
 		struct fql_field* field = vec_at(api, i);
@@ -610,6 +610,10 @@ int _select_record_to_const(fqlselect* self, node* rg)
 			self->const_dest->expr = EXPR_NULL;
 		}
 		self->const_dest->field.i = num;
+		/* see expression_cast */
+		if (self->const_dest->is_cast) {
+			try_(expression_cast(self->const_dest, FIELD_FLOAT));
+		}
 		return 1;
 	}
 	case FIELD_FLOAT: {
diff --git a/lib/order.c b/lib/order.c
index 38ff0c9..09bd00a 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -381,6 +381,10 @@ int _order_select_to_const(order* self, process* proc)
 	switch (first_expr->field_type) {
 	case FIELD_INT:
 		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
+		/* see expression_cast */
+		if (self->const_dest->is_cast) {
+			try_(expression_cast(self->const_dest, FIELD_FLOAT));
+		}
 		break;
 	case FIELD_FLOAT:
 		self->const_dest->field.f = *(double*)(&self->mmap[offset]);
-- 
2.43.0


From 62fda643f87405638283cd614b2d8d89463431cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 086/126] fix: an aggregate within an aggregate crashed or was
 taken for 0

---
 lib/query.c | 7 +++++++
 lib/query.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index aba4eae..cf96a22 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -623,6 +623,12 @@ void query_init_groupby(query* self)
 
 int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 {
+	if (self->in_aggregate) {
+		fputs("Cannot have an aggregate within an aggregate\n", stderr);
+		return FQL_FAIL;
+	}
+	self->in_aggregate = true;
+
 	if (self->groupby == NULL) {
 		self->groupby = new_(group);
 	}
@@ -651,6 +657,7 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 
 int query_exit_aggregate(query* self)
 {
+	self->in_aggregate = false;
 	aggregate** agg = vec_back(&self->groupby->aggregates);
 	self->mode = (*agg)->return_mode;
 	self->function_stack = (*agg)->return_function_stack;
diff --git a/lib/query.h b/lib/query.h
index acdf11b..032e2df 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -178,6 +178,7 @@ struct query {
 	enum logic_mode logic_mode;
 	enum join_type join;
 	bool in_assignment_function;
+	bool in_aggregate;
 	bool in_bracket_expression; /* boolean for whether we are in a
 	                             * bracket expression or not
 	                             */
-- 
2.43.0


From a5c0611c98c5d38725d66ce011e23a1e173266d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 087/126] fix: a fixed-width file that became empty was read
 from its old mapping

---
 lib/fixedread.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index 49a2db0..9e8a016 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -18,8 +18,10 @@ fixedread* fixedread_construct(fixedread* self, vec* expressions)
 void fixedread_free(void* generic_data)
 {
 	fixedread* self = generic_data;
-	if (self->fd != -1) {
+	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
+	}
+	if (self->fd != -1) {
 		close(self->fd);
 	}
 	free_(self);
@@ -40,20 +42,23 @@ int fixedread_open(reader* reader, const char* file_name)
 		return FQL_FAIL;
 	}
 
-	/* TODO test this */
+	self->mmap = NULL;
+	self->file_size = sb.st_size;
+	self->offset = 0;
+
 	if (sb.st_size == 0) {
 		return FQL_GOOD;
 	}
 
-	self->file_size = sb.st_size;
 	self->mmap = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
 
 	if (self->mmap == MAP_FAILED) {
 		perror(file_name);
+		self->mmap = NULL;
+		self->file_size = 0;
 		return FQL_FAIL;
 	}
 	madvise(self->mmap, sb.st_size, MADV_SEQUENTIAL);
-	self->offset = 0;
 	return FQL_GOOD;
 }
 
@@ -62,7 +67,11 @@ int fixedread_reopen(reader* reader)
 	fixedread* self = reader->reader_data;
 	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
+		self->mmap = NULL;
+	}
+	if (self->fd != -1) {
 		close(self->fd);
+		self->fd = -1;
 	}
 	return fixedread_open(reader, string_c_str(&reader->file_name));
 }
-- 
2.43.0


From e4644ff9cdd994873370c07d36efac56f739ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 088/126] fix: a fixed-width file that could not be written was
 reported as written

---
 lib/fixedwrite.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..430e87c 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -80,8 +80,13 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	int failed = ferror(self->file);
+	failed |= fclose(self->file);
 	self->file = NULL;
+	if (failed) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 
 	if (self->is_detached) {
 		self->is_detached = false;
-- 
2.43.0


From d08cd4b9fe939755e147a585b16de89fe60ca34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 089/126] fix: ORDER BY of a fixed-width result freed its file
 name twice

---
 lib/fixedwrite.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 430e87c..c820af5 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -127,12 +127,16 @@ char* fixedwriter_take_filename(fixedwriter* self)
 	return string_export(&self->filename);
 }
 
-const char* _get_filename(fixedwriter* self)
+char* _get_filename(fixedwriter* self)
 {
 	string* filename = NULL;
 	if (self->is_detached) {
 		filename = &self->tempname;
-		self->tempnode = NULL;
+		/* the caller will clean up the temp file */
+		if (self->tempnode != NULL) {
+			fqlsig_tmp_remove_node(self->tempnode);
+			self->tempnode = NULL;
+		}
 	} else {
 		filename = &self->filename;
 	}
@@ -140,7 +144,7 @@ const char* _get_filename(fixedwriter* self)
 	if (string_empty(filename)) {
 		return NULL;
 	}
-	return string_c_str(filename);
+	return strdup(string_c_str(filename));
 }
 
 const char* fixedwriter_export_temp(fixedwriter* self)
-- 
2.43.0


From e55465c5277c21cd7c55fb7cb7e1a9f2ce96b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 090/126] fix: reading back a SELECT INTO table without header
 lost its first record; a fixed-width one was read at the offsets of its
 source

---
 lib/schema.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 495d4a0..4e471fe 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -263,25 +263,51 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 		return FQL_GOOD;
 	}
 
+	table->must_reopen = true;
+
+	/* a schema that was asked for by name is what counts */
+	if (!vec_empty(table->schema->expressions)) {
+		return FQL_GOOD;
+	}
+
 	vec* src_vec = (*match)->expressions;
+	size_t running_offset = 0;
 
 	expression** it = vec_begin(src_vec);
 	for (; it != vec_end(src_vec); ++it) {
 		expression* new_expr =
 		        new_(expression, EXPR_COLUMN_NAME, (*it)->alias.data, "");
 		new_expr->field_type = (*it)->field_type;
-		new_expr->location = (*it)->location;
+		new_expr->location = running_offset;
 		new_expr->width = (*it)->width;
 		schema_add_expression(table->schema, new_expr, table->idx);
+
+		running_offset += new_expr->width;
+		if ((*match)->write_io_type == IO_FIXED && new_expr->width == 0) {
+			fprintf(stderr,
+			        "width of `%s' in `%s' is not known\n",
+			        (char*)new_expr->name.data,
+			        string_c_str(&table->name));
+			return FQL_FAIL;
+		}
 	}
+	table->reader->reclen = running_offset;
 
-	table->must_reopen = true;
 	table->schema->is_preresolved = true;
 	//table->reader->type = (*match)->write_io_type;
 	//table->schema->is_default = (*match)->is_default;
 
 	schema_copy(table->schema, *match);
 	table->reader->type = (*match)->write_io_type;
+
+	/* Only skip the header if there will be one (see fqlselect_preop) */
+	bool has_header = (*match)->is_default ? fql->props.print_header
+	                                       : fql->props.add_header;
+	table->schema->is_default = has_header
+	                            && (*match)->write_io_type == IO_LIBCSV;
+	if (!table->schema->is_default) {
+		table->reader->skip_rows = 0;
+	}
 	return FQL_GOOD;
 }
 
@@ -574,7 +600,7 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 		if (!self->is_preresolved) {
 			schema_assign_header(table, rec, src_idx);
 		}
-	} else {
+	} else if (!table->must_reopen) {
 		unsigned newsize = (rec->fields.size) ? rec->fields.size : 1;
 		if (newsize < self->expressions->size) {
 			expression** it = vec_at(self->expressions, newsize);
-- 
2.43.0


From 8383e4bd0bd85d04e42373614c9627f9ae2ce7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 091/126] fix: an unsupported table source crashed, and a
 qualified INTO table leaked

---
 lib/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index cf96a22..b982880 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -523,6 +523,11 @@ int query_add_source(query* self,
                      const char* alias,
                      bool is_variable)
 {
+	if (*source_stack == NULL) {
+		fputs("Unsupported table source\n", stderr);
+		return FQL_FAIL;
+	}
+
 	string table_name;
 	string_construct_take(&table_name, node_pop(source_stack));
 	char* schema_name = node_pop(source_stack);
@@ -531,7 +536,6 @@ int query_add_source(query* self,
 		try_(_query_resolve_table_variable(self, &table_name));
 	}
 
-	node_free_data(source_stack);
 	table* new_table = vec_add_one(self->sources);
 	table_construct(new_table,
 	                string_export(&table_name),
@@ -768,6 +772,7 @@ int query_set_into_table_var(query* self, const char* table_name)
 
 int query_set_into_table(query* self, const char* table_name)
 {
+	free_if_exists_(self->into_table_name);
 	self->into_table_name = table_name;
 	return FQL_GOOD;
 }
-- 
2.43.0


From 72823e2f85a5dab112dcd3a4efa8f82771f7aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 092/126] fix: DELETE and UPDATE ignored the schema in front of
 the table name

---
 lib/query.c | 11 +++++++++++
 lib/query.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index b982880..bab5132 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -93,6 +93,7 @@ void query_destroy(query* self)
 	}
 	delete_(vec, self->unions);
 	delete_(vec, self->subquery_const_vec);
+	free_if_exists_(self->op_schema_name);
 
 	if (self->into_table_var_idx == -1) {
 		free_if_exists_(self->into_table_name);
@@ -780,6 +781,12 @@ int query_set_into_table(query* self, const char* table_name)
 int query_set_op_table(query* self, const char* op_table_name)
 {
 	if (*op_table_name != '@') {
+		/* What came before, if anything, was its schema */
+		const char* schema_name = op_get_table_name(self->op);
+		if (*schema_name) {
+			free_if_exists_(self->op_schema_name);
+			self->op_schema_name = strdup(schema_name);
+		}
 		op_set_table_name(self->op, op_table_name);
 		return FQL_GOOD;
 	}
@@ -809,6 +816,10 @@ int query_exit_non_select_op(query* self)
 		char* table_name_dup = strdup(op_table_name);
 
 		node* fake_source_stack = NULL;
+		if (self->op_schema_name != NULL) {
+			node_push(&fake_source_stack, self->op_schema_name);
+			self->op_schema_name = NULL;
+		}
 		node_push(&fake_source_stack, table_name_dup);
 
 		/* query_add_source will free the stack and its data */
diff --git a/lib/query.h b/lib/query.h
index 032e2df..54788f7 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -154,6 +154,7 @@ struct query {
 	struct expression* top_expr;
 	struct vec* unions;
 	const char* into_table_name;
+	char* op_schema_name;
 	struct vec* text; /* string */
 	size_t top_count;
 	int* next_idx_ref;
-- 
2.43.0


From 5442f6ee7d3998baaf0da60a776ee6e0d8e121da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 093/126] fix: --crlf and --out-delim crashed on SET, IF and
 WHILE; --out-delim changed the delimiter of some records of an UPDATEd file

---
 lib/operation.c | 5 ++++-
 lib/schema.c    | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/operation.c b/lib/operation.c
index 0a5aaec..87b52ba 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -285,7 +285,10 @@ writer* op_get_writer(enum fql_operation* self)
 
 void op_set_rec_terminator(enum fql_operation* self, const char* term)
 {
-	strncpy_(op_get_schema(self)->rec_terminator, term, DELIM_LEN_MAX);
+	schema* op_schema = op_get_schema(self);
+	if (op_schema != NULL) {
+		strncpy_(op_schema->rec_terminator, term, DELIM_LEN_MAX);
+	}
 }
 
 void op_set_delim(enum fql_operation* self, const char* delim)
diff --git a/lib/schema.c b/lib/schema.c
index 4e471fe..4d7dcbe 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1481,7 +1481,8 @@ int schema_resolve(struct fqlhandle* fql)
 			(*it)->next_idx_ref = NULL;
 		}
 
-		if (fql->_out_delim_set) {
+		/* A changed file has to stay as it is delimited */
+		if (fql->_out_delim_set && *(enum fql_operation*)(*it)->op == FQL_SELECT) {
 			op_set_delim((*it)->op, fql->props.out_delim);
 		}
 
-- 
2.43.0


From 2c77088521a1f69b9ded08a94fd516c5edb52376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 094/126] fix: the documented option -R, --rec-term was not
 there; an unknown option aborted

---
 src/fql.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fql.c b/src/fql.c
index dfeec78..f6fa1ba 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -114,6 +114,7 @@ int main(int argc, char** argv)
 	        {"print", no_argument, 0, 'p'},
 	        {"pipe-factor", required_argument, 0, 'P'},
 	        {"quiet", no_argument, 0, 'q'},
+	        {"rec-term", required_argument, 0, 'R'},
 	        {"in-delim", required_argument, 0, 's'},
 	        {"out-delim", required_argument, 0, 'S'},
 	        {"thread", no_argument, 0, 't'},
@@ -133,7 +134,7 @@ int main(int argc, char** argv)
 	/* getopt_long stores the option index here. */
 	int option_index = 0;
 
-	char opt_string[64] = "Abc:CdD:hHLoOpP:qs:S:tvW";
+	char opt_string[64] = "Abc:CdD:hHLoOpP:qR:s:S:tvW";
 	char* opt_iter = opt_string + strlen(opt_string) - 1;
 	*++opt_iter = HELP_ARG;
 	*++opt_iter = DEBUG_ARG;
@@ -305,6 +306,9 @@ void _parse_args(struct fqlhandle* handle, int c)
 	case 'P':
 		fql_set_pipe_factor(handle, atoi(optarg));
 		break;
+	case 'R':
+		fql_set_record_terminator(handle, optarg);
+		break;
 	case 's':
 		fql_set_in_delim(handle, optarg);
 		break;
@@ -355,7 +359,7 @@ void _parse_args(struct fqlhandle* handle, int c)
 		fql_set_strict_mode(handle, 1);
 		break;
 	default:
-		abort();
+		exit(EXIT_FAILURE);
 	}
 }
 
-- 
2.43.0


From 227e2231bc72375d6f1365c50c3a53b9a2768eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 095/126] fix: a signal crashed fql if SIGINT was ignored when
 it started

---
 lib/fqlsig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..a5bccca 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -47,7 +47,7 @@ void fqlsig_cleanexit()
 	/* The -1 here tells the libcsv sig handler not
 	 * to call exit(), so we can clean up here too.
 	 */
-	if (libcsv_action__ != NULL) {
+	if (libcsv_action__ != SIG_DFL && libcsv_action__ != SIG_IGN) {
 		libcsv_action__(-1);
 	}
 	fqlsig_tmp_removeall();
-- 
2.43.0


From bacbaf03e8c0707dacde0c0796accef32e1bbfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 096/126] fix: the first record of __stdin with a schema could
 end up in another pipe and hang the query

---
 lib/libcsvread.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 7c0ab5b..5a497ec 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -29,6 +29,9 @@ int libcsv_get_record(reader* self, node* rg)
 	int ret = 0;
 	/* This comes from delimiter discovery in schema.c:_resolve_source */
 	if (self->first_rec != NULL) {
+		/* it takes the place of the other in the pipeline */
+		self->first_rec->node_idx = rec->node_idx;
+		self->first_rec->root_fifo_idx = rec->root_fifo_idx;
 		delete_(record, rec);
 		rec = self->first_rec;
 		self->first_rec = NULL;
-- 
2.43.0


From 296fc30de80880d1aa8058f921177278db600f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 097/126] fix: reading __stdin again in a loop crashed

---
 lib/fqlplan.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 238fe46..8ebb157 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -341,6 +341,19 @@ process* _new_join_proc(enum join_type type, const char* algorithm, plan* self)
 	return new_(process, buffer, self);
 }
 
+/* stdin cannot be read twice. If there are loops, we keep a copy. */
+bool _has_loops(fqlhandle* fql)
+{
+	query** it = vec_begin(fql->query_vec);
+	for (; it != vec_end(fql->query_vec); ++it) {
+		enum fql_operation* op = (*it)->op;
+		if (op != NULL && *op == FQL_WHILE) {
+			return true;
+		}
+	}
+	return false;
+}
+
 int _from(plan* self, query* query, fqlhandle* fql)
 {
 	if (query->sources->size == 0) {
@@ -364,6 +377,10 @@ int _from(plan* self, query* query, fqlhandle* fql)
 		from_proc->root_fifo = 0;
 		from_node = dgraph_add_data(self->processes, from_proc);
 		from_node->is_root = true;
+
+		if (table_iter->is_stdin && _has_loops(fql)) {
+			reader_start_file_backed_input(table_iter->reader);
+		}
 	} else {
 		from_proc = new_(process, "subquery stream select", self);
 		from_node = dgraph_add_data(self->processes, from_proc);
-- 
2.43.0


From 61f608ca810becb9d9b563ecdd2548044bd759bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 098/126] fix: a SELECT INTO that is not executed or fails left
 an empty file

---
 lib/libfql.c | 2 ++
 lib/query.c  | 6 ++++++
 lib/query.h  | 1 +
 lib/schema.c | 1 +
 4 files changed, 10 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index 1fe5185..22c22a2 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -611,6 +611,8 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 			break;
 		}
 
+		free_if_exists_((*query)->place_holder);
+
 		enum fql_operation* op = (*query)->op;
 		if (*op == FQL_UPDATE || *op == FQL_DELETE) {
 			struct query** it = vec_begin(fql->query_vec);
diff --git a/lib/query.c b/lib/query.c
index bab5132..f28b063 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -95,6 +95,12 @@ void query_destroy(query* self)
 	delete_(vec, self->subquery_const_vec);
 	free_if_exists_(self->op_schema_name);
 
+	/* never executed, or failed */
+	if (self->place_holder != NULL) {
+		remove(self->place_holder);
+		free_(self->place_holder);
+	}
+
 	if (self->into_table_var_idx == -1) {
 		free_if_exists_(self->into_table_name);
 	}
diff --git a/lib/query.h b/lib/query.h
index 54788f7..cc70c20 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -154,6 +154,7 @@ struct query {
 	struct expression* top_expr;
 	struct vec* unions;
 	const char* into_table_name;
+	char* place_holder; /* an empty file made for into_table_name */
 	char* op_schema_name;
 	struct vec* text; /* string */
 	size_t top_count;
diff --git a/lib/schema.c b/lib/schema.c
index 4d7dcbe..f35aee1 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1364,6 +1364,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 				perror(aquery->into_table_name);
 				return FQL_FAIL;
 			}
+			aquery->place_holder = strdup(aquery->into_table_name);
 		} else if (*(enum fql_operation*)aquery->op == FQL_SELECT
 		           && !aquery->fqlref->props.overwrite) {
 			/* If we are dealing specifically with
-- 
2.43.0


From 28951a12d9128ca71e790832354226da859c3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 099/126] fix: UPDATE and DELETE over a join lost records that
 a join or condition rejected

The records of the target table that an inner join, a condition of a join
or the WHERE clause rejected were dropped on the way to the filter, and
so vanished from the file.  They are now passed along, marked as
rejected, and kept as they are.
---
 lib/fqldelete.c    |  4 +-
 lib/fqlplan.c      |  9 +++++
 lib/fqlprocesses.c | 92 +++++++++++++++++++++++++++++++++++++++-------
 lib/fqlupdate.c    |  1 -
 lib/process.c      |  1 +
 lib/process.h      |  2 +
 lib/record.c       |  1 +
 lib/record.h       |  1 +
 8 files changed, 95 insertions(+), 16 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..4070ffa 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -90,7 +90,6 @@ int fqldelete_apply_process(query* query, plan* plan)
 	delete_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, delete_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
@@ -98,6 +97,9 @@ int fqldelete_apply_process(query* query, plan* plan)
 	proc = plan->op_true->data;
 	proc->is_passive = true;
 
+	/* As for UPDATE, this is becoming op_true */
+	plan->op_true = filter_node;
+
 	writer_set_delimiter(self->writer, self->schema->delimiter);
 	writer_set_rec_terminator(self->writer, self->schema->rec_terminator);
 
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 8ebb157..3c7a5a9 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -269,6 +269,13 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 	return FQL_GOOD;
 }
 
+/* A join that is followed by the filter of an UPDATE or DELETE */
+bool _keeps_rejected(query* query)
+{
+	enum fql_operation* op = query->op;
+	return query->sources->size > 1 && (*op == FQL_UPDATE || *op == FQL_DELETE);
+}
+
 int plan_logicgroup_to_process(plan* self,
                                logicgroup* lg,
                                process** ret,
@@ -280,6 +287,7 @@ int plan_logicgroup_to_process(plan* self,
 	}
 	logic_proc->action__ = &fql_logic;
 	logic_proc->proc_data = lg;
+	logic_proc->keeps_rejected = _keeps_rejected(self->query);
 	try_(plan_logic_to_process(self, logic_proc, lg));
 	dnode* logic_node = dgraph_add_data(self->processes, logic_proc);
 
@@ -474,6 +482,7 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			join_node->is_root = true;
 		}
 		join_proc->proc_data = table_iter;
+		join_proc->keeps_rejected = _keeps_rejected(query);
 		self->current->out[0] = join_node;
 		self->current = join_node;
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1b5e7fb..f0845ea 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -270,6 +270,7 @@ enum proc_return fql_read(process* proc)
 
 		record* rec = (*rg_iter)->data;
 		rec->src_idx = table->idx;
+		rec->is_rejected = false;
 
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 
@@ -286,9 +287,36 @@ enum proc_return fql_read(process* proc)
 	return ret;
 }
 
+/* UPDATE and DELETE over a join must not lose the records of their
+ * table that some join or condition rejects. These are marked, and
+ * sent along with the others, so that all of them arrive in order.
+ * The last process sends them to the false side of the filter.
+ */
+bool _is_rejected(process* proc, node* rg)
+{
+	if (!proc->keeps_rejected) {
+		return false;
+	}
+	record* rec = record_at(rg, 0);
+	return rec->is_rejected;
+}
+
+void _reject(process* proc, node** rg)
+{
+	if (!proc->keeps_rejected) {
+		fqlprocess_recycle(proc, rg);
+		return;
+	}
+	record* rec = record_at(*rg, 0);
+	rec->is_rejected = true;
+	fifo_add(proc->fifo_out[1] ? proc->fifo_out[1] : proc->fifo_out[0], rg);
+}
+
 enum proc_return fql_cartesian_join(process* proc)
 {
-	fifo* out = proc->fifo_out[0];
+	/* both are there if the filter of an UPDATE or DELETE is next */
+	fifo* out_false = proc->fifo_out[1] ? proc->fifo_out[0] : NULL;
+	fifo* out = proc->fifo_out[1] ? proc->fifo_out[1] : proc->fifo_out[0];
 	if (!out->is_open) {
 		return PROC_RETURN_COMPLETE;
 	}
@@ -303,7 +331,12 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	enum proc_return wait_on_out =
+	        out_false ? PROC_RETURN_WAIT_ON_OUT1 : PROC_RETURN_WAIT_ON_OUT0;
 	if (!fifo_receivable(out)) {
+		return wait_on_out;
+	}
+	if (out_false && !fifo_receivable(out_false)) {
 		return PROC_RETURN_WAIT_ON_OUT0;
 	}
 
@@ -312,10 +345,16 @@ enum proc_return fql_cartesian_join(process* proc)
 
 	////
 
-	_fill_inbuf(proc, in_right);
-
 	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
+	if (_is_rejected(proc, *iter_left)) {
+		fifo_add(out_false ? out_false : out, iter_left);
+		fifo_consume(in_left);
+		return PROC_RETURN_RUNNING;
+	}
+
+	_fill_inbuf(proc, in_right);
+
 	while (proc->inbuf_iter != vec_end(proc->inbuf)) {
 		record* rec = (*proc->inbuf_iter)->data;
 		rec->src_idx = table->idx;
@@ -337,13 +376,21 @@ enum proc_return fql_cartesian_join(process* proc)
 				node_push_import(right_head, *proc->inbuf_iter);
 			}
 			fifo_add(out, right_head);
+			proc->has_joined = true;
 			++proc->inbuf_iter;
 			break;
 		}
 		default: { /* eof */
 			reader->reset__(reader);
+			if (proc->has_joined) {
+				fqlprocess_recycle(proc, iter_left);
+			} else if (out_false) {
+				fifo_add(out_false, iter_left);
+			} else {
+				_reject(proc, iter_left);
+			}
+			proc->has_joined = false;
 			fifo_consume(in_left);
-			fqlprocess_recycle(proc, iter_left);
 			iter_left = fifo_peek(in_left);
 			//iter_left = fifo_iter(in_left);
 			if (iter_left == fifo_end(in_left)) {
@@ -354,7 +401,7 @@ enum proc_return fql_cartesian_join(process* proc)
 		}
 
 		if (!fifo_receivable(out)) {
-			return PROC_RETURN_WAIT_ON_OUT0;
+			return wait_on_out;
 		}
 	}
 
@@ -506,14 +553,18 @@ enum proc_return fql_hash_join(process* proc)
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
-		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
+		bool is_rejected = _is_rejected(proc, *left_rg_iter);
+		long offset = -1;
+		if (!is_rejected) {
+			offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
+		}
 		if (offset == -1) {
-			if (table->join_type == JOIN_LEFT) {
+			if (table->join_type == JOIN_LEFT && !is_rejected) {
 				fifo_add(out_true, left_rg_iter);
 			} else if (out_false != NULL) {
 				fifo_add(out_false, left_rg_iter);
 			} else {
-				fqlprocess_recycle(proc, left_rg_iter);
+				_reject(proc, left_rg_iter);
 			}
 			left_rg_iter = fifo_iter(in_left);
 			if (!fifo_receivable(out_true)) {
@@ -605,7 +656,10 @@ enum proc_return fql_logic(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		int result = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+		int result = 0;
+		if (!_is_rejected(proc, *rg_iter)) {
+			result = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+		}
 		_fqlprocess_print_iter_states(proc, -1);
 
 		if (result && out_true != NULL) {
@@ -613,7 +667,7 @@ enum proc_return fql_logic(process* proc)
 		} else if (!result && out_false != NULL) {
 			fifo_add(out_false, rg_iter);
 		} else {
-			fqlprocess_recycle(proc, rg_iter);
+			_reject(proc, rg_iter);
 		}
 
 		if (proc->is_const) {
@@ -639,8 +693,8 @@ enum proc_return fql_logic(process* proc)
 
 enum proc_return fql_left_join_logic(process* proc)
 {
-	// No out_false for left_join
-	//fifo* out_false = proc->fifo_out[0];
+	/* Only what was rejected before goes to out_false */
+	fifo* out_false = proc->fifo_out[0];
 	fifo* out_true = proc->fifo_out[1];
 	if (!out_true->is_open) {
 		return PROC_RETURN_COMPLETE;
@@ -657,6 +711,9 @@ enum proc_return fql_left_join_logic(process* proc)
 	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
+	if (out_false && !fifo_receivable(out_false)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
 
 	logicgroup* lg = proc->proc_data;
 
@@ -670,8 +727,9 @@ enum proc_return fql_left_join_logic(process* proc)
 		 * these records have already failed a hash join.
 		 */
 		bool pass = true;
+		bool is_rejected = _is_rejected(proc, *rg_iter);
 		record* right_rec = record_at(*rg_iter, proc->out_src_count - 1);
-		if (right_rec != NULL) {
+		if (right_rec != NULL && !is_rejected) {
 			bool is_last = right_rec->is_last_match;
 			pass = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
 			if (pass) {
@@ -692,7 +750,9 @@ enum proc_return fql_left_join_logic(process* proc)
 		}
 
 		_fqlprocess_print_iter_states(proc, -1);
-		if (pass) {
+		if (is_rejected && out_false) {
+			fifo_add(out_false, rg_iter);
+		} else if (pass) {
 			fifo_add(out_true, rg_iter);
 		} else {
 			fqlprocess_recycle(proc, rg_iter);
@@ -703,6 +763,10 @@ enum proc_return fql_left_join_logic(process* proc)
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
+		if (out_false && !fifo_receivable(out_false)) {
+			ret = PROC_RETURN_WAIT_ON_OUT0;
+			break;
+		}
 	}
 	fifo_update(in);
 
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..0f09cc7 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -130,7 +130,6 @@ int fqlupdate_apply_process(query* query, plan* plan)
 	update_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, update_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
diff --git a/lib/process.c b/lib/process.c
index bfddd50..d9f52e8 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -189,6 +189,7 @@ void process_enable(process* self)
 	}
 
 	self->rows_affected = 0;
+	self->has_joined = false;
 	fifo_reset(self->fifo_in[0]);
 	fifo_reset(self->fifo_in[1]);
 	fifo_reset(self->fifo_out[0]);
diff --git a/lib/process.h b/lib/process.h
index aeabdae..e172cc2 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -52,6 +52,8 @@ struct process {
 	bool is_op_true;              /* is proc_graph->op_true->data */
 	bool is_threading;            /* should be nearly identical to is_enabled */
 	bool has_second_input;        /* will activate fifo_in[1] */
+	bool keeps_rejected;          /* pass on what is false, but mark it */
+	bool has_joined;              /* the left record met one of the right */
 	bool wait_for_in0;            /* allow start before in0 populated */
 	bool in0_always_dead;         /* wait_for_in0 will stay false on reset */
 };
diff --git a/lib/record.c b/lib/record.c
index d80e3cb..36f7df7 100644
--- a/lib/record.c
+++ b/lib/record.c
@@ -74,6 +74,7 @@ void record_copy(record* self, node* src_node)
 	self->src_idx = src->src_idx;
 	self->rec_idx = src->rec_idx;
 	self->rec_ref = src->rec_ref;
+	self->is_rejected = false;
 }
 
 void record_resize(record* self, unsigned size)
diff --git a/lib/record.h b/lib/record.h
index defa171..17e7632 100644
--- a/lib/record.h
+++ b/lib/record.h
@@ -29,6 +29,7 @@ struct record {
 	unsigned max_group_count;
 	unsigned root_fifo_idx;
 	bool is_last_match; /* no more hash join matches for the left side */
+	bool is_rejected;   /* a join or its conditions rejected it, see process */
 };
 typedef struct record record;
 
-- 
2.43.0


From 1f66aa4cbf38def6e88676f7ec6cb81e0507a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 100/126] fix: DELETE counted the records it keeps, or none, as
 affected

Of a single table the process of the records that do not match counted,
but only the one of those that do is asked for the number.
---
 lib/fqldelete.c    | 24 ++++++++++++++++--------
 lib/fqlprocesses.c | 32 +++++++++++++++++++++++++++++++-
 lib/process.h      |  1 +
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 4070ffa..b9622e6 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -63,14 +63,22 @@ int fqldelete_apply_process(query* query, plan* plan)
 {
 	fqldelete* self = query->op;
 	if (query->sources->size == 1) {
-		process* proc = plan->op_false->data;
-		proc->action__ = &fql_delete;
-		proc->proc_data = self;
-
-		string_strcpy(proc->plan_msg, "DELETE");
-
-		proc = plan->op_true->data;
-		proc->is_passive = true;
+		process* false_proc = plan->op_false->data;
+		process* true_proc = plan->op_true->data;
+
+		/* The matched records are counted, nothing more. */
+		true_proc->action__ = &fql_delete_count;
+
+		if (query->where != NULL) {
+			false_proc->action__ = &fql_delete;
+			false_proc->proc_data = self;
+			string_strcpy(false_proc->plan_msg, "DELETE");
+		} else {
+			/* None are kept. This finishes the new file. */
+			true_proc->proc_data = self;
+			string_strcpy(true_proc->plan_msg, "DELETE");
+			false_proc->is_passive = true;
+		}
 
 		writer_set_delimiter(self->writer, self->schema->delimiter);
 		writer_set_rec_terminator(self->writer, self->schema->rec_terminator);
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index f0845ea..f20ea7c 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1058,7 +1058,6 @@ enum proc_return fql_delete(process* proc)
 		try_(delete->undelete__(delete, *rg_iter));
 		_fqlprocess_print_iter_states(proc, -1);
 
-		++proc->rows_affected;
 		fqlprocess_recycle(proc, rg_iter);
 
 		rg_iter = fifo_iter(in);
@@ -1074,6 +1073,37 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
+enum proc_return fql_delete_count(process* proc)
+{
+	fifo* in = proc->fifo_in[0];
+
+	if (proc->wait_for_in0 && fifo_is_empty(in)) {
+		if (in->is_open || !fifo_is_empty(in)) {
+			return PROC_RETURN_WAIT_ON_IN0;
+		}
+		proc->wait_for_in0 = false;
+	}
+
+	////
+
+	if (!proc->wait_for_in0) {
+		fqldelete* delete = proc->proc_data;
+		if (delete != NULL) {
+			try_(writer_close(delete->writer));
+		}
+		return PROC_RETURN_COMPLETE;
+	}
+
+	node** rg_iter = fifo_begin(in);
+	for (; rg_iter != fifo_end(in); rg_iter = fifo_iter(in)) {
+		++proc->rows_affected;
+		fqlprocess_recycle(proc, rg_iter);
+	}
+	fifo_update(in);
+
+	return PROC_RETURN_WAIT_ON_IN0;
+}
+
 /* A join may send a record of the operation's table several
  * times, and to either side. It is kept, once, if all of them
  * are false. Both sides are in order, so once a later record
diff --git a/lib/process.h b/lib/process.h
index e172cc2..79d5eb1 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -97,6 +97,7 @@ enum proc_return fql_if(struct process*);
 enum proc_return fql_read(struct process*);
 enum proc_return fql_select(struct process*);
 enum proc_return fql_delete(struct process*);
+enum proc_return fql_delete_count(struct process*);
 enum proc_return fql_delete_filter(struct process*);
 enum proc_return fql_update(struct process*);
 enum proc_return fql_update_filter(struct process*);
-- 
2.43.0


From 49c5b987bbfa0bc131721588e63b60d244bd1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 101/126] fix: a joined derived table that is not executed
 leaked its writer

and so did standard input its file.
---
 lib/reader.c   | 6 ++++++
 lib/subquery.c | 1 +
 2 files changed, 7 insertions(+)

diff --git a/lib/reader.c b/lib/reader.c
index 320ed07..f9bbfe2 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -29,6 +29,12 @@ void reader_destroy(reader* self)
 	string_destroy(&self->file_name);
 	delete_if_exists_(record, self->first_rec);
 
+	/* still open if it was never read to its end */
+	reader_stop_file_backed_input(self);
+	if (self->subquery_writer != NULL) {
+		csv_writer_free(self->subquery_writer);
+	}
+
 	if (self->free__) {
 		self->free__(self->reader_data);
 	}
diff --git a/lib/subquery.c b/lib/subquery.c
index 134cbe5..fae7070 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -140,6 +140,7 @@ int subquery_reset_from_join(reader* reader)
 {
 	reader_stop_file_backed_input(reader);
 	csv_writer_free(reader->subquery_writer);
+	reader->subquery_writer = NULL;
 
 	subquery* self = reader->reader_data;
 
-- 
2.43.0


From d053f07c6059b966ea61cfdbf8b4cb8c1486c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 102/126] fix: ORDER BY of functions, or DESC, without sources
 used freed memory or crashed

The clause is still ignored then, but what it consists of is kept.
---
 lib/antlr/listenerinterface.cpp |  5 ++++-
 lib/query.c                     | 14 ++++++++++----
 lib/query.h                     |  2 ++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index f8ebef4..6f490e6 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -1044,7 +1044,10 @@ void ListenerInterface::enterOrder_by_clause(TSqlParser::Order_by_clauseContext
 	_query->mode = MODE_ORDERBY;
 	query_init_orderby(_query);
 }
-void ListenerInterface::exitOrder_by_clause(TSqlParser::Order_by_clauseContext * ctx) { }
+void ListenerInterface::exitOrder_by_clause(TSqlParser::Order_by_clauseContext * ctx)
+{
+	query_exit_orderby(_query);
+}
 
 void ListenerInterface::enterOrder_by_expression(TSqlParser::Order_by_expressionContext * ctx)
 {
diff --git a/lib/query.c b/lib/query.c
index f28b063..5598906 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -79,6 +79,7 @@ void query_destroy(query* self)
 	delete_if_exists_(distinct, self->distinct);
 	delete_if_exists_(logicgroup, self->having);
 	delete_if_exists_(order, self->orderby);
+	delete_if_exists_(order, self->ignored_orderby);
 	delete_if_exists_(expression, self->top_expr);
 	delete_if_exists_(vec, self->joinable);
 
@@ -677,16 +678,21 @@ int query_exit_aggregate(query* self)
 
 /** order by **/
 int query_init_orderby(query* self)
+{
+	self->orderby = new_(order);
+	return FQL_GOOD;
+}
+
+void query_exit_orderby(query* self)
 {
 	/* If there are no sources, then we are trying to
 	 * order a const expression... Don't bother...
+	 * Only its expressions must live on.
 	 */
 	if (vec_empty(self->sources)) {
-		return FQL_GOOD;
+		self->ignored_orderby = self->orderby;
+		self->orderby = NULL;
 	}
-
-	self->orderby = new_(order);
-	return FQL_GOOD;
 }
 
 void query_set_order_desc(query* self)
diff --git a/lib/query.h b/lib/query.h
index cc70c20..3a770c5 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -145,6 +145,7 @@ struct query {
 	struct group* distinct;
 	struct logicgroup* having;
 	struct order* orderby;
+	struct order* ignored_orderby; /* there is nothing to put in order */
 	void* op; /* operation structure */
 	struct vec* subquery_const_vec;
 	struct vec* variable_table_indicies;
@@ -242,6 +243,7 @@ int query_exit_aggregate(struct query*);
 
 /* order by */
 int query_init_orderby(struct query*);
+void query_exit_orderby(struct query*);
 void query_set_order_desc(struct query*);
 
 /* unions */
-- 
2.43.0


From 1770072f916be7bec657ffeaf8cc3c45f262bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 103/126] fix: ORDER BY of no records left its file open

---
 lib/order.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/order.c b/lib/order.c
index 09bd00a..9496662 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -425,6 +425,7 @@ int order_sort(order* self)
 	}
 
 	if (sb.st_size == 0) {
+		close(self->fd);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 5ba0694da41b2336ff8c7321605f48240497c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 104/126] fix: fql_step crashed if nothing was planned, or
 nothing left

---
 lib/libfql.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index 22c22a2..cefd388 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -687,6 +687,11 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
+	/* There is nothing planned, or nothing left of it. */
+	if (_get_active_query(fql) == NULL) {
+		return FQL_GOOD;
+	}
+
 	query** query = vec_at(fql->query_vec, fql->query_idx);
 	struct fqlplan* plan = (*query)->plan;
 	int ret = 0;
-- 
2.43.0


From e519dd899ed9f935b5d2fbaa8fc80a44dd925766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 105/126] fix: SET of an option, a cursor or a member crashed

---
 lib/antlr/listenerinterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 6f490e6..ad18d2f 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -134,6 +134,11 @@ void ListenerInterface::exitDeclare_local(TSqlParser::Declare_localContext * ctx
 
 void ListenerInterface::enterSet_statement(TSqlParser::Set_statementContext * ctx)
 {
+	/* SET NOCOUNT ON, a member of a variable or a cursor */
+	if (ctx->LOCAL_ID() == NULL || ctx->member_name != NULL || ctx->CURSOR() != NULL) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
 
 	_query->mode = MODE_SET;
 	_operation = FQL_SET;
-- 
2.43.0


From c26661a52d85a2229c0db4902881b1b92d8da946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 106/126] fix: the expressions of a loose GROUP BY leaked

---
 lib/group.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/group.c b/lib/group.c
index 6051fdb..ec79824 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -43,7 +43,10 @@ void group_destroy(group* self)
 
 void distinct_destroy(group* self)
 {
-	vec_clear(&self->expressions);
+	/* A loose GROUP BY owns its expressions */
+	if (self->select != NULL) {
+		vec_clear(&self->expressions);
+	}
 	group_destroy(self);
 }
 
-- 
2.43.0


From c9aa7465a7b96a88eb2e55c594f287544c78aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 107/126] fix: __rownum crashed where there are no rows to
 number

---
 lib/operation.c | 7 +++++--
 lib/operation.h | 2 +-
 lib/query.c     | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/operation.c b/lib/operation.c
index 87b52ba..231d08f 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -327,7 +327,7 @@ void op_set_schema(enum fql_operation* self, const schema* src_schema)
 	schema_copy(op_schema, src_schema);
 }
 
-void op_assign_rownum_ref(enum fql_operation* self, expression* expr)
+int op_assign_rownum_ref(enum fql_operation* self, expression* expr)
 {
 	switch (*self) {
 	case FQL_SELECT: {
@@ -345,8 +345,11 @@ void op_assign_rownum_ref(enum fql_operation* self, expression* expr)
 	case FQL_WHILE:
 	case FQL_IF:
 	case FQL_NONE:
-		break;
+		fputs("no rows to be numbered by __rownum\n", stderr);
+		return FQL_FAIL;
 	}
+
+	return FQL_GOOD;
 }
 
 int _resolve_into_table_variable(query* query)
diff --git a/lib/operation.h b/lib/operation.h
index a550a7c..3390535 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -31,7 +31,7 @@ void op_set_writer(enum fql_operation*, struct writer*);
 void op_set_schema(enum fql_operation*, const struct schema*);
 void op_set_rec_terminator(enum fql_operation*, const char* term);
 void op_set_delim(enum fql_operation*, const char* delim);
-void op_assign_rownum_ref(enum fql_operation*, struct expression*);
+int op_assign_rownum_ref(enum fql_operation*, struct expression*);
 int op_apply_process(struct query*, struct fqlplan*, bool is_subquery);
 int op_resolve_final_types(enum fql_operation*);
 //int op_writer_reset(struct query*);
diff --git a/lib/query.c b/lib/query.c
index 5598906..272dae6 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -367,7 +367,10 @@ int query_add_expression(query* self, char* expr_name, const char* table_id)
 	                      "__rownum")) { // && self->mode == MODE_SELECTLIST) {
 		expr = new_(expression, EXPR_ROW_NUMBER, expr_name, table_id);
 		expr->field_type = FIELD_INT;
-		op_assign_rownum_ref(self->op, expr);
+		if (op_assign_rownum_ref(self->op, expr)) {
+			delete_(expression, expr);
+			return FQL_FAIL;
+		}
 	} else {
 		expr = new_(expression, EXPR_COLUMN_NAME, expr_name, table_id);
 	}
-- 
2.43.0


From 5f4f3669b018dc1e5676727778f77db6c6d79728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 108/126] fix: __rownum was 0 in all SELECTs of a UNION but the
 first

---
 lib/fqlselect.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index e1e0358..34a6122 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -284,6 +284,7 @@ int fqlselect_next_union(fqlselect* self)
 	}
 
 	self->current_select = self->_union_node->data;
+	self->current_select->rownum = 0;
 
 	self->_union_node = self->_union_node->next;
 	self->rows_affected = 0;
@@ -426,7 +427,7 @@ void fqlselect_preop(fqlselect* self, query* query)
 
 int _select_record(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	++self->current_select->rownum;
 	writer* writer = self->writer;
 	vec* expr_vec = self->current_select->schema->expressions;
 
@@ -450,7 +451,7 @@ int _select_record(fqlselect* self, node* rg)
 
 int _select_record_api(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	++self->current_select->rownum;
 	vec* expr_vec = self->current_select->schema->expressions;
 
 	expression** exprs = vec_begin(expr_vec);
@@ -498,7 +499,7 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	if (rg == NULL) { /* an aggregate of no records has nothing to order */
 		return 1;
 	}
-	++self->rownum;
+	++self->current_select->rownum;
 	FILE* order_input = writer_get_file(self->writer);
 
 	vec* expr_vec = self->current_select->schema->expressions;
@@ -550,7 +551,7 @@ int _select_record_order_api(fqlselect* self, node* rg)
 
 int _select_record_to_list(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	++self->current_select->rownum;
 	set* list = self->list_data;
 
 	expression* expr =
@@ -591,7 +592,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 
 int _select_record_to_const(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	++self->current_select->rownum;
 	if (self->const_dest->expr != EXPR_SUBQUERY) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
@@ -645,6 +646,6 @@ int _select_record_to_const(fqlselect* self, node* rg)
  */
 int _select_subquery(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	++self->current_select->rownum;
 	return FQL_GOOD;
 }
-- 
2.43.0


From fc48cba75375ad2f45df56340cc3abae9de8ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 109/126] fix: NULL of a function in a GROUP BY or DISTINCT
 read memory no longer held

---
 lib/group.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/group.c b/lib/group.c
index ec79824..94ac00b 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -128,7 +128,10 @@ int group_record(group* self, node* rg)
 		}
 		switch (exprs[i]->field_type) {
 		case FIELD_STRING:
-			try_(expression_get_stringview(sv, exprs[i], rg));
+			if (try_(expression_get_stringview(sv, exprs[i], rg))
+			    == FQL_NULL) {
+				stringview_nset(sv, "", 0);
+			}
 			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
 			break;
 		case FIELD_INT: {
-- 
2.43.0


From 38cc44847eacd57513c420a68a5e69e173efeed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 110/126] fix: fql_step crashed where the fields of a SELECT
 cannot be connected

---
 lib/fqlselect.c | 6 +++---
 lib/libfql.c    | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 34a6122..7f61588 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -175,13 +175,13 @@ int fqlselect_connect_api(query* query, vec* api)
 	op_expand_asterisks(query, true);
 
 	vec* exprs = self->schema->expressions;
-	vec_resize(api, exprs->size);
+	vec_resize_and_zero(api, exprs->size);
 
 	expression** it = vec_begin(exprs);
 	unsigned i = 0;
 	for (; i < exprs->size; ++i) {
-		if ((*it)->subquery != NULL && !(*it)->is_cast) {
-			try_(fqlselect_resolve_type_from_subquery(*it));
+		if (it[i]->subquery != NULL && !it[i]->is_cast) {
+			try_(fqlselect_resolve_type_from_subquery(it[i]));
 		}
 		struct fql_field* field = vec_at(api, i);
 		field->is_null = false;
diff --git a/lib/libfql.c b/lib/libfql.c
index cefd388..68e5076 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -697,7 +697,10 @@ int fql_step(fqlhandle* fql, struct fql_field** fields)
 	int ret = 0;
 	if (!plan->has_stepped) {
 		if (vec_empty(fql->api_vec)) {
-			_api_connect(fql);
+			ret = _api_connect(fql);
+			if (ret == FQL_FAIL) {
+				goto _step_fail_break;
+			}
 		}
 		plan->has_stepped = true;
 
-- 
2.43.0


From 57f369d79757ac7e2b4674418cb3dac29da3bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 111/126] fix: constructs not supported are refused, not
 dropped or crashed on

---
 lib/antlr/listenerinterface.cpp | 31 ++++++++++++++++++++++++++++++-
 lib/antlr/listenerinterface.h   |  3 +++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index ad18d2f..4427722 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -255,6 +255,10 @@ void ListenerInterface::exitAsterisk(TSqlParser::AsteriskContext * ctx) { }
 
 void ListenerInterface::enterColumn_elem(TSqlParser::Column_elemContext * ctx)
 {
+	if (ctx->IDENTITY() || ctx->ROWGUID()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
 	if (ctx->NULL_()) {
 		query_add_null_expression(_query);
 	}
@@ -460,6 +464,10 @@ void ListenerInterface::exitFunc_proc_name_server_database_schema(TSqlParser::Fu
 
 void ListenerInterface::enterFull_column_name(TSqlParser::Full_column_nameContext * ctx)
 {
+	if (ctx->INSERTED() || ctx->DELETED()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
 	_tok_type = TOK_COLUMN_NAME;
 	_next_tok_type = TOK_TABLE_NAME;
 }
@@ -767,7 +775,12 @@ void ListenerInterface::exitUpdate_statement(TSqlParser::Update_statementContext
 	}
 }
 
-void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx) { }
+void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx)
+{
+	if (ctx->LOCAL_ID()) {
+		_no_impl(ctx->LOCAL_ID()->getText(), ctx->getRuleIndex());
+	}
+}
 void ListenerInterface::exitUpdate_elem(TSqlParser::Update_elemContext * ctx)
 {
 	if (_query->in_assignment_function) {
@@ -781,6 +794,11 @@ void ListenerInterface::exitDdl_object(TSqlParser::Ddl_objectContext * ctx) { }
 
 void ListenerInterface::enterExpression(TSqlParser::ExpressionContext * ctx)
 {
+	if (ctx->COLLATE() || ctx->DOLLAR_ACTION() || ctx->DOUBLE_BAR()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
+
 	enum scalar_function op = SCALAR_UNDEFINED;
 	if      (ctx->PLUS())    op = SCALAR_OP_PLUS;
 	else if (ctx->MINUS())   op = SCALAR_OP_MINUS;
@@ -815,6 +833,10 @@ void ListenerInterface::exitExpression(TSqlParser::ExpressionContext * ctx)
 
 void ListenerInterface::enterPrimitive_expression(TSqlParser::Primitive_expressionContext * ctx)
 {
+	if (ctx->DEFAULT()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
 	if (ctx->LOCAL_ID()) {
 		if (query_add_variable_expression(_query, ctx->LOCAL_ID()->getText().c_str())) {
 			_set_failure();
@@ -984,6 +1006,10 @@ void ListenerInterface::exitQuery_expression(TSqlParser::Query_expressionContext
 
 void ListenerInterface::enterQuery_specification(TSqlParser::Query_specificationContext * ctx)
 {
+	if (ctx->groupByAll) {
+		_no_impl(ctx->groupByAll->getText(), ctx->getRuleIndex());
+		return;
+	}
 	if (ctx->DISTINCT()) {
 		query_set_distinct(_query);
 	}
@@ -1267,6 +1293,9 @@ void ListenerInterface::exitInsert_statement(TSqlParser::Insert_statementContext
 void ListenerInterface::enterInsert_statement_value(TSqlParser::Insert_statement_valueContext * ctx) { _no_impl(ctx->getStart()->getText(), ctx->getRuleIndex()); }
 void ListenerInterface::exitInsert_statement_value(TSqlParser::Insert_statement_valueContext * ctx) { }
 
+void ListenerInterface::enterWaitfor_statement(TSqlParser::Waitfor_statementContext * ctx) { _no_impl(ctx->getStart()->getText(), ctx->getRuleIndex()); }
+void ListenerInterface::exitWaitfor_statement(TSqlParser::Waitfor_statementContext * ctx) { }
+
 void ListenerInterface::enterTime(TSqlParser::TimeContext * ctx) { _no_impl(ctx->getStart()->getText(), ctx->getRuleIndex()); }
 void ListenerInterface::exitTime(TSqlParser::TimeContext * ctx) { }
 
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 0c0c138..ee4f86e 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -188,6 +188,9 @@ class ListenerInterface : public TSqlParserBaseListener {
 	virtual void enterSelect_statement(TSqlParser::Select_statementContext * /*ctx*/) override;
 	virtual void exitSelect_statement(TSqlParser::Select_statementContext * /*ctx*/) override;
 
+	virtual void enterWaitfor_statement(TSqlParser::Waitfor_statementContext * /*ctx*/) override;
+	virtual void exitWaitfor_statement(TSqlParser::Waitfor_statementContext * /*ctx*/) override;
+
 	virtual void enterTime(TSqlParser::TimeContext * /*ctx*/) override;
 	virtual void exitTime(TSqlParser::TimeContext * /*ctx*/) override;
 
-- 
2.43.0


From 72b6e4320e520991fd86920d0b1b1c2535df1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 112/126] fix: fql --api used fields of statements before, and
 stopped at what is not a SELECT

---
 src/fql.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/fql.c b/src/fql.c
index f6fa1ba..153c044 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -86,6 +86,7 @@ void _parse_args(struct fqlhandle* handle, int c);
 void _print_field(struct fql_field* field);
 
 static int use_api = 0;
+static int dry_run = 0;
 static char* query_str = NULL;
 
 int main(int argc, char** argv)
@@ -217,19 +218,32 @@ int main(int argc, char** argv)
 		goto success_exit;
 	}
 
-	/* Using API will only execute first query.
-	 * This is more of a debugging tool and
+	/* This is more of a debugging tool and
 	 * likely slower.
 	 */
-	int plan_count = fql_make_plans(handle, query_str);
-	if (plan_count == FQL_FAIL) {
+	if (fql_make_plans(handle, query_str) == FQL_FAIL) {
 		goto err_exit;
 	}
+	if (dry_run) {
+		goto success_exit;
+	}
 
 	struct fql_field* fields = NULL;
-	int field_count = fql_field_count(handle);
 
-	for (int i = 0; i < plan_count; ++i) {
+	/* Only a SELECT can be stepped through. */
+	while (true) {
+		if (fql_exec_until_select(handle) == FQL_FAIL) {
+			goto err_exit;
+		}
+		if (fql_get_operation_type(handle) == FQL_NONE) {
+			break;
+		}
+
+		int field_count = fql_field_count(handle);
+		if (field_count == FQL_FAIL) {
+			goto err_exit;
+		}
+
 		int rows = 0;
 		while ((rows = fql_step(handle, &fields)) == 1) {
 			for (int j = 0; j < field_count; ++j) {
@@ -281,6 +295,7 @@ void _parse_args(struct fqlhandle* handle, int c)
 		break;
 	case 'd':
 		fql_set_dry_run(handle, 1);
+		dry_run = 1;
 		break;
 	case 'D':
 		fql_import_variable(handle, optarg);
@@ -365,6 +380,10 @@ void _parse_args(struct fqlhandle* handle, int c)
 
 void _print_field(struct fql_field* field)
 {
+	if (field->is_null) {
+		return;
+	}
+
 	switch (field->type) {
 	case FQL_INT:
 		printf("%ld", field->data.i);
-- 
2.43.0


From ba8572c07c234637d8645554db9d4291f9dac5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 113/126] fix: the comparisons !< and !> used memory outside of
 a table

---
 lib/logic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/logic.c b/lib/logic.c
index fe90643..eb2e8b4 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -131,11 +131,11 @@ void logic_set_comparison(logic* self, const char* op)
 		self->comp_type = COMP_NE;
 	} else if (string_eq(op, ">")) {
 		self->comp_type = COMP_GT;
-	} else if (string_eq(op, ">=")) {
+	} else if (string_eq(op, ">=") || string_eq(op, "!<")) {
 		self->comp_type = COMP_GE;
 	} else if (string_eq(op, "<")) {
 		self->comp_type = COMP_LT;
-	} else if (string_eq(op, "<=")) {
+	} else if (string_eq(op, "<=") || string_eq(op, "!>")) {
 		self->comp_type = COMP_LE;
 	} else if (istring_eq(op, "IN")) {
 		self->comp_type = COMP_IN;
-- 
2.43.0


From a0fc3ac18e6e2f2511794e078b6eece1d8ef3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 114/126] fix: a derived table joined from the right was stale
 when its statement ran again

---
 lib/reader.h   |  1 +
 lib/subquery.c | 33 +++++++++++++++++++++++++++++++++
 lib/table.c    |  4 ++++
 3 files changed, 38 insertions(+)

diff --git a/lib/reader.h b/lib/reader.h
index 3709584..3c77119 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -68,6 +68,7 @@ int subquery_get_record_at(struct reader*, struct node*, size_t offset);
 int subquery_reset(struct reader*);
 int subquery_reset_from_join(struct reader*);
 int subquery_start_file_backed_input(struct reader*);
+int subquery_restart_file_backed_input(struct reader*, struct query*);
 
 
 /** fixedread **/
diff --git a/lib/subquery.c b/lib/subquery.c
index fae7070..0ec826d 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -171,3 +171,36 @@ int subquery_start_file_backed_input(reader* reader)
 	csv_writer_set_file(reader->subquery_writer, reader->random_access_file);
 	return FQL_GOOD;
 }
+
+/* The statement is executed again: what the file holds
+ * is the result of the last time.
+ */
+int subquery_restart_file_backed_input(reader* reader, struct query* query)
+{
+	reader_stop_file_backed_input(reader);
+	if (reader->subquery_writer != NULL) {
+		csv_writer_free(reader->subquery_writer);
+	}
+	reader->subquery_writer = csv_writer_new();
+	csv_writer_set_delim(reader->subquery_writer, "|");
+
+	reader->free__(reader->reader_data);
+	reader->reader_data = new_(subquery, query);
+	reader->free__ = &subquery_free;
+	reader->get_record__ = &subquery_get_record;
+	reader->get_record_at__ = &subquery_get_record_at;
+	reader->reset__ = &subquery_reset_from_join;
+
+	const char* file_name = string_c_str(reader->random_access_filename);
+	reader->random_access_file = fopen(file_name, "w");
+	if (reader->random_access_file == NULL) {
+		perror(file_name);
+		return FQL_FAIL;
+	}
+	csv_writer_set_file(reader->subquery_writer, reader->random_access_file);
+
+	reader->rec_id = 0;
+	reader->eof = false;
+
+	return query_preflight(query, true);
+}
diff --git a/lib/table.c b/lib/table.c
index c14f32d..cc3014c 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -78,6 +78,10 @@ int table_reset(table* self, bool has_executed)
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
+	} else if (has_executed && self->subquery != NULL
+	           && self->reader->random_access_filename != NULL) {
+		try_(subquery_restart_file_backed_input(self->reader, self->subquery));
+		hashjoin_reset(self->join_data);
 	} else if (has_executed) {
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
-- 
2.43.0


From cb457d8095a434f20289ffca24c31c46a8651699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 115/126] fix: a long query typed at a terminal overran its
 buffer

---
 src/fql.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fql.c b/src/fql.c
index 153c044..d08394d 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -157,7 +157,6 @@ int main(int argc, char** argv)
 		_parse_args(handle, c);
 
 	size_t max_size = 1024;
-	size_t running_size = 0;
 	FILE* query_file = stdin;
 	char* line = NULL;
 
@@ -197,9 +196,10 @@ int main(int argc, char** argv)
 				break;
 			}
 			size_t n = snprintf(NULL, 0, "%s\n%s", query_str, line);
-			running_size += n;
-			if (running_size >= max_size) {
-				max_size *= 2;
+			if (n >= max_size) {
+				while (n >= max_size) {
+					max_size *= 2;
+				}
 				query_str = realloc(query_str, max_size);
 				if (!query_str) {
 					perror("realloc");
@@ -208,6 +208,7 @@ int main(int argc, char** argv)
 			}
 			strcat(query_str, "\n");
 			strcat(query_str, line);
+			free(line);
 		} while (1);
 	}
 
-- 
2.43.0


From a74267da64c68897c3e7a362a22047f36e5a2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 116/126] fix: aggregates of no records had no row in a UNION,
 a subquery or an ordered result

---
 lib/expression.c   | 20 +++++---------
 lib/fqlprocesses.c |  7 -----
 lib/fqlselect.c    | 68 ----------------------------------------------
 lib/fqlselect.h    |  2 --
 lib/group.c        | 10 +++++++
 lib/operation.c    |  1 -
 lib/query.c        |  6 +---
 7 files changed, 18 insertions(+), 96 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 38020d3..4f8239f 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -444,10 +444,10 @@ int _call_function(expression* self, union field* ret, enum field_type* type, no
 	}
 }
 
-/* There was no record to count, see fqlselect_verify_must_run */
-bool _is_count_of_nothing(expression* self, node* rg)
+/* There was no record to count, see group_dump_record */
+bool _is_count_of_nothing(expression* self)
 {
-	return (rg == NULL && self->expr == EXPR_AGGREGATE
+	return (self->expr == EXPR_AGGREGATE
 	        && self->field.agg->agg_type == AGG_COUNT);
 }
 
@@ -494,7 +494,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
-			return (_is_count_of_nothing(self, rg)) ? FQL_GOOD : FQL_NULL;
+			return (_is_count_of_nothing(self)) ? FQL_GOOD : FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		string_copy_from_stringview(&self->buf, sv);
@@ -563,7 +563,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
-			return (_is_count_of_nothing(self, rg)) ? FQL_GOOD : FQL_NULL;
+			return (_is_count_of_nothing(self)) ? FQL_GOOD : FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		string_copy_from_stringview(&self->buf, sv);
@@ -617,13 +617,13 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	case EXPR_AGGREGATE: {
 		expression* src_expr = self->data_source;
 		record* rec = record_at(rg, src_expr->src_idx);
-		if (rec == NULL) {
+		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			switch (src_expr->field_type) {
 			case FIELD_INT:
 			case FIELD_FLOAT:
 				ret->data = _null_agg_numeric;
 				ret->len = 1;
-				return (_is_count_of_nothing(self, rg))
+				return (_is_count_of_nothing(self))
 				               ? FQL_GOOD
 				               : FQL_NULL;
 			case FIELD_STRING:
@@ -633,12 +633,6 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 				return FQL_NULL;
 			}
 		}
-		if (rec->fields.size <= src_expr->index) {
-			string_clear(&self->buf);
-			ret->data = self->buf.data;
-			ret->len = 0;
-			return FQL_GOOD;
-		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
 		ret->data = sv->data;
 		ret->len = sv->len;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index f20ea7c..a842fd5 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -940,13 +940,6 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0
-		    && current_select->top_count != 0) {
-			try_(select->select__(select, NULL));
-			++select->rows_affected;
-			++proc->rows_affected;
-			return PROC_RETURN_RUNNING;
-		}
 		/* subquery reads expect union schema to
 		 * be "in sync" with the subquery select's
 		 * current schema
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 7f61588..d93bf3e 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -33,7 +33,6 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	        .schema = new_(schema),
 	        .select__ = &_select_record,
 	        .top_count = -1,
-	        .must_run_once = true,
 	};
 
 	self->current_select = self;
@@ -85,15 +84,6 @@ unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
 void fqlselect_add_expression(fqlselect* self, expression* expr)
 {
 	schema_add_expression(self->schema, expr, 0);
-	switch (expr->expr) {
-	case EXPR_ROW_NUMBER:
-	case EXPR_AGGREGATE:
-		break;
-	default:
-		if (!expression_is_const(expr)) {
-			self->must_run_once = false;
-		}
-	}
 }
 
 int fqlselect_resolve_type_from_subquery(expression* expr)
@@ -292,64 +282,6 @@ int fqlselect_next_union(fqlselect* self)
 	return 1;
 }
 
-/* The "must_run_once" flag at this point means that the
- * conditions are correct to force a SELECT under the
- * assumption that there may be an unreached aggregate in
- * the SELECT list:
- *   SELECT COUNT(*)
- *   FROM T1
- *   WHERE 1=0
- *
- * Even though no records will make it to the SELECT,
- * we must still report our count of 0. If this condition
- * is true, then we must check that there is indeed an
- * aggregate function to warrant forcing a SELECT. We
- * wouldn't want "must_run_once" set true for a query like
- *   SELECT 1
- *   WHERE 1=0
- *
- * TODO: Verify this behavior when UNION is involved
- */
-static bool _has_aggregate(expression* expr)
-{
-	if (expr->expr == EXPR_AGGREGATE) {
-		return true;
-	}
-	if (expr->expr != EXPR_FUNCTION) {
-		return false;
-	}
-	expression** it = vec_begin(expr->field.fn->args);
-	for (; it != vec_end(expr->field.fn->args); ++it) {
-		if (_has_aggregate(*it)) {
-			return true;
-		}
-	}
-	return false;
-}
-
-void fqlselect_verify_must_run(fqlselect* self, group* groupby)
-{
-	/* No records make no groups */
-	if (groupby != NULL
-	    && groupby->expressions.size > groupby->aggregates.size) {
-		self->must_run_once = false;
-	}
-
-	if (self->must_run_once) {
-		expression** it = vec_begin(self->schema->expressions);
-		bool agg_found = false;
-		for (; it != vec_end(self->schema->expressions); ++it) {
-			if (_has_aggregate(*it)) {
-				agg_found = true;
-				break;
-			}
-		}
-		if (!agg_found) {
-			self->must_run_once = false;
-		}
-	}
-}
-
 int fqlselect_reset(fqlselect* self)
 {
 	self->offset = 0;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 331a6e3..1cae47c 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -35,7 +35,6 @@ struct fqlselect {
 	size_t top_count;
 	unsigned rownum;
 	bool is_const;
-	bool must_run_once;
 };
 typedef struct fqlselect fqlselect;
 
@@ -50,7 +49,6 @@ void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
-void fqlselect_verify_must_run(struct fqlselect*, struct group*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
 void fqlselect_preop(struct fqlselect*, struct query*);
diff --git a/lib/group.c b/lib/group.c
index 94ac00b..38d92af 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -192,6 +192,16 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 
 int group_dump_record(group* self, record* rec)
 {
+	/* Aggregates of no records still make one record
+	 * unless they are grouped. It has no fields.
+	 */
+	if (vec_empty(self->val_map.values) && self->_dump_idx == 0
+	    && self->expressions.size == self->aggregates.size) {
+		record_resize(rec, 0);
+		++self->_dump_idx;
+		return FQL_GOOD;
+	}
+
 	if (self->_dump_idx >= self->val_map.values->size) {
 		return -1;
 	}
diff --git a/lib/operation.c b/lib/operation.c
index 231d08f..0aa4e5f 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -442,7 +442,6 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
-		fqlselect_verify_must_run((fqlselect*)self, query->groupby);
 		return FQL_GOOD;
 	}
 
diff --git a/lib/query.c b/lib/query.c
index 272dae6..0cd7c1a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1004,13 +1004,9 @@ void _assign_logic(query* self, logicgroup* lg)
 	case LOGIC_WHERE:
 		self->where = lg;
 		break;
-	case LOGIC_HAVING: {
-		/* Having allows us to assume select */
-		fqlselect* select = self->op;
-		select->must_run_once = false;
+	case LOGIC_HAVING:
 		self->having = lg;
 		break;
-	}
 	case LOGIC_CASE:
 		switchcase_add_logicgroup(self->switchcase_stack->data, lg);
 		break;
-- 
2.43.0


From eb237843bc60e9d9fd47d2ab7d226110c7cbdf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 117/126] fix: a constant SELECT of a UNION counted rows that
 its first SELECT counts

---
 lib/fqlselect.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index d93bf3e..42e6cff 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -25,6 +25,7 @@ int _select_record_order_api(fqlselect*, node*);
 int _select_record_to_list(fqlselect*, node*);
 int _select_record_to_const(fqlselect*, node*);
 int _select_subquery(fqlselect*, node*);
+int _select_union(fqlselect*, node*);
 
 fqlselect* fqlselect_construct(fqlselect* self)
 {
@@ -210,7 +211,7 @@ void fqlselect_apply_process(query* query, plan* plan, bool is_subquery_source)
 			self->select__ = &_select_record_order_api;
 		}
 	} else if (is_subquery_source) {
-		self->select__ = &_select_subquery;
+		self->select__ = (query->union_id) ? &_select_union : &_select_subquery;
 		self->_union_node = self->union_selects;
 	}
 
@@ -581,3 +582,9 @@ int _select_subquery(fqlselect* self, node* rg)
 	++self->current_select->rownum;
 	return FQL_GOOD;
 }
+
+/* The rows of a UNION are counted by its first SELECT */
+int _select_union(fqlselect* self, node* rg)
+{
+	return FQL_GOOD;
+}
-- 
2.43.0


From ac7addf90a74736fe9206a4ac2d89f0a7a806b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 118/126] fix: a constant GROUP BY or subquery as a later
 SELECT of a UNION failed

---
 lib/fqlplan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 3c7a5a9..5b15337 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -660,7 +660,7 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		                                       op_get_expressions((*it)->op)));
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
 		/* the SELECT is the end node if there is nothing before it */
-		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
+		if (union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From 93d23c12d7cd4107b541a0fc14fdaae0cc5c5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 119/126] fix: a UNION of constants in a subquery lost rows
 within another UNION

---
 lib/fqlplan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 5b15337..6f3b095 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -856,7 +856,8 @@ bool _all_roots_are_const(vec* roots)
 bool _search_and_mark_const_selects(query* query)
 {
 	fqlselect* select = query->op;
-	bool is_const_query = true;
+	/* each SELECT of a UNION has rows of its own */
+	bool is_const_query = vec_empty(query->unions);
 
 	table* it = vec_begin(query->sources);
 	for (; it != vec_end(query->sources); ++it) {
-- 
2.43.0


From 705307087ca8a8ff2e999fbe327a27cfa93e6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 120/126] fix: records were overwritten in pipes after a
 constant subquery

---
 lib/fqlplan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 6f3b095..a8a5668 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -768,6 +768,8 @@ void _disable_stranded_roots(plan* self)
  */
 void _update_pipes(dgraph* proc_graph)
 {
+	/* A subquery may have counted what comes after it */
+	dgraph_traverse_reset(proc_graph);
 	while (dgraph_traverse(proc_graph))
 		;
 
-- 
2.43.0


From 54a8db27d1a9946c3120a67fad74b273f1cb2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 121/126] fix: ORDER BY was ignored if the first SELECT of a
 UNION has no source

---
 lib/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index 0cd7c1a..b2f4847 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -692,7 +692,7 @@ void query_exit_orderby(query* self)
 	 * order a const expression... Don't bother...
 	 * Only its expressions must live on.
 	 */
-	if (vec_empty(self->sources)) {
+	if (vec_empty(self->sources) && vec_empty(self->unions)) {
 		self->ignored_orderby = self->orderby;
 		self->orderby = NULL;
 	}
-- 
2.43.0


From 92ec9684058b180c6d1194b33a343317def73084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 122/126] fix: grouped columns were mixed up as their keys were
 compared without case

---
 lib/schema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index f35aee1..20cfb9a 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1068,7 +1068,7 @@ int _map_groups(struct fqlhandle* fql, query* query)
 	compositemap* expr_map = new_t_(compositemap,
 	                                expression*,
 	                                group_exprs->size * 2,
-	                                HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	                                HASHMAP_PROP_DEFAULT);
 	query->groupby->expr_map = expr_map;
 	vec key;
 	vec_construct_(&key, stringview);
-- 
2.43.0


From 65c639bd59e1ec6dbf6bf1339ff350cfa9406fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 123/126] fix: text that is not valid UTF-8 ended the program
 as the exception was not caught

---
 lib/antlr/antlr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/antlr/antlr.cpp b/lib/antlr/antlr.cpp
index 1fcd053..57e61be 100644
--- a/lib/antlr/antlr.cpp
+++ b/lib/antlr/antlr.cpp
@@ -6,8 +6,11 @@
 #include "errorlistener.h"
 #include "listenerinterface.h"
 
+#include <exception>
+#include <iostream>
+
 int analyze_query(struct fqlhandle* fql)
-{
+try {
 	/* SQL grammar assumes all keywords are upper case */
 	UpperStream input(fql->query_str);
 
@@ -47,4 +50,8 @@ int analyze_query(struct fqlhandle* fql)
 	walker.set_walking(false);
 
 	return analyzer.get_return_code();
+} catch (const std::exception& e) {
+	/* e.g. the text is not valid UTF-8 */
+	std::cerr << e.what() << '\n';
+	return FQL_FAIL;
 }
-- 
2.43.0


From eeb2635d327b50de453d2e4b1d46fa81c1b8ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 124/126] fix: RIGHT read the byte in front of its text if that
 is not valid UTF-8

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index b3b06df..3535f2f 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -42,7 +42,7 @@ int _get_rev_byte_count(const char* s, unsigned limit)
 	}
 
 	int i = 0;
-	for (; (s[i] & 0xC0) == 0x80 && -i < (int)limit; --i)
+	for (; -i < (int)limit && (s[i] & 0xC0) == 0x80; --i)
 		;
 
 	if (-i >= (int)limit) {
-- 
2.43.0


From c011c0f06f438acee34bc7d99a320dd02639eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 125/126] fix: --strict UPDATE of a column name that occurs
 twice went on

---
 lib/fqlupdate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 0f09cc7..c9f8fcc 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -209,6 +209,9 @@ int fqlupdate_resolve_additional(fqlupdate* self, query* query)
 			fprintf(stderr,
 			        "ambiguous column name `%s'\n",
 			        string_c_str(&(*update_col)->name));
+			if (query->fqlref->props.strictness) {
+				return FQL_FAIL;
+			}
 		}
 
 		expression** match_schema_expr = vec_begin(matches);
-- 
2.43.0


From da85ddf994505b149d957ad5efaf19e7899644a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 126/126] fix: what SELECT INTO with ORDER BY wrote was not
 there for later statements

---
 lib/order.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/order.c b/lib/order.c
index 9496662..1e9f2f7 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -310,6 +310,12 @@ int _order_select(order* self, process* proc)
 		++proc->rows_affected;
 	}
 
+	/* a later statement may read what was selected into a file */
+	if (self->out_file != stdout && fflush(self->out_file)) {
+		perror("fflush");
+		return FQL_FAIL;
+	}
+
 	return 0;
 }
 
-- 
2.43.0

