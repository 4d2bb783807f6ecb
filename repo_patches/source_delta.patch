From 72c3ac703abc3137593cc8b7bfa3231632a66ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 01/38] fix: STR_ITERATE_END and str_pool_readonly did not work
 on string pools

STR_ITERATE_END named a function that does not exist, and the macro
str_pool_readonly passed the pool itself to hsh_readonly.
---
 maa/export.sym |  1 +
 maa/maa.h      |  4 ++--
 maa/string.c   | 11 +++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..07c845f 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int  str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index 97cfe97..86960e3 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -174,6 +174,17 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the |readonly| flag for the |pool| to the
+   value of |flag|, and returns the previous value of the flag.  See
+   |hsh_readonly|. */
+
+int str_pool_readonly( str_Pool pool, int flag )
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly( p->hash, flag );
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From 7c8c8321bc2cd16338e3c967e01532d8797da1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 02/38] fix: lookups during hsh_iterate made the traversal skip
 or repeat pairs

Self-organization in hsh_retrieve reordered the bucket being traversed.
It is now suspended while hsh_iterate or hsh_iterate_arg is running.
---
 maa/hash.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..afb28e0 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -55,6 +55,7 @@ typedef struct table {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           iterating;	/* number of hsh_iterate calls in progress */
 } *tableType;
 
 static void _hsh_check(tableType t, const char *function)
@@ -95,6 +96,7 @@ static hsh_HashTable _hsh_create(
 	t->hash       = hash ? hash : hsh_string_hash;
 	t->compare    = compare ? compare : hsh_string_compare;
 	t->readonly   = 0;
+	t->iterating  = 0;
 
 	for (i = 0; i < prime; i++) t->buckets[i] = NULL;
 
@@ -314,7 +316,7 @@ const void *hsh_retrieve(hsh_HashTable table,
 			if (!t->compare(pt->key, key)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!t->readonly && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -345,16 +347,21 @@ int hsh_iterate(hsh_HashTable table,
 	bucketType    next;		/* Save, because pt might vanish. */
 
 	_hsh_check(t, __func__);
-   
+
+	/* A lookup made by the iterator must not reorder the buckets. */
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum))
+				if (iterator(pt->key, pt->datum)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
@@ -378,15 +385,19 @@ int hsh_iterate_arg(hsh_HashTable table,
 
 	_hsh_check(t, __func__);
 
+	++t->iterating;
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum, arg))
+				if (iterator(pt->key, pt->datum, arg)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
-- 
2.43.0


From 5aff288f0bf0acfc11aed8ab04d70b0fe212dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 03/38] fix: set_add and set_del of a set with itself used
 freed buckets

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index c338d15..6f983c3 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -499,6 +499,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* growth would free the buckets traversed */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -537,9 +539,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;	/* Save, because set1 may be set2. */
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next;
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From ba997ec2d2ef7595f257a92642d35317710e07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 04/38] fix: set_inter, set_diff and set_equal left their
 second set readonly when memory ran out

---
 maa/set.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/maa/set.c b/maa/set.c
index 6f983c3..be3b5f4 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -332,6 +332,22 @@ int set_member(set_Set set, const void *elem)
 	return 0;
 }
 
+/* Same as |set_member|, but |set| is not reorganized.  The set is readonly
+   only while it is searched, so that it is never left readonly if the
+   caller does not return because memory is exhausted. */
+
+static int _set_member_readonly(setType t, const void *elem)
+{
+	int savedReadonly = t->readonly;
+	int retval;
+
+	t->readonly = 1;
+	retval = set_member(t, elem);
+	t->readonly = savedReadonly;
+
+	return retval;
+}
+
 /* \doc |set_iterate| is used to iterate a function over every |elem| in
    the |set|.  The function, |iterator|, is passed each |elem|.  If
    |iterator| returns a non-zero value, the iterations stop, and
@@ -608,7 +624,6 @@ set_Set set_inter(set_Set set1, set_Set set2)
 	setType       t2 = (setType)set2;
 	set_Set       set;
 	unsigned long i;
-	int           savedReadonly;
 
 	_set_check(t1, __func__);
 	_set_check(t2, __func__);
@@ -623,18 +638,15 @@ set_Set set_inter(set_Set set1, set_Set set2)
 
 	set = set_create(t1->hash, t1->compare);
 
-	savedReadonly = t2->readonly;
-	t2->readonly  = 1;		/* save time on set_member */
 	for (i = 0; i < t1->prime; i++) {
 		if (t1->buckets[i]) {
 			bucketType pt;
 	 
 			for (pt = t1->buckets[i]; pt; pt = pt->next)
-				if (set_member(t2, pt->elem))
+				if (_set_member_readonly(t2, pt->elem))
 					set_insert(set, pt->elem);
 		}
 	}
-	t2->readonly = savedReadonly;
 
 	return set;
 }
@@ -651,7 +663,6 @@ set_Set set_diff(set_Set set1, set_Set set2)
 	setType       t2 = (setType)set2;
 	set_Set       set;
 	unsigned long i;
-	int           savedReadonly;
 
 	_set_check(t1, __func__);
 	_set_check(t2, __func__);
@@ -666,18 +677,15 @@ set_Set set_diff(set_Set set1, set_Set set2)
 
 	set = set_create(t1->hash, t1->compare);
 
-	savedReadonly = t2->readonly;
-	t2->readonly  = 1;		/* save time on set_member */
 	for (i = 0; i < t1->prime; i++) {
 		if (t1->buckets[i]) {
 			bucketType pt;
 	 
 			for (pt = t1->buckets[i]; pt; pt = pt->next)
-				if (!set_member(t2, pt->elem))
+				if (!_set_member_readonly(t2, pt->elem))
 					set_insert(set, pt->elem);
 		}
 	}
-	t2->readonly = savedReadonly;
 
 	return set;
 }
@@ -692,7 +700,6 @@ int set_equal(set_Set set1, set_Set set2)
 	setType       t1 = (setType)set1;
 	setType       t2 = (setType)set2;
 	unsigned long i;
-	int           savedReadonly;
 
 	_set_check(t1, __func__);
 	_set_check(t2, __func__);
@@ -707,20 +714,15 @@ int set_equal(set_Set set1, set_Set set2)
 
 	if (t1->entries != t2->entries) return 0; /* not equal */
 
-	savedReadonly = t2->readonly;
-	t2->readonly  = 1;		/* save time on set_member */
 	for (i = 0; i < t1->prime; i++) {
 		if (t1->buckets[i]) {
 			bucketType pt;
 	 
 			for (pt = t1->buckets[i]; pt; pt = pt->next)
-				if (!set_member(t2, pt->elem)) {
-					t2->readonly = savedReadonly;
+				if (!_set_member_readonly(t2, pt->elem))
 					return 0; /* not equal */
-				}
 		}
 	}
-	t2->readonly = savedReadonly;
 
 	return 1;			/* equal */
 }
-- 
2.43.0


From 3ed1e581193e80e345436a2cd9668948ed4a7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/38] fix: lst_truncate ran off the end of the list for
 lengths above 1

---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..400bd83 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; d = d->next) ++i;
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From 4420bc0a668d5c1cbaaf09e83a26df2493bde852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 06/38] fix: truncated lists had a wrong length if memory ran
 out meanwhile

---
 maa/list.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maa/list.c b/maa/list.c
index 400bd83..af53ba5 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -299,16 +299,14 @@ void lst_truncate(lst_List list, unsigned int length)
 		d->next = NULL;
 		l->tail = d;
 	}
+	l->count = length;
 
 	/* Free truncated portion of list */
 	while (next) {
 		dataType tmp = next->next;
 		mem_free_object(mem, next);
 		next = tmp;
-		--l->count;
 	}
-
-	assert(l->count == length);
 }
 
 /* \doc |lst_truncate_position| truncates a list beyond |position| (i.e.,
@@ -337,15 +335,19 @@ void lst_truncate_position(lst_List list, lst_Position position)
 		l->tail = d;
 	}
 
+	/* Adjust count first: mem_free_object does not return if memory is
+	   exhausted */
+	for (d = next; d; d = d->next) --l->count;
+
 	/* Free truncated portion of list */
 	while (next) {
 		dataType tmp = next->next;
 		mem_free_object(mem, next);
 		next = tmp;
-		--l->count;
 	}
 }
 
+
 /* \doc |lst_iterate| is used to iterate a function over every element in
    the |list|.  The function, |iterator|, is passed a pointer to each
    element.  If |iterator| returns a non-zero value, the iterations stop,
-- 
2.43.0


From d74597ca0a701f9518bb5373f372e769c857dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 07/38] fix: mem_strncpy did not terminate the copy and read
 beyond the string

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From eebf1fbba0d53b20b44ec752524d40c647342c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 08/38] fix: stk_push did not check for exhausted memory

---
 maa/stack.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..f926e78 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
@@ -92,7 +92,8 @@ void *stk_pop(stk_Stack stack)
 		datum = __UNCONST(old->datum); /* Discard const */
 		s->data = s->data->prev;
 
-		free(old);
+		xfree(old);
+
 	}
 
 	return datum;
-- 
2.43.0


From 5a7ff9bbda0490a280cbc6df39c4f2d68d70c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 09/38] fix: arg_add, arg_addn and arg_finish recorded a larger
 vector before it was allocated

---
 maa/arg.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/maa/arg.c b/maa/arg.c
index 7562c6c..f7803a4 100644
--- a/maa/arg.c
+++ b/maa/arg.c
@@ -99,8 +99,10 @@ arg_List arg_add(arg_List arg, const char *string)
    
 	_arg_check(a, __func__);
 	new = mem_strcpy(a->object, string);
-	if (a->argm <= a->argc + 2)
-		a->argv = xrealloc(a->argv, sizeof(char **) * (a->argm *= 2));
+	if (a->argm <= a->argc + 2) {
+		a->argv = xrealloc(a->argv, sizeof(char **) * a->argm * 2);
+		a->argm *= 2;
+	}
 
 	a->argv[a->argc++] = (char *)__UNCONST(new); /* discard const */
 	a->argv[a->argc]   = NULL;
@@ -118,8 +120,10 @@ arg_List arg_addn(arg_List arg, const char *string, int length)
    
 	_arg_check(a, __func__);
 	new = mem_strncpy(a->object, string, length);
-	if (a->argm <= a->argc + 2)
-		a->argv = xrealloc(a->argv, sizeof(char **) * (a->argm *= 2));
+	if (a->argm <= a->argc + 2) {
+		a->argv = xrealloc(a->argv, sizeof(char **) * a->argm * 2);
+		a->argm *= 2;
+	}
    
 	a->argv[a->argc++] = (char *)__UNCONST(new); /* discard const */
 	a->argv[a->argc]   = NULL;
@@ -150,8 +154,10 @@ arg_List arg_finish(arg_List arg)
    
 	_arg_check(a, __func__);
 	new = mem_finish(a->object);
-	if (a->argm <= a->argc + 2)
-		a->argv = xrealloc(a->argv, sizeof(char **) * (a->argm *= 2));
+	if (a->argm <= a->argc + 2) {
+		a->argv = xrealloc(a->argv, sizeof(char **) * a->argm * 2);
+		a->argm *= 2;
+	}
    
 	a->argv[a->argc++] = (char *)__UNCONST(new); /* discard const */
 	a->argv[a->argc]   = NULL;
-- 
2.43.0


From 536156585257939ce96252553e841d720dd84b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 10/38] fix: a string being grown was lost when memory ran out

---
 maa/memory.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..7112051 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -40,6 +40,7 @@ typedef struct stringInfo {
 	int            count;
 	int            bytes;
 	int            growing_size;
+	char          *growing;	/* not in allocated until mem_finish */
 	stk_Stack      allocated;
 } *stringInfo;
 
@@ -87,6 +88,7 @@ mem_String mem_create_strings(void)
 	info->bytes   = 0;
 	info->allocated = stk_create();
 	info->growing_size = 0;
+	info->growing = NULL;
 
 	return info;
 }
@@ -109,6 +111,7 @@ void mem_destroy_strings(mem_String info)
 		xfree(stk_pop(i->allocated));
 	}
 
+	if (i->growing) xfree(i->growing);
 	stk_destroy(i->allocated);
 	xfree(i);			/* terminal */
 }
@@ -166,23 +169,14 @@ const char *mem_strncpy(mem_String info,
 void mem_grow(mem_String info, const char *string, int len)
 {
 	stringInfo i = (stringInfo)info;
-	void *p;
 
 	_mem_magic_strings(i, __func__);
 
-	i->bytes += len;
-
-	if (i->growing_size){
-		p = stk_pop(i->allocated);
-		p = xrealloc(p, i->growing_size + len);
-	}else{
-		p = xmalloc(len);
-	}
+	i->growing = xrealloc(i->growing, i->growing_size + len + 1);
 
-	memcpy((char *)p + i->growing_size, string, len);
+	memcpy(i->growing + i->growing_size, string, len);
 	i->growing_size += len;
-
-	stk_push(i->allocated, p);
+	i->bytes += len;
 }
 
 /* \doc |mem_finish| finishes the growth of the object performed by
@@ -194,15 +188,20 @@ const char *mem_finish(mem_String info)
    
 	_mem_magic_strings(i, __func__);
 
-	mem_grow(i, "", 1);
-
-	++i->count;
+	if (!i->growing) mem_grow(i, "", 0);
+	stk_push(i->allocated, i->growing);
 
+	i->growing[i->growing_size] = '\0';
+	i->growing = NULL;
 	i->growing_size = 0;
 
+	++i->count;
+	++i->bytes;
+
 	return (char *) stk_top(i->allocated);
 }
 
+
 /* \doc |mem_get_string_stats| returns statistics about the memory object
    pointed to by |info|.  The |mem_StringStats| structure is shown in
    \grind{mem_StringStats}. */
-- 
2.43.0


From dd7a999c7b3adf15de2973097816fc2ad55283f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 11/38] fix: stopping str_pool_iterate early left the string
 pool readonly

---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 86960e3..600916e 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From f0cc2881a826c898c026b04b2a20421cac593f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 12/38] fix: str_pool_finish did not return the string already
 in the pool

---
 maa/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 600916e..f3b1592 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -234,9 +234,10 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *found;
 
-	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
+	if ((found = hsh_retrieve( p->hash, datum ))) return found;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From 4ac5ecdd92817b782de5f0650691787aadedb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 13/38] fix: str_exists, str_unique and str_copyn crashed
 before the global pool existed

---
 maa/string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index f3b1592..daeb494 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -301,6 +301,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -349,7 +350,9 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
+
 }
 
 /* \doc |str_grow| will grow a string until |str_finish| is called.  There
-- 
2.43.0


From 2bdce07fd0b557bb584999d70bd9f3ed4fa9c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 14/38] fix: timers dropped fractions of a second

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From bb8864a8bc1a66075445f1d0ab09776d82f074b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 15/38] fix: maa_shutdown left concrete symbols pointing into
 the freed string pool

---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From 8a0c9dcebd6b3bc4405b4b64beacd253712701cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 16/38] fix: maa_shutdown aborted if called twice or before
 maa_init

---
 maa/maa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maa/maa.c b/maa/maa.c
index 43d9df8..035b5e9 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -29,12 +29,15 @@
 #include "maaP.h"
 #include "maa.h"
 
+static int initialized;
+
 /* \doc |maa_init| should be called at the start of "main()", and serves to
    initialize debugging and other support for \libmaa. */
 
 void maa_init(const char *programName)
 {
 	tim_start("total");
+	initialized = 1;
    
 	err_set_program_name(programName);
 
@@ -61,7 +64,8 @@ void maa_shutdown(void)
 	_lst_shutdown();
 	_sl_shutdown();
 
-	tim_stop("total");
+	if (initialized) tim_stop("total");
+	initialized = 0;
 	if (dbg_test(MAA_TIME)) {
 		tim_print_timers(stderr);
 	}
-- 
2.43.0


From cadf641e142d9fd04318434888755592a855e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 17/38] fix: src_destroy left counters that overflowed the next
 line table

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..42a862b 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Used = Count = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 01ab6e7600602afcbff37fe578abe9aecdca9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 18/38] fix: the source manager was left inconsistent when
 memory ran out

---
 maa/source.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 42a862b..b082820 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -64,9 +64,11 @@ void src_create(void)
 	if (Lines)
 		err_fatal(__func__, "Source manager already created");
 
-	Lines      = xmalloc((Count = INCREMENT) * sizeof(char *));
-	StringHeap = mem_create_strings();
-	InfoHeap   = mem_create_objects(sizeof(struct source));
+	/* Lines is last: it tells that the source manager exists */
+	if (!StringHeap) StringHeap = mem_create_strings();
+	if (!InfoHeap) InfoHeap = mem_create_objects(sizeof(struct source));
+	Lines = xmalloc(INCREMENT * sizeof(char *));
+	Count = INCREMENT;
 }
 
 /* \doc |src_destroy| frees all memory associated with the global source
@@ -74,10 +76,10 @@ void src_create(void)
 
 void src_destroy(void)
 {
-	if (!Lines) return;
-	mem_destroy_objects(InfoHeap);
-	mem_destroy_strings(StringHeap);
-	xfree(Lines);		/* terminal */
+	/* Only some of these exist if memory was exhausted in src_create */
+	if (InfoHeap) mem_destroy_objects(InfoHeap);
+	if (StringHeap) mem_destroy_strings(StringHeap);
+	if (Lines) xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
 	Used = Count = 0;
 	memset(&Info, 0, sizeof(Info));
@@ -88,22 +90,27 @@ void src_destroy(void)
 const char *src_line(const char *line, int len)
 {
 	char *pt;
+	const char *copy;
    
 	if (!Lines) src_create();
    
+	/* Allocate before anything changes, in case memory is exhausted */
+	if (Used + 1 >= Count) {
+		Lines = xrealloc(Lines, (Count + INCREMENT) * sizeof(char *));
+		Count += INCREMENT;
+	}
+	copy = mem_strncpy(StringHeap, line, len);
+	for (pt = (char*)__UNCONST(copy); *pt; pt++) if (*pt == '\t') *pt = ' ';
+   
 	++Info.line;
 	Info.index  = Used;
 	Info.offset = 0;
+	Lines[Used++] = copy;
    
-	Lines[Used] = mem_strncpy(StringHeap, line, len);
-	for (pt = (char*)__UNCONST(Lines[Used]); *pt; pt++) if (*pt == '\t') *pt = ' ';
-   
-	PRINTF(MAA_SRC,("Line %d: %s",Used,Lines[Used]));
+	PRINTF(MAA_SRC,("Line %d: %s",Used - 1,copy));
    
-	if (++Used >= Count)
-		Lines = xrealloc(Lines, (Count += INCREMENT) * sizeof(char *));
-   
-	return Lines[ Used - 1 ];
+	return copy;
+
 }
 
 /* \doc |src_new_file| specifies that |filename| is the name of the current
-- 
2.43.0


From deb30e2202ddc2935f0a040ceb3562b7a55de61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 19/38] fix: src_parse_error overran its buffer and messages
 without a closing quote

---
 maa/source.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index b082820..e176648 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -319,7 +319,7 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
+	char       *buf;
 	char       *b;
 	const char *concrete;
 
@@ -330,6 +330,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		return;
 	}
 
+	buf = xmalloc(strlen(message) + 1);
 	for (pt = message; *pt; pt++) {
 		if (*pt == '`') {		/* clean up character constants */
 			if (pt[1] == '`' && pt[2] && pt[3] == '\'' && pt[4] == '\'') {
@@ -342,11 +343,14 @@ static void _src_print_yyerror(FILE *str, const char *message)
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				if (!*pt) break;	/* no closing quote */
 			} else
 				putc(*pt, str);
 		} else
 			putc(*pt, str);
 	}
+	xfree(buf);
+
 }
 
 /* \doc |src_print_line| prints a line of source code, as described by
-- 
2.43.0


From b2fd7c470912ec110cd6fa4e0f77781eab26ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 20/38] fix: src_print_error and src_print_message crashed with
 a NULL stream

---
 maa/source.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index e176648..c74a13d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -416,11 +416,11 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
-
+	FILE       *str = stream ? stream : stdout;
 	fflush(str);
 	if (format) {
 		if (s)
@@ -438,11 +438,11 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 
 /* \doc |src_print_message| will just print a message labeled with a line. */
 
-void src_print_message(FILE *str, src_Type source, const char *format, ...)
+void src_print_message(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
-
+	FILE       *str = stream ? stream : stdout;
 	fflush(str);
 	if (format) {
 		if (s)
-- 
2.43.0


From edf454128324866c493ff2d0e16220c6ea852fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 21/38] fix: pr_filter never ended when the input was empty

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..60b909f 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -316,6 +316,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {			/* otherwise closed when flushed */
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From be6bcafba15eaab175c58347d4ed5a8b462511bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 22/38] fix: a signal during pr_filter was a fatal error

---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 60b909f..2710067 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -336,7 +336,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno == EINTR) break;
+				err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-- 
2.43.0


From f4fcff54f876f575851f0c3b708d7adbecfd78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 23/38] fix: pr_readwrite overran its descriptor sets for
 descriptors beyond FD_SETSIZE

---
 maa/pr.c | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 2710067..352e60c 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -35,6 +35,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/param.h>
 #include <sys/wait.h>
 
@@ -289,9 +290,7 @@ int pr_readwrite(int in, int out,
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
 	int            outLen = 0;
-	fd_set         rfds, wfds, efds;
-	struct timeval tv;
-	int            n;
+	struct pollfd  fds[2];	/* no limit on descriptors, unlike select(2) */
 	int            count;
 	int            retval;
 	int            status;
@@ -314,27 +313,18 @@ int pr_readwrite(int in, int out,
 #endif
 	fcntl(out, F_SETFL, flags);
 
-	n = max(in, out) + 1;
-
-	if (!inLen) {			/* otherwise closed when flushed */
+	if (!inLen)			/* otherwise closed when flushed */
 		pr_close_nowait(in);
-		n = out + 1;
-	}
 
 	for (;;) {
-		tv.tv_sec  = 5;
-		tv.tv_usec = 0;
-		FD_ZERO(&rfds);
-		FD_ZERO(&wfds);
-		FD_ZERO(&efds);
-		FD_SET(out, &rfds);
-		FD_SET(out, &efds);
-		if (inLen) {
-			FD_SET(in, &wfds);
-			FD_SET(in, &efds);
-		}
+		fds[0].fd      = out;
+		fds[0].events  = POLLIN;
+		fds[0].revents = 0;
+		fds[1].fd      = in;
+		fds[1].events  = POLLOUT;
+		fds[1].revents = 0;
    
-		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
+		switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))
 		{
 			case -1:
 				if (errno == EINTR) break;
@@ -343,15 +333,13 @@ int pr_readwrite(int in, int out,
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-					printf("select(2) returns %d,"
+					printf("poll(2) returns %d,"
 						   " inLen = %d, outLen = %d, outMaxLen = %d\n",
 						   retval, inLen, outLen, outMaxLen);
-					if (FD_ISSET(in, &rfds))  printf("  in/read\n");
-					if (FD_ISSET(out, &rfds)) printf("  out/read\n");
-					if (FD_ISSET(in, &wfds))  printf("  in/write\n");
-					if (FD_ISSET(out, &wfds)) printf("  out/write\n");
-					if (FD_ISSET(in, &efds))  printf("  in/error\n");
-					if (FD_ISSET(out, &efds)) printf("  out/error\n");
+					if (fds[0].revents & POLLIN)  printf("  out/read\n");
+					if (fds[1].revents & POLLOUT) printf("  in/write\n");
+					if (fds[1].revents & ~POLLOUT) printf("  in/error\n");
+					if (fds[0].revents & ~POLLIN) printf("  out/error\n");
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
@@ -361,10 +349,9 @@ int pr_readwrite(int in, int out,
 						PRINTF(MAA_PR,("  wrote %d\n",count));
 						inLen -= count;
 						inPt  += count;
-						if (!inLen) {
+						if (!inLen)
 							pr_close_nowait(in);
-							n = out + 1;
-						}
+
 					}
 				}
 				if ((count = read(out, outPt, outMaxLen)) <= 0) {
-- 
2.43.0


From b9c71d8942fd1e34d8b7bc674f07f114d64795ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 24/38] fix: coprocess streams were mixed up if the caller had
 closed standard streams

---
 maa/pr.c | 74 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 352e60c..77d01e7 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -110,6 +110,27 @@ void _pr_shutdown(void)
 }
 
 
+/* If the caller has closed some of its standard streams, pipe(2) may
+   return their descriptors, which would then collide with the standard
+   streams of the child.  Therefore, move them out of the way. */
+
+static int _pr_pipe(int fds[2])
+{
+	int i;
+	int fd;
+
+	if (pipe(fds) < 0) return -1;
+
+	for (i = 0; i < 2; i++) {
+		if (fds[i] > STDERR_FILENO) continue;
+		if ((fd = fcntl(fds[i], F_DUPFD, STDERR_FILENO + 1)) < 0) return -1;
+		close(fds[i]);
+		fds[i] = fd;
+	}
+
+	return 0;
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -148,11 +169,11 @@ int pr_open2(const char *command, void(*callback)(void),
 	arg_get_vector(list, &argc, &argv);
 	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
 
-	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
+	if ((flags & PR_CREATE_STDIN) && _pr_pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
-	if ((flags & PR_CREATE_STDOUT) && pipe(fdout) < 0)
+	if ((flags & PR_CREATE_STDOUT) && _pr_pipe(fdout) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdout");
-	if ((flags & PR_CREATE_STDERR) && pipe(fderr) < 0)
+	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
 	if ((pid = fork()) < 0)
@@ -160,25 +181,28 @@ int pr_open2(const char *command, void(*callback)(void),
 
 	if (pid == 0) {		/* child */
 		int        i;
+		int        source[3];	/* new standard streams, or -1 */
 
 		if (callback)
 			callback();
 
-#define CHILD(CREATE,USE,fds,writefd,readfd,fd,FILENO,flag)		\
-		if (flags & CREATE) {									\
-			close(fds[writefd]);                                \
-			dup2(fds[readfd], FILENO);                          \
-			close(fds[readfd]);                                 \
-		} else if (flags & USE) {								\
-			if (fd && *fd) {									\
-				dup2(*fd, FILENO);								\
-				close(*fd);										\
-			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
-					dup2(null, FILENO);							\
-					close(null);								\
-				}												\
-			}													\
+		/* All sources are above the standard descriptors, so that no
+		   stream is overwritten before it is used. */
+#define CHILD(CREATE,USE,fds,writefd,readfd,fd,FILENO,flag)			\
+		source[FILENO] = -1;										\
+		if (flags & CREATE) {										\
+			close(fds[writefd]);									\
+			source[FILENO] = fds[readfd];							\
+		} else if (flags & USE) {									\
+			if (fd && *fd) {										\
+				source[FILENO] = fcntl(*fd, F_DUPFD, STDERR_FILENO + 1); \
+			} else {												\
+				if ((null = open("/dev/null", flag)) >= 0) {		\
+					source[FILENO] = fcntl(null, F_DUPFD,			\
+										   STDERR_FILENO + 1);		\
+					close(null);									\
+				}													\
+			}														\
 		}
       
 		CHILD(PR_CREATE_STDIN, PR_USE_STDIN, fdin, 1, 0, infd,
@@ -190,6 +214,20 @@ int pr_open2(const char *command, void(*callback)(void),
       
 #undef CHILD
 
+		for (i = 0; i < 3; i++) {
+			if (source[i] < 0) continue;
+			dup2(source[i], i);
+			close(source[i]);
+		}
+
+#define CLOSE(USE,fd)											\
+		if ((flags & USE) && fd && *fd > STDERR_FILENO) close(*fd)
+
+		CLOSE(PR_USE_STDIN,  infd);
+		CLOSE(PR_USE_STDOUT, outfd);
+		CLOSE(PR_USE_STDERR, errfd);
+
+#undef CLOSE
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-- 
2.43.0


From b6837b35175792e1733c01aa9686a29f917dca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 25/38] fix: children already waited for were killed or waited
 for again

---
 maa/pr.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 77d01e7..7087306 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -41,6 +41,7 @@
 
 typedef struct _pr_Obj {
 	int pid;
+	int waited;				/* pid is gone and may belong to another process */
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
@@ -98,11 +99,11 @@ void _pr_shutdown(void)
 	if (_pr_objects) {
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
-			if (_pr_objects[i].pid) {
+			if (_pr_objects[i].pid && !_pr_objects[i].waited) {
 				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
 				pr_wait(_pr_objects[i].pid);
-				_pr_objects[i].pid = 0;
 			}
+			_pr_objects[i].pid = 0;
 		}
 		xfree(_pr_objects);
 		_pr_objects = NULL;
@@ -243,6 +244,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		close(fds[ readfd ]);                               \
 		*fd = fds[ writefd ];								\
 		_pr_objects[ *fd ].pid = pid;						\
+		_pr_objects[ *fd ].waited = 0;						\
 		PRINTF(MAA_PR,(name " = %d; ",*fd));				\
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
@@ -267,6 +269,18 @@ int pr_open2(const char *command, void(*callback)(void),
 	return pid;
 }
 
+/* Remember that |pid| must not be waited for or killed any more, although
+   descriptors of it may still be open. */
+
+static void _pr_set_waited(int pid)
+{
+	int i;
+
+	if (!_pr_objects) return;
+	for (i = 0; i < max_fd(); i++)
+		if (_pr_objects[i].pid == pid) _pr_objects[i].waited = 1;
+}
+
 int pr_wait(int pid)
 {   
 	int exitStatus = 0;
@@ -276,13 +290,17 @@ int pr_wait(int pid)
    
 	while (waitpid(pid, &status, 0) < 0) {
 		if (errno != EINTR) {
-			if (errno == ECHILD) return 0;	/* We've already waited */
+			if (errno == ECHILD) {	/* We've already waited */
+				_pr_set_waited(pid);
+				return 0;
+			}
 			/* This is really bad... */
 			PRINTF(MAA_PR,("waitpid() < 0, errno = %d\n", errno));
 			perror(__func__);
 			return -1;
 		}
 	}
+	_pr_set_waited(pid);
    
 	if (WIFEXITED(status))
 		exitStatus |= WEXITSTATUS(status);
@@ -315,9 +333,10 @@ int pr_close_nowait(int fd)
 
 int pr_close(int fd)
 {
+	int waited = _pr_objects && _pr_objects[ fd ].waited;
 	int pid = pr_close_nowait(fd);
    
-	return pr_wait(pid);
+	return waited ? 0 : pr_wait(pid);
 }
 
 int pr_readwrite(int in, int out,
-- 
2.43.0


From ce1374f58c82e555458ba65b364106154f8741d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 26/38] fix: pr_spawn leaked pipe ends of coprocesses to the
 command

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 7087306..e077ed4 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -465,6 +465,11 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
+		int i;
+
+		for (i = 0; i < max_fd(); i++)
+			if (_pr_objects[i].pid > 0) close(i);
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 355dcf7d8a5b77d777bca27853775e1ed6208d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 27/38] fix: an empty command crashed the child instead of
 failing with 127

---
 maa/pr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index e077ed4..66a970c 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -235,7 +235,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		for (i = 0; i < max_fd(); i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
-		execvp(argv[0], argv);
+		if (argv[0]) execvp(argv[0], argv);
 		_exit(127);
 	}
 	/* parent */
@@ -470,7 +470,7 @@ int pr_spawn(const char *command)
 		for (i = 0; i < max_fd(); i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
-		execvp(argv[0], argv);
+		if (argv[0]) execvp(argv[0], argv);
 		_exit(127);
 	}
    
-- 
2.43.0


From 5b05bfad4d94bd3dbfa381a8bd3f196f555ac101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 28/38] fix: the log file lost the rest of a message after a
 short write

---
 maa/log.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..3e57c02 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -335,8 +335,18 @@ static void _log_base_va(
 
 		/* writing */
 		if (logFd >= 0) {
+			const char *pt = buf;
+			size_t     len = strlen (buf);
+			ssize_t    count;
+
 			_log_check_filename();
-			while (-1 == write (logFd, buf, strlen (buf)) && errno == EINTR);
+			while (len) {
+				if ((count = write (logFd, pt, len)) > 0) {
+					pt  += count;
+					len -= count;
+				} else if (!count || errno != EINTR)
+					break;
+			}
 		}
 		if (logUserStream) {
 			fseek(logUserStream, 0L, SEEK_END); /* might help if luser didn't
-- 
2.43.0


From 1371fc7744c5b1f0aacb76c9eb2da3c4407a0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 29/38] fix: a log file that could not be opened or rotated was
 not cleaned up

---
 maa/log.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 3e57c02..ef5bd1c 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -212,6 +212,7 @@ static void _log_check_filename(void)
 	if (strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
+		logFd = -1;
 		log_mkpath(logFilename);
 		if ((logFd = open(logFilename, O_WRONLY|O_CREAT|O_APPEND, 0644)) < 0)
 			err_fatal_errno(__func__,
@@ -234,17 +235,19 @@ void log_file(const char *ident, const char *filename)
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
 		logFilename[0]  = '\0';
 
+		++logOpen;
+
 		_log_check_filename();
 		_log_set_hostname();
-
-		++logOpen;
 	}else{
-		if (logFd < 0)
+		/* No descriptor, but a filename, if it could not be opened */
+		if (logFd < 0 && !logFilename)
 			return;
 
-		close (logFd);
+		if (logFd >= 0) close (logFd);
 		logFd          = -1;
 
+
 		if (logFilename) xfree (logFilename);
 		logFilename    = NULL;
 
-- 
2.43.0


From a64d90f34a90e739fa8f8da9fc4c9be463d835a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 30/38] fix: log settings pointed into the string pool, even
 after it was destroyed

---
 maa/log.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index ef5bd1c..d4fce8e 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,8 +45,8 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -220,20 +220,36 @@ static void _log_check_filename(void)
 	}
 }
 
+/* Free the identity if neither the file nor the stream need it */
+
+static void _log_free_ident(void)
+{
+	if (logFilename || logUserStream) return;
+	if (logIdent) xfree(logIdent);
+	logIdent = NULL;
+}
+
 void log_file(const char *ident, const char *filename)
 {
+	char *identCopy;
+
 	if (ident && filename){
 		if (logFd >= 0)
 			err_internal(__func__,
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		log_file(NULL, NULL);	/* if the last one could not be opened */
+
+		/* Copies, because the string pool might be destroyed meanwhile */
+		identCopy       = xstrdup(ident);
+		logFilenameOrig = xstrdup(filename);
 		logFilenameLen  = strlen(filename)*3+1024;
-		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
+		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilename[0]  = '\0';
+		if (logIdent) xfree(logIdent);
+		logIdent        = identCopy;
 
 		++logOpen;
 
@@ -254,20 +270,28 @@ void log_file(const char *ident, const char *filename)
 		if (logFilenameTmp) xfree (logFilenameTmp);
 		logFilenameTmp = NULL;
 
+		if (logFilenameOrig) xfree (logFilenameOrig);
+		logFilenameOrig = NULL;
+
 		logFilenameLen = 0;
 
 		--logOpen;
+		_log_free_ident();
 	}
 }
 
 void log_stream(const char *ident, FILE *stream)
 {
+	char *identCopy;
+
 	if (ident && stream){
 		if (logUserStream)
 			err_internal(__func__, "User stream already open");
 
+		identCopy     = xstrdup(ident);
 		logUserStream = stream;
-		logIdent      = str_find(ident);
+		if (logIdent) xfree(logIdent);
+		logIdent      = identCopy;
 
 		_log_set_hostname();
 		++logOpen;
@@ -284,6 +308,8 @@ void log_stream(const char *ident, FILE *stream)
 		logUserStream = NULL;
 
 		--logOpen;
+		_log_free_ident();
+
 	}
 }
 
-- 
2.43.0


From 00db1c7fcb166d4de4e2ad07db620bfb54e81a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 31/38] fix: log file names longer than the buffer made from
 the pattern

strftime(3) returned 0, and an undefined, unterminated name was used.
---
 maa/log.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index d4fce8e..b4f9b02 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -208,7 +208,14 @@ static void _log_check_filename(void)
 	time(&t);
 	tm = localtime(&t);
    
-	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
+	if (!strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm)) {
+		/* The contents are undefined, and no file has such a long name */
+		if (logFd >= 0) close(logFd);
+		logFd = -1;
+		errno = *logFilenameOrig ? ENAMETOOLONG : ENOENT;
+		err_fatal_errno(__func__,
+						 "Cannot open \"%s\" for append", logFilenameOrig);
+	}
 	if (strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
@@ -244,7 +251,8 @@ void log_file(const char *ident, const char *filename)
 		/* Copies, because the string pool might be destroyed meanwhile */
 		identCopy       = xstrdup(ident);
 		logFilenameOrig = xstrdup(filename);
-		logFilenameLen  = strlen(filename)*3+1024;
+		logFilenameLen  = MAXPATHLEN;
+
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilename[0]  = '\0';
-- 
2.43.0


From 334dd8d377aed57ed38e40c1d2ffd71ca6384d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 32/38] fix: dbg_set accepts only + and - in front of a
 registered name

---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..ef251f9 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -141,9 +141,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From 64f48692c2257d0aa4711ecbd4cb93f43e8b3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 33/38] fix: dbg_test and flg_test look at the right set for
 flags with only the top bit

---
 maa/debug.c | 2 +-
 maa/flags.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index ef251f9..2f6344d 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,7 +38,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30) & 1)                            \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..2d67908 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,7 +37,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30) & 1)                                  \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
-- 
2.43.0


From 035a138f56b08514640f21ec73201a48aca0ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 34/38] fix: coprocesses of a program that raises its limit of
 descriptors

The table of descriptors had as many elements as the limit allowed when it
was created, so that greater descriptors were recorded outside of it.
pr_close and pr_close_nowait also looked up foreign descriptors outside of it.
---
 maa/pr.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 66a970c..21a7d46 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -67,10 +67,10 @@ static void _pr_check(pr_Object object, const char *function)
    1992); page 43.  The implementation here, however, is different from
    that provided by Stevens for his open_max routine. */
 
+static int maxFd = 0;
+
 static int max_fd(void)
 {
-	static int maxFd = 0;
-
 	if (maxFd) return maxFd;
 
 	if ((maxFd = sysconf(_SC_OPEN_MAX)) > 0) return maxFd;
@@ -92,6 +92,17 @@ static void _pr_init(void)
 		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
 }
 
+/* The limit of descriptors may be greater than it was in |_pr_init|. */
+
+static void _pr_grow(int fd)
+{
+	if (fd < max_fd()) return;
+
+	_pr_objects = xrealloc(_pr_objects, (fd + 1) * sizeof(struct _pr_Obj));
+	memset(_pr_objects + maxFd, 0, (fd + 1 - maxFd) * sizeof(struct _pr_Obj));
+	maxFd = fd + 1;
+}
+
 void _pr_shutdown(void)
 {
 	int i;
@@ -177,6 +188,16 @@ int pr_open2(const char *command, void(*callback)(void),
 	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
+#define GROW(CREATE,USE,fds,end,fd)							\
+	if (flags & CREATE)                 _pr_grow(fds[ end ]);	\
+	else if ((flags & USE) && fd && *fd) _pr_grow(*fd)
+
+	GROW(PR_CREATE_STDIN,  PR_USE_STDIN,  fdin,  1, infd);
+	GROW(PR_CREATE_STDOUT, PR_USE_STDOUT, fdout, 0, outfd);
+	GROW(PR_CREATE_STDERR, PR_USE_STDERR, fderr, 0, errfd);
+
+#undef GROW
+
 	if ((pid = fork()) < 0)
 		err_fatal_errno(__func__, "Cannot fork");
 
@@ -322,7 +343,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
@@ -333,7 +354,8 @@ int pr_close_nowait(int fd)
 
 int pr_close(int fd)
 {
-	int waited = _pr_objects && _pr_objects[ fd ].waited;
+	int waited = _pr_objects && fd >= 0 && fd < max_fd()
+		&& _pr_objects[ fd ].waited;
 	int pid = pr_close_nowait(fd);
    
 	return waited ? 0 : pr_wait(pid);
-- 
2.43.0


From 301b4b7eee435948cfa2657a9bfd73087a8a8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 35/38] fix: handles of tables, sets, lists and object pools
 are checked before they are used

A null or foreign handle was used, and its supposed hash function called,
before the check of the magic number.
---
 maa/hash.c   | 9 ++++++---
 maa/list.c   | 9 +++++----
 maa/memory.c | 3 ++-
 maa/set.c    | 9 ++++++---
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index afb28e0..1fefc72 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -221,10 +221,11 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
+	hashValue = t->hash(key);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
    
@@ -270,9 +271,10 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
@@ -303,9 +305,10 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
diff --git a/maa/list.c b/maa/list.c
index af53ba5..1ecaa13 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -128,10 +128,10 @@ void lst_append(lst_List list, const void *datum)
 		return;
 
 	l = (listType)list;
-	d = mem_get_object(mem);
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
    
 	d->datum = datum;
 	d->next  = NULL;
@@ -149,10 +149,11 @@ void lst_append(lst_List list, const void *datum)
 void lst_push(lst_List list, const void *datum)
 {
 	listType l = (listType)list;
-	dataType d = mem_get_object(mem);
+	dataType d;
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
    
 	d->datum = datum;
 	d->next  = l->head;
diff --git a/maa/memory.c b/maa/memory.c
index 7112051..c7cf4b1 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -303,10 +303,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index be3b5f4..51bfd54 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,10 +226,11 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
+	hashValue = t->hash(elem);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
    
@@ -274,9 +275,10 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
@@ -305,9 +307,10 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
-- 
2.43.0


From 80e46f1235053027c27e413530f887418986ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 36/38] fix: err_fatal_errno without a routine printed a null
 string

---
 maa/error.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/error.c b/maa/error.c
index de30f4d..54b2125 100644
--- a/maa/error.c
+++ b/maa/error.c
@@ -126,8 +126,13 @@ void err_fatal_errno(const char *routine, const char *format, ...)
 
 	va_end(ap);
 
-	fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
-	log_error(routine, "%s: %s", routine, strerror(errorno));
+	if (routine) {
+		fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
+		log_error(routine, "%s: %s", routine, strerror(errorno));
+	} else {
+		fprintf(stderr, " %s\n", strerror(errorno));
+		log_error(NULL, "%s", strerror(errorno));
+	}
    
 	fflush(stderr);
 	fflush(stdout);
-- 
2.43.0


From 25e5010c210e5d25efb07ca615646c0627f857c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 37/38] fix: lookups during set_iterate made the traversal skip
 or repeat elements

A traversal by position inside the callback makes the set modifiable
again when it ends, and later lookups by the callback then reorganised
the chains being traversed.  Count the set_iterate calls in progress, as
hsh_iterate does.
---
 maa/set.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index 51bfd54..6ee7d6d 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -59,6 +59,7 @@ typedef struct set {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           iterating;	/* number of set_iterate calls in progress */
 } *setType;
 
 static void _set_check(setType t, const char *function)
@@ -95,6 +96,7 @@ static set_Set _set_create(unsigned long seed,
 	t->hash         = hash ? hash : hsh_string_hash;
 	t->compare      = compare ? compare : hsh_string_compare;
 	t->readonly     = 0;
+	t->iterating    = 0;
 
 	for (i = 0; i < t->prime; i++) t->buckets[i] = NULL;
 
@@ -321,7 +323,7 @@ int set_member(set_Set set, const void *elem)
 			if (!t->compare(pt->elem, elem)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!t->readonly && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -369,6 +371,7 @@ int set_iterate(set_Set set,
 
 	savedReadonly = t->readonly;
 	t->readonly   = 1;
+	++t->iterating;
    
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
@@ -377,12 +380,14 @@ int set_iterate(set_Set set,
 			for (pt = t->buckets[i]; pt; pt = pt->next)
 				if (iterator(pt->elem)) {
 					t->readonly = savedReadonly;
+					--t->iterating;
 					return 1;
 				}
 		}
 	}
    
 	t->readonly = savedReadonly;
+	--t->iterating;
 	return 0;
 }
 
@@ -405,6 +410,7 @@ int set_iterate_arg(set_Set set,
 
 	savedReadonly = t->readonly;
 	t->readonly   = 1;
+	++t->iterating;
    
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
@@ -413,12 +419,14 @@ int set_iterate_arg(set_Set set,
 			for (pt = t->buckets[i]; pt; pt = pt->next)
 				if (iterator(pt->elem, arg)) {
 					t->readonly = savedReadonly;
+					--t->iterating;
 					return 1;
 				}
 		}
 	}
    
 	t->readonly = savedReadonly;
+	--t->iterating;
 	return 0;
 }
 
-- 
2.43.0


From 829ee1fa587fd68787a7916004cc7810561c4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 38/38] fix: a token taken before the first line referred to a
 line never stored

---
 maa/source.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index c74a13d..ea5c861 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -184,7 +184,7 @@ src_Type src_get(int length)
 	new->line   = Info.line;
 	new->offset = Info.offset;
 	new->length = Info.length;
-	new->index  = Info.index;	/* Index into Lines array. */
+	new->index  = Used ? Info.index : -1;	/* Index into Lines array. */
 
 	if (dbg_test(MAA_SRC)) {
 		printf("%s:%d @ %d, %d; %d\n",
@@ -262,7 +262,7 @@ const char *src_source_line(src_Type source)
 	if (!Lines)
 		err_fatal(__func__, "Source manager never created");
 
-	return s ? Lines[ s->index ] : "";
+	return s && s->index >= 0 ? Lines[ s->index ] : "";
 }
 
 /* \doc |src_get_stats| returns the statistics associated with the source
@@ -362,8 +362,11 @@ void src_print_line(FILE *stream, src_Type source)
 	sourceType *s   = (sourceType *)source;
 	FILE       *str = stream ? stream : stdout;
 
-	if (s)
+	if (s && s->index >= 0)
 		fprintf(str, "%s:%d: %s", s->file, s->line, Lines[ s->index ]);
+	else if (s)
+		fprintf(str, "%s:%d: <source line not available>\n",
+				s->file, s->line);
 	else
 		fprintf(str, "?:?: <source line not available>\n");
 }
-- 
2.43.0

