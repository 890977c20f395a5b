From cfdb685ffd1de1ada7cd6e811640dc20632a53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 01/64] fix: cbuf_new_alloc with size zero made the first
 append loop forever

---
 cligen_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..d4bc488 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz ? sz : 1; /* room for terminating null, and growth doubles it */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
-- 
2.43.0


From 8b89f6e113ce1c9f63dad8f902c07b490867ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 02/64] fix: decimal64 minimum value was printed with two minus
 signs

---
 cligen_cv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..aef738b 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2281,14 +2281,14 @@ cv_dec64_print(cg_var *cv,
     int      i;
     uint8_t  n = cv->var_dec64_n;;
     int      len;
-    int64_t di;
+    uint64_t di; /* absolute value, also of INT64_MIN */
 
     assert(0<n && n<19);
     /* Convert negative numbers to positive and prepend a '-' at the end */
-    di = cv_dec64_i_get(cv);
-    if (di<0)
+    di = (uint64_t)cv_dec64_i_get(cv);
+    if (cv_dec64_i_get(cv)<0)
         di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, di);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From e43a92ce6ec9652cba49a5b322876103d1b8defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 03/64] fix: decimal64 accepted texts without digits and a sign
 or blanks in the fraction

---
 cligen_cv.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index aef738b..0b17c84 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1361,8 +1361,20 @@ parse_dec64(char    *str,
      *     | s1 | s2 |000|
      *           <---n-->
      */
-    if (s2){
+    if (s2)
         len2 = strlen(s2);
+    /* At least one digit, and only digits in the fraction */
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 && strspn(s2, "0123456789") != len2)){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
+    if (s2){
         if (len2 > n){
             if (reason != NULL)
                 if ((*reason = cligen_reason("%s has %d fraction-digits but may only have %d", str, len2, n)) == NULL){
-- 
2.43.0


From 70524704f7aaa1a7d9e5c6d15adb2f8c9a778c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 04/64] fix: cv_cmp overflowed on wide numbers and called equal
 pointers different

---
 cligen_cv.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 0b17c84..49811c9 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3492,6 +3492,9 @@ cv_validate(cligen_handle h,
     return retval;
 }
 
+/* Compare numbers: a difference would overflow or be truncated to int */
+#define cmp_num(a, b) (((a) > (b)) - ((a) < (b)))
+
 /*! Compare two CLIgen variables as strcmp(3)
  *
  * @param[in]  cv1   CLIgen variable #1
@@ -3520,20 +3523,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return cmp_num(cv1->var_int32, cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return cmp_num(cv1->var_int64, cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return cmp_num(cv1->var_uint32, cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return cmp_num(cv1->var_uint64, cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return cmp_num(cv_dec64_i_get(cv1), cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
@@ -3574,7 +3577,7 @@ cv_cmp(cg_var *cv1,
     case CGV_TIME:
         return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return cmp_num((uintptr_t)cv1->var_void, (uintptr_t)cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From eceaec05e48faf96c8fed7496e4b28eea57bc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 05/64] fix: cv_print gave wrong IPv6 prefix lengths and MAC
 bytes above 0x7f

---
 cligen_cv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 49811c9..ae367a4 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2682,16 +2682,16 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                (uint8_t)cv->var_macaddr[0],
+                (uint8_t)cv->var_macaddr[1],
+                (uint8_t)cv->var_macaddr[2],
+                (uint8_t)cv->var_macaddr[3],
+                (uint8_t)cv->var_macaddr[4],
+                (uint8_t)cv->var_macaddr[5]);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From 36e41bf1dedd08d7c69080bd0ff9a8aa3c466272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 06/64] fix: str2time accepted days beyond the end of the month

---
 cligen_cv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index ae367a4..f6fdb33 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1890,6 +1890,11 @@ str2time(const char     *in,
         goto done;
     if (day < 1 || day > 31)
         goto done;
+    if ((month == 4 || month == 6 || month == 9 || month == 11) && day > 30)
+        goto done;
+    if (month == 2 &&
+        day > ((year%4 == 0 && (year%100 != 0 || year%400 == 0)) ? 29 : 28))
+        goto done;
     i += 2;
     if (in[i] != 'T' && in[i] != ' ')
         goto done;
-- 
2.43.0


From 2234acaacf86df31cc613494d6029f725b362651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 07/64] fix: parsing an URL into a variable holding one leaked
 the old fields

---
 cligen_cv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index f6fdb33..5a93243 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1632,6 +1632,12 @@ parse_url(char   *url,
     if (strncmp(tmp, "://", 3)) /* :// */
         goto warn;
     *tmp = '\0';
+    /* Free fields from a previous parse */
+    free(cv->var_urlproto);
+    free(cv->var_urluser);
+    free(cv->var_urlpasswd);
+    free(cv->var_urladdr);
+    free(cv->var_urlpath);
     cv->var_urlproto = strdup(str);
     str = tmp+3;
     if ((tmp = strchr(str, '@')) != NULL){
-- 
2.43.0


From 3536d668279236c92dec6f6b9c75cdf475f7f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 08/64] fix: a range with an upper limit only refused negative
 numbers

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 5a93243..403f03e 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3177,7 +3177,7 @@ cv_parse(const char *str,
  * @note need to use macro trick ## to fix different types
 */
 #define range_check(i, cvlow, cvupp, type)       \
-    (((i) >= cv_##type##_get(cvlow)) && \
+    ((cv_type_get(cvlow) == CGV_EMPTY || (i) >= cv_##type##_get(cvlow)) && \
      ((i) <= cv_##type##_get(cvupp)))
 
 /*! Error messsage for int violating ranges */
-- 
2.43.0


From 2e28ef720540795dac0be73b7f6931775bb63135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 09/64] fix: posix patterns with own anchors or alternatives
 did not match the whole string

---
 cligen_regex.c | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..9c05a85 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -87,34 +87,32 @@ cligen_regex_posix_compile(char  *regexp,
     cbuf    *cb = NULL;
     regex_t *re = NULL;
     int      len0;
+    char    *fmt1 = "^(%s)$";
+    char    *fmt2 = NULL;
     int      err;
 
     len0 = strlen(regexp);
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    /* Check if prepended by ^ */
-    if (len0 > 0 && regexp[0] == '^'){
-        if (regexp[len0-1] == '$')
-            cprintf(cb, "%s", regexp);
-        else if (len0 > 1 && regexp[1] == '(')
-            cprintf(cb, "%s)$", regexp);
-        else
-            cprintf(cb, "%s$", regexp);
+    /* Also patterns with anchors or alternatives of their own match the whole string.
+     * A pattern may leave out the last ) of "^(...)$" or the first ( */
+    if (len0 > 2 && regexp[0] == '^' && regexp[1] == '(' && regexp[len0-1] != '$')
+        fmt2 = "%s)$";
+    else if (len0 > 1 && regexp[0] != '^' && strcmp(&regexp[len0-2], ")$") == 0){
+        fmt1 = "^(%s";
+        fmt2 = "^(%s)$";
     }
-    /* Check if terminated by $ only */
-    else if (len0 > 0 && regexp[len0-1] == '$'){
-        if (len0 > 1 && regexp[len0-2] == ')')
-            cprintf(cb, "^(%s", regexp);
-        else
-            cprintf(cb, "^%s", regexp);
-    }
-    else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
-
     if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
     memset(re, 0, sizeof(regex_t));
-    if ((err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED)) != 0) {
+    cprintf(cb, fmt1, regexp);
+    err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED);
+    if (err != 0 && fmt2 != NULL){
+        cbuf_reset(cb);
+        cprintf(cb, fmt2, regexp);
+        err = regcomp(re, cbuf_get(cb), REG_NOSUB|REG_EXTENDED);
+    }
+    if (err != 0) {
         char errbuf[1024] = {0,};
         if (regerror(err, re, errbuf, 1000) < 0){
             perror("regerror");
-- 
2.43.0


From 531c800362c3a42ccb1b585a9d53b1f3b7a25371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 10/64] fix: out of range positions of a cvec were not refused

---
 cligen_cvec.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..1431119 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -197,8 +197,10 @@ cvec_next(cvec   *cvv,
 
     if (cvv == NULL)
         return NULL;
-    if (cv0 == NULL)
-        cv = cvv->vr_vec;
+    if (cv0 == NULL){
+        if (cvv->vr_len > 0)
+            cv = cvv->vr_vec;
+    }
     else {
         i = cv0 - cvv->vr_vec;
         if (i < cvv->vr_len-1)
@@ -318,7 +320,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || i >= cvec_len(cvv)){
         errno = EINVAL;
         return -1;
     }
@@ -355,7 +357,7 @@ cvec_i(cvec *cvv,
         if (!cvv) {
                 return NULL;
         }
-    if (i < cvv->vr_len)
+    if (i >= 0 && i < cvv->vr_len)
         return &cvv->vr_vec[i];
     return NULL;
 }
-- 
2.43.0


From 45497ed8bcfe56fdce96230eaadb975a427a7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 11/64] fix: cv_flag_clr set flags that were not set

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 403f03e..6e18c69 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -201,7 +201,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From f10d0b398b00b21353a6d084fc675cfd4ebfcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 12/64] fix: abbreviated choice and expand values were bound as
 typed, quoted ones never matched exactly

---
 cligen_match.c | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..607213e 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -75,6 +75,30 @@
 /* Development debugging for sets matching */
 #undef _DEBUG_SETS
 
+/*! Word that selects a command: the command itself, without its quotes if it is quoted
+ *
+ * Expanded variables may give quoted commands, whose tokens have no quotes
+ * @param[in]  co     cligen object of type CO_COMMAND
+ * @param[out] lenp   Length of word
+ * @retval     word   Start of word, not necessarily null-terminated
+ */
+static char *
+co_command_word(cg_obj *co,
+                size_t *lenp)
+{
+    char  *word = co->co_command;
+    size_t len = strlen(word);
+
+    if (*word == '\"'){
+        word++;
+        len--;
+        if (len > 0 && word[len-1] == '\"')
+            len--;
+    }
+    *lenp = len;
+    return word;
+}
+
 /*! Match variable against input string
  *
  * @param[in]  h       CLIgen handle
@@ -155,6 +179,8 @@ match_object(cligen_handle h,
 {
   int          match = 0;
   size_t       len = 0;
+  size_t       wlen;
+  char        *word;
   enum cv_type t;
 
   if (str)
@@ -169,12 +195,15 @@ match_object(cligen_handle h,
           match++;
       else{
           if (best && *co->co_command == '\"'){ /* escaped */
-              if (cligen_caseignore_get(h))
-                  match = (strncasecmp(co->co_command+1, str, len) == 0);
+              word = co_command_word(co, &wlen);
+              if (len > wlen)
+                  match = 0;
+              else if (cligen_caseignore_get(h))
+                  match = (strncasecmp(word, str, len) == 0);
               else
-                  match = (strncmp(co->co_command+1, str, len) == 0);
+                  match = (strncmp(word, str, len) == 0);
               if (exact)
-                  *exact = strlen(co->co_command+1) == len;
+                  *exact = wlen == len;
           }
           else{
               if (cligen_caseignore_get(h))
@@ -496,6 +525,9 @@ match_bindvars(cligen_handle h,
     int     retval = -1;
     cg_var *cv = NULL;
     cg_obj *co_orig;
+    char   *value = NULL;
+    char   *word;
+    size_t  len;
 
     /* co_orig is original object in case of expansion */
     if ((co_orig = co->co_treeref_orig) == NULL)
@@ -506,7 +538,11 @@ match_bindvars(cligen_handle h,
             goto done;
     }
     else if (co->co_type == CO_COMMAND && co_orig->co_type == CO_VARIABLE){
-        if ((cv = add_cov_to_cvec(h, co_orig, token, cvv)) == NULL)
+        /* The token may be an abbreviation, bind the complete value */
+        word = co_command_word(co, &len);
+        if ((value = strndup(word, len)) == NULL)
+            goto done;
+        if ((cv = add_cov_to_cvec(h, co_orig, value, cvv)) == NULL)
             goto done;
     }
     else{
@@ -519,6 +555,8 @@ match_bindvars(cligen_handle h,
     }
     retval = 0;
  done:
+    if (value)
+        free(value);
     return retval;
 }
 
-- 
2.43.0


From 644efa17cfeb9e44ae0639ab5391cf20bc1f773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 13/64] fix: trimming a line changed quoted and escaped text

---
 cligen_read.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..c4a2a8d 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -564,6 +564,7 @@ cli_complete(cligen_handle h,
  *
  * comment is a character (eg '#'), using "bash" comment rule:
  #  Word beginning with # causes that word and all remaining characters on that line to be ignored
+ * Text within double quotes and characters after a backslash are not changed, as cligen_str2cvv
  * @param[out]  line
  * @param[in]   comment character
  */
@@ -573,8 +574,12 @@ cli_trim(char **line,
 {
     size_t  point;
     int     whitespace = 0;
+    int     first = 1;   /* First character of a word */
+    int     quote = 0;   /* Within quotes */
+    int     escape = 0;  /* After backslash */
     char   *s = *line;
     char   *s1 = s;
+    char   *keep = s;    /* Do not strip before this */
     char    ch;
     size_t  len;
 
@@ -584,13 +589,27 @@ cli_trim(char **line,
     len = strlen(s);
     for (point = 0; point <= len ; point++) {
         ch = s[point];
-        if (comment && ch == comment && (whitespace || point == 0 )){
+        if (quote){
+            if (ch && index(CLIGEN_QUOTES, ch) != NULL){
+                quote = 0;
+                first = 1;
+            }
+            *s1++ = ch;
+        }
+        else if (escape){
+            escape = 0;
+            *s1++ = ch;
+            if (isblank(ch))
+                keep = s1;
+        }
+        else if (comment && ch == comment && (whitespace || point == 0 )){
             *s1++ = '\n';
             *s1++ = '\0';
             break;
         }
         else
             if (isblank(ch)) {
+                first = 1;
                 if (whitespace)
                     continue;
                 else {
@@ -598,6 +617,11 @@ cli_trim(char **line,
                     *s1++ = ' ';
                 }
             } else {
+                if (first && ch && index(CLIGEN_QUOTES, ch) != NULL)
+                    quote = 1;
+                else if (ch == '\\')
+                    escape = 1;
+                first = 0;
                 whitespace = 0;
                 *s1++ = ch;
             }
@@ -606,7 +630,7 @@ cli_trim(char **line,
     while ((strlen(s) > 0) && isblank(*s))
         s++;
     /* strip trailing whites and newlines */
-    while ((strlen(s) > 0) && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
+    while ((s + strlen(s) > keep) && (strlen(s) > 0) && (isblank(*(s+strlen(s)-1)) || *(s+strlen(s)-1) == '\n'))
         *(s + strlen(s) - 1) = '\0';
     *line = s;
 }
-- 
2.43.0


From 081201fe34cb6738ccf934395581f81aaa65ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 14/64] fix: an empty quoted word was bound without checking it
 against the variable's type

---
 cligen_match.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 607213e..d690d18 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -181,7 +181,6 @@ match_object(cligen_handle h,
   size_t       len = 0;
   size_t       wlen;
   char        *word;
-  enum cv_type t;
 
   if (str)
       len = strlen(str);
@@ -220,15 +219,9 @@ match_object(cligen_handle h,
       }
     break;
   case CO_VARIABLE:
-      t = co->co_vtype;
-      if (str == NULL || len==0){
-          if (best && cv_isint(t)){
-              if ((match = match_variable(h, co, str, reason)) < 0)
-                  return -1;
-          }
-          else
-              match++;
-      }
+      /* An empty word is a complete word, eg "", if only the best match is wanted */
+      if (str == NULL || (len == 0 && !best))
+          match++;
       else
           if ((match = match_variable(h, co, str, reason)) < 0)
               return -1;
-- 
2.43.0


From e7e07a4308128af7ae52224397a150dcb5a6d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 15/64] fix: a variable replaced or duplicated commands of the
 same tree since the order of commands and variables was not transitive

---
 cligen_object.c | 57 +++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..310f741 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -902,9 +902,7 @@ co_eq(cg_obj *co1,
 
     /* eq == 0 means equal */
     eq = !(co1->co_type == co2->co_type);
-    if (eq){ /* Unequal type of command, variable and reference.
-                but need to check special case,
-                if the variable is a KEYWORD, then it can be eq to a command. */
+    if (eq){ /* Unequal type of command, variable and reference. */
         /* Let References be last (more than) everything else */
         if (co1->co_type == CO_REFERENCE){
             eq = 1;
@@ -923,8 +921,8 @@ co_eq(cg_obj *co1,
             eq = 1;
             goto done;
         }
-        /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        /* Here one is command and one is variable: commands before variables */
+        eq = co1->co_type == CO_COMMAND ? -1 : 1;
         goto done;
     }
     switch (co1->co_type){
@@ -1058,41 +1056,6 @@ co_free(cg_obj *co,
     return 0;
 }
 
-/*! Look for a CLIgen object in a (one-level) parse-tree in interval [low,high]
- *
- * @param[in]  pt      CLIgen parse-tree
- * @param[in]  name    Name of node
- * @param[in]  low     Lower bound
- * @param[in]  upper   Upper bound
- * @retval     co      Object found
- * @retval     NULL    Not found
- * @see co_insert Main function
- */
-static cg_obj *
-co_search1(parse_tree *pt,
-           char       *name,
-           int         low,
-           int         upper)
-{
-    int     mid;
-    int     cmp;
-    cg_obj *co;
-
-    if (upper < low)
-        return NULL; /* not found */
-    mid = (low + upper) / 2;
-    if (mid >= pt_len_get(pt))  /* beyond range */
-        return NULL;
-    co = pt_vec_i_get(pt, mid);
-    cmp = str_cmp(name, co ? co->co_command : NULL);
-    if (cmp < 0)
-        return co_search1(pt, name, low, mid-1);
-    else if (cmp > 0)
-        return co_search1(pt, name, mid+1, upper);
-    else
-        return co;
-}
-
 /*! Position where to insert cligen object into a parse-tree list alphabetically
  *
  * at what position to insert co1. Insert after this position
@@ -1189,16 +1152,22 @@ co_insert(parse_tree *pt,
  * @param[in]  name    Name of node
  * @retval     co      Object found
  * @retval     NULL    Not found
- * You can only use this if the child-list is alphabetically
- * sorted. You get this automatically with co_insert(), bit some code
- * may add children w/o co_insert.
+ * Only commands are sorted by name, therefore all objects are examined
  * No recursion
  */
 cg_obj *
 co_find_one(parse_tree *pt,
             char       *name)
 {
-    return co_search1(pt, name, 0, pt_len_get(pt));
+    cg_obj *co;
+    int     i;
+
+    for (i=0; i<pt_len_get(pt); i++){
+        co = pt_vec_i_get(pt, i);
+        if (str_cmp(name, co ? co->co_command : NULL) == 0)
+            return co;
+    }
+    return NULL;
 }
 
 /*! co is a "terminal" command
-- 
2.43.0


From 822b4e315ddb173138ad1d436db9f535cdbd0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 16/64] fix: variables that differ in fraction digits, decimal
 range, inverted pattern or expand arguments were merged into one

---
 cligen_object.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 310f741..ac957cf 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -899,6 +899,7 @@ co_eq(cg_obj *co1,
       cg_obj *co2)
 {
     int eq;
+    int i;
 
     /* eq == 0 means equal */
     eq = !(co1->co_type == co2->co_type);
@@ -937,7 +938,14 @@ co_eq(cg_obj *co1,
             goto done;
         /* Examine expand: at least one set, and then strcmp */
         if (co1->co_expand_fn_str!=NULL || co2->co_expand_fn_str!=NULL){
-            eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str);
+            if ((eq = str_cmp(co1->co_expand_fn_str, co2->co_expand_fn_str)) != 0)
+                goto done;
+            if ((eq = cvec_len(co1->co_expand_fn_vec) - cvec_len(co2->co_expand_fn_vec)) != 0)
+                goto done;
+            for (i=0; i<cvec_len(co1->co_expand_fn_vec); i++)
+                if ((eq = cv_cmp(cvec_i(co1->co_expand_fn_vec, i),
+                                 cvec_i(co2->co_expand_fn_vec, i))) != 0)
+                    goto done;
             goto done;
         }
         /* Should we examine co_translate_fn_str? */
@@ -954,13 +962,15 @@ co_eq(cg_obj *co1,
             else if (co2->co_regex == NULL)
                 eq = 1;
             else{
-                int i, min;
+                int min;
                 min = cvec_len(co1->co_regex)<cvec_len(co2->co_regex)?cvec_len(co1->co_regex):cvec_len(co2->co_regex);
                 for (i=0; i<min; i++){
                     cv1 = cvec_i(co1->co_regex, i);
                     cv2 = cvec_i(co2->co_regex, i);
                     if ((eq = str_cmp(cv_string_get(cv1), cv_string_get(cv2))) != 0)
                         goto done;
+                    if ((eq = cv_flag(cv1, V_INVERT) - cv_flag(cv2, V_INVERT)) != 0)
+                        goto done;
                 }
                 if (cvec_len(co1->co_regex) < cvec_len(co2->co_regex))
                     eq = -1;
@@ -972,9 +982,13 @@ co_eq(cg_obj *co1,
             if (eq)
                 goto done;
         }
+        /* Examine number of fraction digits */
+        if (co1->co_vtype == CGV_DEC64 &&
+            (eq = co1->co_dec64_n - co2->co_dec64_n) != 0)
+            goto done;
         /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
-            int i;
+        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype) ||
+            co1->co_vtype == CGV_DEC64) {
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
                 goto done;
-- 
2.43.0


From 77d516ae34ea00d737dcf454a6efd44fe02b4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 17/64] fix: cligen_escape_do wrote beyond its buffer for
 strings without special characters

---
 cligen_expand.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..7d81a89 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -481,6 +481,8 @@ cligen_escape_do(const char *s0)
     }
     len = strlen(s0);
     nr = cligen_escape_nr(s0);
+    if (nr == 0)
+        nr = 2; /* quotes are always added */
     if ((s1 = (char*)malloc(len + 1 + nr)) == NULL){
         return NULL;
     }
-- 
2.43.0


From 82c96b8c5745fa8c7ec706e49e185d632531eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 18/64] fix: completion inserted variable names, extended
 quoted words, ignored case-insensitive mode and overran its buffer by one

---
 cligen_match.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index d690d18..d48e3b1 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1352,9 +1352,11 @@ match_complete(cligen_handle h,
             retval = 0;
             goto done;
         }
-        if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0){
-            if (co->co_type != CO_COMMAND)
+        if (co->co_type != CO_COMMAND){
+            if ((cligen_tabmode(h) & CLIGEN_TABMODE_VARS) == 0)
                 continue;
+            retval = 0; /* Any value of the variable is possible */
+            goto done;
         }
         command = co->co_command;
         if (co1 == NULL){
@@ -1373,7 +1375,11 @@ match_complete(cligen_handle h,
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
                 for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
+                    if (cligen_caseignore_get(h)){
+                        if (tolower((unsigned char)command1[j]) != tolower((unsigned char)command[j]))
+                            break;
+                    }
+                    else if (command1[j] != command[j])
                         break;
                 minmatch = MIN(minmatch, j);
             }
@@ -1383,7 +1389,14 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
+    /* A quoted word is complete, text cannot be added after its quote */
+    if (strcmp(mr_token_get(mr), cvec_i_str(cvr, cvec_len(cvr)-1)) != 0 &&
+        minmatch > slen){
+        retval = 0;
+        goto done;
+    }
+    /* Added text, delimiter and terminating null */
+    while (strlen(*stringp) + minmatch - slen + 2 > *slenp){
         *slenp *= 2;
         if ((*stringp = realloc(*stringp, *slenp)) == NULL)
             goto done;
-- 
2.43.0


From 82e09448a46e1c2481206afddf5aa16483b39d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 19/64] fix: completion with text after the cursor could write
 beyond the line buffer

---
 cligen_read.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index c4a2a8d..8369eea 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -543,10 +543,9 @@ cli_complete(cligen_handle h,
         goto done;
     extra = strlen(s) - cursor;      /* Extra characters added? */
     if (extra){
-        cligen_buf_increase(h, strlen(s));
-        string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        if (cligen_buf_increase(h, strlen(string)+extra) < 0)
+            goto done;
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From 655195da3e0a8192510afafca284d4325777b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 20/64] fix: help text was not truncated on narrow terminals

---
 cligen_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..2ab55fc 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -465,6 +465,8 @@ print_help_line(cligen_handle    h,
         while ((cv = cvec_each(ch->ch_helpvec, cv)) != NULL &&
                (linesmax==0 || j<linesmax)){
             w = termwidth - column_width - CLIGEN_HELP_LEFT_MARGIN;
+            if (w < 0) /* No room for help text */
+                w = 0;
             str = cv_string_get(cv);
             if (j > 0) /* skip first line */
                 fprintf(fout, "  %*s", -column_width, "");
-- 
2.43.0


From 1c70ebbaa718ac3c70093c799bda6eff7f885411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 21/64] fix: crash when help is shown for equal commands with
 empty help texts

---
 cligen_io.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 2ab55fc..0d695cf 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -525,20 +525,15 @@ cligen_help_eq(struct cligen_help *ch0,
         return 0;
     if (help == 0)
         return 1;
-    /* Commands are equal, check help string */
-    if (help0 == NULL && help1 == NULL)
-        return 1;
-    if (help0 == NULL || help1 == NULL)
-        return 0;
-    /* Get first line only as equality check */
-    cv0 = cvec_i(help0, 0);
-    cv1 = cvec_i(help1, 0);
-#if 0 // help0/1 cannot be NULL
-    if (cv0 == NULL && help1 == NULL)
+    /* Commands are equal, check help string
+     * Get first line only as equality check, an empty help string has no lines
+     */
+    cv0 = help0 ? cvec_i(help0, 0) : NULL;
+    cv1 = help1 ? cvec_i(help1, 0) : NULL;
+    if (cv0 == NULL && cv1 == NULL)
         return 1;
-    if (cv0 == NULL || help1 == NULL)
+    if (cv0 == NULL || cv1 == NULL)
         return 0;
-#endif
     return strcmp(cv_string_get(cv0), cv_string_get(cv1)) == 0;
 }
 
-- 
2.43.0


From b0ffa301297ca22467899a0d08e893a91dcf28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 22/64] fix: help text of a repeated command was appended to
 itself

---
 cligen_parse.y | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..4ae2b40 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -678,15 +678,13 @@ cgy_reference(cligen_yacc *cy,
     return retval;
 }
 
-/*! Add one line of helpstr
+/*! Add helpstr to objects that have none
  *
  * @param[in]  cy       CLIgen yacc parse struct
- * @param[in]  merge    OK to merge
  * @param[in]  helpstr  Malloced help string, stripped of spaces, consumed here
  */
 static int
 cgy_helpstring(cligen_yacc *cy,
-               int          merge,
                char        *helpstr)
 {
     int              retval = -1;
@@ -699,22 +697,11 @@ cgy_helpstring(cligen_yacc *cy,
     }
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (co->co_helpstring){
-            if (merge){
-                if ((co->co_helpstring = realloc(co->co_helpstring,
-                                                 strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
-                    cligen_parseerror1(cy, "Allocating helpstr");
-                    goto done;
-                }
-                strcat(co->co_helpstring, "\n");
-                strcat(co->co_helpstring, helpstr);
-            }
+        if (co->co_helpstring == NULL &&
+            (co->co_helpstring = strdup(helpstr)) == NULL){
+            cligen_parseerror1(cy, "Allocating helpstr");
+            goto done;
         }
-        else
-            if ((co->co_helpstring = strdup(helpstr)) == NULL){
-                cligen_parseerror1(cy, "Allocating helpstr");
-                goto done;
-            }
     }
     free(helpstr);
     retval = 0;
@@ -1368,19 +1355,26 @@ declcomp    : '(' { if (ctx_push(_cy, 0) < 0) _YYERROR("declcomp"); }
             ;
 
 decl        : cmd                 { _PARSE_DEBUG("decl->cmd");}
-            | cmd PDQ helpstring DQP { _PARSE_DEBUG("decl->cmd (\" helpstring \")");}
+            | cmd PDQ helpstring DQP
+              {
+                  _PARSE_DEBUG("decl->cmd (\" helpstring \")");
+                  if (cgy_helpstring(_cy, $3) < 0) _YYERROR("helpstring");
+              }
             | cmd PDQ DQP         { _PARSE_DEBUG("decl->cmd (\"\")");}
             ;
 
 helpstring : helpstring linefeeds helpstring1
               {
+                  size_t len = strlen($1);
                   _PARSE_DEBUG("helpstring -> helpstring helpstring1");
-                  if (cgy_helpstring(_cy, 1, $3) < 0) _YYERROR("helpstring");
+                  if (($$ = realloc($1, len+strlen($3)+2)) == NULL) _YYERROR("helpstring");
+                  sprintf($$+len, "\n%s", $3);
+                  free($3);
               }
             | helpstring1
                {
                    _PARSE_DEBUG("helpstring -> helpstring1");
-                   if (cgy_helpstring(_cy, 0, $1) < 0) _YYERROR("helpstring");
+                   $$ = $1;
                }
             ;
 
-- 
2.43.0


From dc4c9fc6dbedba7d3a879737835b140c6c1ad706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 23/64] fix: pt_vec_i_get read one position beyond the end of
 the tree

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..a4422a6 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From b992d04db216b242273e08c6f59c4ca324dd6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 24/64] fix: pt_vec_i_delete crashed on an empty position

---
 cligen_parsetree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index a4422a6..f822a9c 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -238,7 +238,8 @@ pt_vec_i_delete(parse_tree *pt,
     }
     co = pt->pt_vec[i];
     pt->pt_vec[i] = NULL;
-    co_free(co, recurse);
+    if (co)
+        co_free(co, recurse);
     if ((size = (pt_len_get(pt) - (i+1))*sizeof(cg_obj*)) != 0)
         memmove(&pt->pt_vec[i],
                 &pt->pt_vec[i+1],
-- 
2.43.0


From d36c483ec4721708b97e2c6dd76bde83e5254d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 25/64] fix: choice variable in a referenced tree used a freed
 object

---
 cligen_expand.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 7d81a89..380abf8 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -610,6 +610,7 @@ pt_expand_fn(cligen_handle h,
  *
  * @param[in]  co         Original cligen object (to expand into ptn)
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
+ * @param[in]  transient  co may be "transient" if so use co->co_ref as new co_ref,...
  * @param[out] ptn        New parse-tree initially an empty pointer, its value is returned.
  * @retval     0          OK
  * @retval    -1          Error
@@ -617,6 +618,7 @@ pt_expand_fn(cligen_handle h,
 static int
 pt_expand_choice(cg_obj       *co,
                  cvec         *cvv_filter,
+                 int           transient,
                  parse_tree   *ptn)
 {
     int     retval = -1;
@@ -631,6 +633,9 @@ pt_expand_choice(cg_obj       *co,
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
+            if (transient && con->co_ref){
+                con->co_ref = co->co_ref;
+            }
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
@@ -720,7 +725,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, ptn) < 0) // XXX filter
+        if (pt_expand_choice(co, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
-- 
2.43.0


From 106ca1605a08c051016dd3248efabd6dc1b69de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 26/64] fix: arguments of a tree reference were lost for
 callbacks without arguments

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index d48e3b1..4312105 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -733,7 +733,11 @@ treeref_merge_co(cg_obj      *co,
             if ((cc->cc_fn_str = strdup(cc_ref->cc_fn_str)) == NULL)
                 goto done;
         }
-        if (cc_ref->cc_cvec){
+        if (cc_ref->cc_cvec && cc->cc_cvec == NULL){
+            if ((cc->cc_cvec = cvec_dup(cc_ref->cc_cvec)) == NULL)
+                goto done;
+        }
+        else if (cc_ref->cc_cvec){
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
                 cvec_append_var(cc->cc_cvec, cv);
-- 
2.43.0


From 84fd045ff4cc09ee4a8e474c87d61e49b35f0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 27/64] fix: removal labels of nested tree references replaced
 each other

---
 cligen_expand.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 380abf8..42b1210 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -321,6 +321,32 @@ co_find_label_filters(cligen_handle h,
     return retval;
 }
 
+/*! Add filters to those of an object, if any
+ *
+ * @param[in]  co          Cligen object
+ * @param[in]  cvv_filter  Filters to add, can be NULL
+ * @retval     0           OK
+ * @retval    -1           Error
+ */
+static int
+co_filter_merge(cg_obj *co,
+                cvec   *cvv_filter)
+{
+    cg_var *cv = NULL;
+
+    if (cvec_len(cvv_filter) == 0)
+        return 0;
+    if (co->co_filter == NULL)
+        return co_filter_set(co, cvv_filter) == NULL ? -1 : 0;
+    while ((cv = cvec_each(cvv_filter, cv)) != NULL){
+        if (cv_name_get(cv) && cvec_find(co->co_filter, cv_name_get(cv)) != NULL)
+            continue;
+        if (cvec_append_var(co->co_filter, cv) == NULL)
+            return -1;
+    }
+    return 0;
+}
+
 /*! Make a pt expand of single co using shallow copy
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
@@ -578,9 +604,8 @@ pt_expand_fn(cligen_handle h,
         }
         if (pt_vec_append(ptn, con) < 0)
             goto done;
-        if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
-                goto done;
+        if (co_filter_merge(con, cvv_filter) < 0)
+            goto done;
         value = cv_string_get(cv);
         if ((cmd = strdup(value)) == NULL)
             goto done;
@@ -638,7 +663,7 @@ pt_expand_choice(cg_obj       *co,
             }
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
-            if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
             if (co_insert1(ptn, con, 0) == NULL)
@@ -762,9 +787,8 @@ pt_expand1_co(cligen_handle h,
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-        if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
-                goto done;
+        if (co_filter_merge(con, cvv_filter) < 0)
+            goto done;
     }
  ok:
     retval = 0;
-- 
2.43.0


From 8021178bfe85216131df59bb0cc1b274de5a983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 28/64] fix: the wrapper was not called after a callback that
 failed

---
 cligen_read.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 8369eea..a7aaf57 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -1024,6 +1024,7 @@ cligen_eval(cligen_handle h,
     void          *wh = NULL; /* eval wrap handle */
     int            spipe = -1;
     pid_t          childpid = 0;
+    int            ret;
 
     /* Save matched object for plugin use */
     if (h == NULL){
@@ -1064,19 +1065,16 @@ cligen_eval(cligen_handle h,
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
-            if ((*fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
-                                cvv1,
-                                argv) < 0){
-                if (argv != NULL)
-                    cvec_free(argv);
-                cligen_fn_str_set(h, NULL);
-                goto done;
-            }
+            ret = (*fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
+                        cvv1,
+                        argv);
             if (wrapfn && wh != NULL)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
             if (argv != NULL)
                 cvec_free(argv);
             cligen_fn_str_set(h, NULL);
+            if (ret < 0)
+                goto done;
         }
     }
     if (childpid){
-- 
2.43.0


From d9c3b7872a73dc25f981010d9fa61e926f419ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 29/64] fix: empty and typed arguments of callbacks and
 expansions were lost

---
 cligen_parse.y | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 4ae2b40..84dcf0a 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -398,12 +398,13 @@ cgy_callback_arg(cligen_yacc *cy,
  */
 static int
 expand_arg(cligen_yacc *cy,
+           char        *type,
            char        *arg)
 {
    int      retval = -1;
     cg_var *cv = NULL;
 
-    if ((cv = create_cv(cy, "string", arg)) == NULL)
+    if ((cv = create_cv(cy, type, arg)) == NULL)
         goto done;
     if (cy->cy_var->co_expand_fn_vec)
         cvec_append_var(cy->cy_var->co_expand_fn_vec, cv);
@@ -1326,7 +1327,7 @@ arg         : typecast arg1 {
               }
             ;
 
-arg1        : DQ DQ { $$=NULL; }
+arg1        : DQ DQ { $$=strdup(""); }
             | DQ charseq DQ { $$=$2; }
             | NAME  { $$=$1; }
             ;
@@ -1492,12 +1493,8 @@ exparglist : exparglist ',' exparg
            | exparg
            ;
 
-exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, $2); free($2); }
-           ;
-
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
                     if ($1) free($1);
                     if ($2) free($2);
               }
-- 
2.43.0


From ec0a5a501124fb1569bb923993dfbba1b4c1d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 30/64] fix: a line with a newline could be taken for the
 previous line of the history

---
 cligen_history.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..047ecd6 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -116,7 +116,6 @@ hist_add(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     char                 *p = buf;
-    int                   len;
 
     if (strlen(buf) >= cligen_buf_size(h))
         if (cligen_buf_increase(h, strlen(buf)) < 0)
@@ -124,11 +123,7 @@ hist_add(cligen_handle h,
     while (*p == ' ' || *p == '\t' || *p == '\n')
         p++;
     if (*p) {
-        len = strlen(buf);
-        if (strchr(p, '\n'))    /* previous line already has NL stripped */
-            len--;
-        if (ch->ch_hist_pre == 0 || strlen(ch->ch_hist_pre) != len ||
-                            strncmp(ch->ch_hist_pre, buf, len) != 0) {
+        if (ch->ch_hist_pre == 0 || strcmp(ch->ch_hist_pre, buf) != 0) {
             if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
                 goto done;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
-- 
2.43.0


From 4ca36b09fffb91ac20093120df13c8ec9eec7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 31/64] fix: walking past the oldest line of a full history and
 back skipped that line

---
 cligen_history.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 047ecd6..7d5c351 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -116,6 +116,7 @@ hist_add(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     char                 *p = buf;
+    int                   i;
 
     if (strlen(buf) >= cligen_buf_size(h))
         if (cligen_buf_increase(h, strlen(buf)) < 0)
@@ -128,10 +129,12 @@ hist_add(cligen_handle h,
                 goto done;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
             ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;
-            if (ch->ch_hist_buf[ch->ch_hist_last] && *ch->ch_hist_buf[ch->ch_hist_last]) {
-                free(ch->ch_hist_buf[ch->ch_hist_last]);
-            }
             ch->ch_hist_buf[ch->ch_hist_last] = ""; /* NB not-malloced, check in hist_free */
+            /* The entry after last is always unused and marks the end when walking back */
+            i = (ch->ch_hist_last + 1) % ch->ch_hist_size;
+            if (ch->ch_hist_buf[i])
+                free(ch->ch_hist_buf[i]);
+            ch->ch_hist_buf[i] = NULL;
         }
     }
     ch->ch_hist_cur = ch->ch_hist_last;
@@ -314,7 +317,7 @@ cligen_hist_init(cligen_handle h,
         goto done;
     }
     old_size = ch->ch_hist_size;
-    ch->ch_hist_size = lines+1; /* circular buffer needs an extra element */
+    ch->ch_hist_size = lines+2; /* circular buffer needs two extra elements: current and end mark */
     for (i=0; i < old_size; i++)
         if (ch->ch_hist_buf[i]){
             if (strlen(ch->ch_hist_buf[i]))
-- 
2.43.0


From f62868da8a59ce9f65d586dd656ee142a5bda234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 32/64] fix: moving and deleting a word backwards stopped one
 short at leading blanks

---
 cligen_getline.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..ed24148 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1028,14 +1028,10 @@ gl_kill_word(cligen_handle h,
         gl_putc('\007');
     else {
         wpos = pos;
-        if (pos > 0)
+        while (pos > 0 && isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
         if (cligen_killbuf_increase(h, wpos-pos) < 0)
             return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
@@ -1067,14 +1063,10 @@ gl_word(cligen_handle h,
         while (isspace((int)cligen_buf(h)[pos]) && pos < gl_cnt)
             pos++;
     } else {                            /* backword */
-        if (pos > 0)
+        while (pos > 0 && isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
     }
     gl_fixup(h, cligen_prompt(h), -1, pos);
 }
-- 
2.43.0


From 8d652995148064b2ede68d8446b1c1bb9f09060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 33/64] fix: a NUL character discarded the line, and a read
 error used an unset character

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index ed24148..e237379 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -427,14 +427,14 @@ gl_getc(cligen_handle h)
         }
         break;
     }
-    if (c == 0){
+    if (c <= 0){
         gl_iseof++;
         cligen_buf(h)[0] = 0; /* clean exit from gl? */
         gl_cleanup();
         gl_putc('\n');
         return -1;
     }
-    c = (ch <= 0)? -1 : ch;
+    c = ch;
 #endif  /* __unix__ */
 #ifdef MSDOS
     c = _bios_keybrd(_NKEYBRD_READ);
-- 
2.43.0


From 13c568a9f36b511d57882cb5fbc9d9cde8d660de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 34/64] fix: deleting to the left wrote the rest of a long line
 past the margin

---
 cligen_getline.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index e237379..b1c7fae 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -996,7 +996,6 @@ static void
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
-    int i;
     int len;
 
     if (pos != 0) {
@@ -1006,9 +1005,6 @@ gl_kill_begin(cligen_handle h,
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
 }
@@ -1022,7 +1018,7 @@ static int
 gl_kill_word(cligen_handle h,
              int           pos)
 {
-    int i, wpos;
+    int wpos;
 
     if (pos == 0)
         gl_putc('\007');
@@ -1037,10 +1033,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), wpos, pos);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, pos);
+        gl_fixup(h, cligen_prompt(h), pos, pos);
     }
     return 0;
 }
-- 
2.43.0


From c01b28a85bd6711f11b2c90746b7d17a7b04bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 35/64] fix: paged output crashed when the terminal got
 narrower, and CR quit on a single row

---
 cligen_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 0d695cf..804b548 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -153,6 +153,8 @@ cligen_output_scroll(FILE   *f,
     /* A terminal line */
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
+    if (D_COLUMNS >= linelen) /* Terminal has become narrower */
+        D_COLUMNS = linelen ? D_COLUMNS%linelen : 0;
     remain = linelen - D_COLUMNS;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
@@ -195,8 +197,10 @@ cligen_output_scroll(FILE   *f,
             fprintf(f, "--More--");
             fflush(f);
             c = fgetc(stdin);
-            if (c == '\n')
-                D_LINES--;
+            if (c == '\n'){
+                if (D_LINES > 0) /* Negative means quit */
+                    D_LINES--;
+            }
             else if (c == ' ')
                 D_LINES = 0;
             else if (c == 'q' || c == 3) /* ^c */
-- 
2.43.0


From daef23336328180755c5f6e389c4a98af10796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 36/64] fix: crash when there is no active parse-tree

---
 cligen_pt_head.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..fa6bcd2 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -389,6 +389,8 @@ cligen_ph_i(cligen_handle h,
 /*! Get currently active parsetree.
  *
  * @param[in] h       CLIgen handle
+ * @retval    pt      Active parse-tree
+ * @retval    NULL    No active parse-tree
  * @see cligen_ph_active_get  prefer to use that function instead
  */
 parse_tree *
@@ -396,7 +398,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From faf664570c2cde781d6fd23fa0710086a9047bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 37/64] fix: alias lost when its new text did not parse, and no
 quotes in alias commands

The alias was defined by parsing a specification made of its name, help text and
command after the earlier alias had been removed. A command with a double quote
or a help text with a quote or backslash was refused and the earlier alias lost,
a name of several words added an ordinary command, and a variable or reference
of the same name counted as a command (or crashed when it had none).
---
 cligen_syntax.c | 67 ++++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..fad8ea4 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -417,8 +417,8 @@ cligen_alias_call(cligen_handle h,
 
 /*! Add cli alias given treename (or default), alias name, helpstring and command
  *
- * Check if old alias exists, if so replace it, parse new syntax and insert into
- * top-level parse-tree, and mark as alias.
+ * Check if old alias exists, if so replace it with a new object in the top-level parse-tree,
+ * marked as alias.
  * @param[in]  h       CLIgen handle
  * @param[in]  phname  CLIgen parse-tree header / tree name
  * @param[in]  name    Alias name
@@ -437,10 +437,12 @@ cligen_alias_add(cligen_handle  h,
                  cgv_fnstype_t *callback)
 {
     int          retval = -1;
-    cbuf        *cb = NULL;
     pt_head     *ph;
     parse_tree  *pt;
     cg_obj      *co;
+    cg_obj      *conew = NULL;
+    cg_obj      *coe;
+    cg_var      *cv;
     int          i;
     cg_callback *cc;
 
@@ -460,46 +462,53 @@ cligen_alias_add(cligen_handle  h,
         errno = ENOENT;
         goto done;
     }
-    /* Remove old alias, cant use search since need i for delete */
+    if (strlen(name) == 0 || strpbrk(name, " \t\r\n") != NULL){ /* Not a word */
+        errno = EINVAL;
+        goto done;
+    }
+    /* Find old alias, cant use search since need i for delete */
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
-        if (strcmp(co->co_command, name) != 0)
+        if (co->co_type != CO_COMMAND || strcmp(co->co_command, name) != 0)
             continue;
         if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
             errno = EEXIST;
             goto done;
         }
-        pt_vec_i_delete(pt, i, 1);
         break;
     }
-    if ((cb = cbuf_new()) == NULL)
+    /* Create the object directly: a parsed syntax cannot contain all commands or helptexts */
+    if ((conew = co_new(name, NULL)) == NULL)
         goto done;
-    cprintf(cb, "%s", name);
-    if (helpstr)
-        cprintf(cb, "(\"%s\")", helpstr);
-    cprintf(cb, ", cligen_alias_fn(\"%s\");", command);
-    if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, pt, NULL) < 0){
+    co_flags_set(conew, CO_FLAGS_ALIAS);
+    if (helpstr && (conew->co_helpstring = strdup(helpstr)) == NULL)
         goto done;
-    }
-    /* Sanity check and add alias flag */
-    if ((co = co_find_one(pt, name)) == NULL){
-        errno = ENOENT;
+    if ((cc = malloc(sizeof(*cc))) == NULL)
         goto done;
-    }
-    co_flags_set(co, CO_FLAGS_ALIAS);
-    {
-
-
-        if ((cc = co->co_callbacks) == NULL){
-            fprintf(stderr, "No callback found\n");
-            goto done;
-        }
-        co_callback_fn_set(cc, callback?callback:cligen_alias_call);
-    }
+    memset(cc, 0, sizeof(*cc));
+    conew->co_callbacks = cc;
+    co_callback_fn_set(cc, callback?callback:cligen_alias_call);
+    if ((cc->cc_fn_str = strdup("cligen_alias_fn")) == NULL)
+        goto done;
+    if ((cc->cc_cvec = cvec_new(0)) == NULL ||
+        (cv = cvec_add(cc->cc_cvec, CGV_STRING)) == NULL ||
+        cv_string_set(cv, command) == NULL)
+        goto done;
+    /* Empty child: the alias is a complete command */
+    if ((coe = co_new(NULL, conew)) == NULL)
+        goto done;
+    coe->co_type = CO_EMPTY;
+    if (co_insert(co_pt_get(conew), coe) == NULL)
+        goto done;
+    if (i < pt_len_get(pt) && pt_vec_i_delete(pt, i, 1) < 0)
+        goto done;
+    if (co_insert(pt, conew) == NULL)
+        goto done;
+    conew = NULL;
     retval = 0;
  done:
-    if (cb)
-        cbuf_free(cb);
+    if (conew)
+        co_free(conew, 1);
     return retval;
 }
-- 
2.43.0


From 94d3ba6b5886b8fc999f0bb37be089091192a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 38/64] fix: the lengths of the line buffers were shared
 between handles

A second handle was given the (possibly larger) length of the first one's
buffers, and a handle whose line had not grown was written past its buffer's end
after another one's had.
---
 cligen_handle.c          | 45 +++++++++++++++++++++-------------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..27253e8 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,9 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
-
 /*!
  * @param[in] h       CLIgen handle
  */
@@ -1052,7 +1049,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_buf_size;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1061,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbuf_size;
 }
 
 /*!
@@ -1073,16 +1074,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_buf_size = GETLINE_BUFLEN_DEFAULT;
+    ch->ch_killbuf_size = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_buf_size)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_buf_size);
+    if ((ch->ch_killbuf = malloc(ch->ch_killbuf_size)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbuf_size);
     return 0;
 }
 
@@ -1100,17 +1103,17 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_buf_size; /* orig length */
 
-    if (_getline_bufsize >= len1 + 1)
+    if (ch->ch_buf_size >= len1 + 1)
       return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    while (ch->ch_buf_size < len1 + 1)
+      ch->ch_buf_size *= 2;
+    if ((ch->ch_buf = realloc(ch->ch_buf, ch->ch_buf_size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(ch->ch_buf+len0, 0, ch->ch_buf_size-len0);
     return 0;
 }
 
@@ -1124,17 +1127,17 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    int                   len0 = ch->ch_killbuf_size;
 
-    if (_getline_killbufsize >= len1 + 1)
+    if (ch->ch_killbuf_size >= len1 + 1)
       return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    while (ch->ch_killbuf_size < len1 + 1)
+      ch->ch_killbuf_size *= 2;
+    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, ch->ch_killbuf_size)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(ch->ch_killbuf+len0, 0, ch->ch_killbuf_size-len0);
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..71dbe03 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -94,7 +94,9 @@ struct cligen_handle{
                                      Also this is global for now
                                   */
     char       *ch_buf;          /* getline input buffer */
+    int         ch_buf_size;     /* allocated length of ch_buf */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_killbuf_size; /* allocated length of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From 71bc1b4083ec519250353998ed35f450920fb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 39/64] fix: exit status truncated to a character

---
 cligen_handle_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 71dbe03..6acbf2e 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -74,7 +74,7 @@ typedef struct pt_head  { /* Linked list of cligen parse-trees */
 /* CLIgen handle. Its members should be hidden and only the typedef visible */
 struct cligen_handle{
     int         ch_magic;        /* magic */
-    char        ch_exiting;      /* Set by callback to request exit of CLIgen */
+    int         ch_exiting;      /* Set by callback to request exit of CLIgen */
     char        ch_comment;      /* comment sign - everything behind it is ignored */
     char       *ch_prompt;       /* current prompt used */
     pt_head    *ch_pt_head;      /* Linked list of parsetrees */
-- 
2.43.0


From 742b9c5b95e6b60e3c3a1a2485df8c0acd24d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 40/64] fix: unregistering a descriptor garbled the ones
 registered after it

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index b1c7fae..b542530 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -320,7 +320,7 @@ gl_unregfd(int fd)
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
             if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i-1)*sizeof(*extfds));
             extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
             nextfds--;
             return 0;
-- 
2.43.0


From 783e0a120481a1cb6b6ae1bb1209424dc24b9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 41/64] fix: extra exit characters were written and read past
 their table

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index b542530..2778c7d 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -366,7 +366,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -379,7 +379,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0;i<sizeof(exitchars)/sizeof(exitchars[0]);i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From a6bcd0b73e5723e6e07d0224dd657e9cfb0f48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 42/64] fix: crash when the prompt is cleared

---
 cligen_getline.c | 2 ++
 cligen_handle.c  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 2778c7d..004b056 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1389,6 +1389,8 @@ gl_fixup(cligen_handle h,
          int           change,
          int           cursor)
 {
+    if (prompt == NULL)
+        prompt = "";
     if (gl_scrolling_mode)
         return gl_fixup_scroll(h, prompt, change, cursor);
     else
diff --git a/cligen_handle.c b/cligen_handle.c
index 27253e8..1ae8b46 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -307,7 +307,7 @@ cligen_prompt_set(cligen_handle h,
     struct cligen_handle *ch = handle(h);
 
     if (ch->ch_prompt){
-        if (strcmp(prompt, ch->ch_prompt) == 0)
+        if (prompt && strcmp(prompt, ch->ch_prompt) == 0)
             return 0;
         free(ch->ch_prompt);
         ch->ch_prompt = NULL;
-- 
2.43.0


From b50b341d45b61dd1b8e9e7613584e7b64c02a972 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 43/64] fix: endless recursion on a tree that refers to itself
 at its top level

---
 cligen_expand.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 42b1210..919b570 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -347,6 +347,13 @@ co_filter_merge(cg_obj *co,
     return 0;
 }
 
+/*! Trees being expanded, to stop at references to a tree at its own top level
+ */
+struct tree_chain {
+    struct tree_chain *tc_up;
+    parse_tree        *tc_pt;
+};
+
 /*! Make a pt expand of single co using shallow copy
  *
  * @param[in]   h          Handle needed to resolve tree-references (\@tree)
@@ -354,6 +361,7 @@ co_filter_merge(cg_obj *co,
  * @param[in]   cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]   cvt        Tokenized string: vector of tokens
  * @param[in]   ptorig     Original parsetree
+ * @param[in]   up         Trees that are being expanded
  * @param[out]  ptnew      Expanded parse-tree to expand. In: original, out: expanded
  * @retval      0          OK
  * @retval     -1          Error
@@ -364,12 +372,13 @@ co_filter_merge(cg_obj *co,
  * This is to handle cases of predefined trees, like @datamodel
  */
 static int
-co_expand_treeref_copy_shallow(cligen_handle h,
-                               cg_obj       *co0,
-                               cvec         *cvv_filter,
-                               cvec         *cvt,
-                               parse_tree   *ptorig,
-                               parse_tree   *ptnew)
+co_expand_treeref_copy_shallow(cligen_handle      h,
+                               cg_obj            *co0,
+                               cvec              *cvv_filter,
+                               cvec              *cvt,
+                               parse_tree        *ptorig,
+                               struct tree_chain *up,
+                               parse_tree        *ptnew)
 {
     int         retval = -1;
     cg_obj     *coparent;
@@ -379,6 +388,8 @@ co_expand_treeref_copy_shallow(cligen_handle h,
     parse_tree *ptref2 = NULL;   /* tree referenced by pt0 orig */
     cvec       *cvv = NULL;
     cg_var     *cv;
+    struct tree_chain  chain = {up, ptorig};
+    struct tree_chain *tc;
 
     if (ptorig == NULL){
         errno = EINVAL;
@@ -394,6 +405,10 @@ co_expand_treeref_copy_shallow(cligen_handle h,
         if (cot->co_type == CO_REFERENCE){
             if (tree_resolve(h, cot, cvt, &ptref2) < 0)
                 goto done;
+            for (tc = &chain; tc && tc->tc_pt != ptref2; tc = tc->tc_up)
+                ;
+            if (tc != NULL) /* adds no commands that are not already there */
+                continue;
             if ((cvv = cvec_new(0)) == NULL)
                 goto done;
             if (co_find_label_filters(h, cot, cvv) < 0)
@@ -406,7 +421,7 @@ co_expand_treeref_copy_shallow(cligen_handle h,
                 if (cvec_append_var(cvv, cv) == NULL)
                     goto done;
             }
-            if (co_expand_treeref_copy_shallow(h, co0, cvv, cvt, ptref2, ptnew) < 0)
+            if (co_expand_treeref_copy_shallow(h, co0, cvv, cvt, ptref2, &chain, ptnew) < 0)
                 goto done;
             cvec_free(cvv);
             cvv = NULL;
@@ -824,6 +839,7 @@ pt_local_pipe(parse_tree *pt)
  * @param[in]     hide       If 0, include hidden commands. If 1, do not include hidden commands.
  * @param[in]     expandvar  Set if VARS should be expanded, eg ? <tab>
  * @param[in]     callbacks  Callback structure of expanded treeref
+ * @param[in]     pt         Tree the reference is in
  * @param[in,out] ptn        New expanded parse-tree
  * @retval        0          OK
  * @retval       -1          Error
@@ -837,10 +853,12 @@ pt_expand_reference(cligen_handle h,
                     int           hide,
                     int           expandvar,
                     cg_callback  *callbacks,
+                    parse_tree   *pt,
                     parse_tree   *ptn)
 {
     int         retval = -1;
     parse_tree *ptref = NULL;   /* tree referenced by pt0 orig */
+    struct tree_chain chain = {NULL, pt};
     cvec       *cvv2 = NULL;
     parse_tree *pttmp = NULL;
     cg_obj     *cot;
@@ -849,6 +867,8 @@ pt_expand_reference(cligen_handle h,
     ptref = NULL;
     if (tree_resolve(h, coref, cvt, &ptref) < 0)
         goto done;
+    if (ptref == pt) /* adds no commands that are not already there */
+        goto ok;
     /* pttmp is a transient copy of the expanded tree */
     if ((pttmp = pt_new()) == NULL)
         goto done;
@@ -857,7 +877,7 @@ pt_expand_reference(cligen_handle h,
     if (co_find_label_filters(h, coref, cvv2) < 0)
         goto done;
     /* Expand ptref to pttmp */
-    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, pttmp) < 0)
+    if (co_expand_treeref_copy_shallow(h, coref, cvv2, cvv_var, ptref, &chain, pttmp) < 0)
         goto done;
     /* Copy the expand tree to the final tree.
      */
@@ -872,6 +892,7 @@ pt_expand_reference(cligen_handle h,
                           ptn) < 0)
             goto done;
     }
+ ok:
     retval = 0;
  done:
     if (cvv2)
@@ -950,6 +971,7 @@ pt_expand(cligen_handle h,
                                         cvv_filter,
                                         hide, expandvar,
                                         callbacks,
+                                        pt,
                                         ptn) < 0)
                     goto done;
             }
@@ -977,6 +999,7 @@ pt_expand(cligen_handle h,
                                             cvv_filter,
                                             hide, expandvar,
                                             callbacks,
+                                            pt,
                                             ptn) < 0)
                         goto done;
                 }
-- 
2.43.0


From 3c9fb9200e9ec24e64b73f29519ae9f95b645e62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 44/64] fix: reason leaked, and a malformed preference was
 accepted

---
 cligen_cv.c    | 1 +
 cligen_parse.y | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 6e18c69..205bc65 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3161,6 +3161,7 @@ cv_parse(const char *str,
     }
     if (retval == 0){
         fprintf(stderr, "cv parse error: %s\n", reason);
+        free(reason);
         return -1;
     }
     return 0;
diff --git a/cligen_parse.y b/cligen_parse.y
index 84dcf0a..92ffd37 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -449,6 +449,7 @@ cg_preference(cligen_yacc *cy,
     }
     if (parse_uint16(pref, &yv->co_preference, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        free(reason);
         return -1;
     }
     return 0;
@@ -1187,8 +1188,9 @@ cg_dec64_n(cligen_yacc *cy,
         fprintf(stderr, "No var obj");
         return -1;
     }
-    if (parse_uint8(fraction_digits, &yv->co_dec64_n, NULL) != 1){
+    if (parse_uint8(fraction_digits, &yv->co_dec64_n, &reason) != 1){
         cligen_parseerror1(cy, reason);
+        free(reason);
         return -1;
     }
     return 0;
@@ -1485,7 +1487,7 @@ keypair     : NAME '(' ')' {
               }
             | V_PREFERENCE ':' NUMBER {
                  _PARSE_DEBUG("keypair->preference : number");
-                 cg_preference(_cy, $3); free($3);
+                 if (cg_preference(_cy, $3) < 0) _YYERROR("keypair"); free($3);
               }
             ;
 
-- 
2.43.0


From 332fdb184589efba6108dc3e0c2b90b0e8b5f81c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 45/64] fix: crash on an empty treename and on a choice with an
 empty first member

---
 cligen_parse.y | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 92ffd37..fec3ad0 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -728,11 +728,13 @@ cgy_var_choice_append(cligen_yacc *cy,
     int len;
     char *s;
 
-    len = strlen(str)+strlen(app) + 2;
+    len = (str?strlen(str):0)+strlen(app) + 2;
     if ((s = realloc(str, len)) == NULL) {
         fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
         return NULL;
     }
+    if (str == NULL)
+        *s = '\0';
     strncat(s, "|", len-1);
     strncat(s, app, len-1);
     return s;
@@ -1302,7 +1304,7 @@ assignment  : NAME '=' DQ charseq DQ
                                   cgy_assignment(_cy, $1,$4);free($1); free($4);}
             | NAME '=' DQ DQ
                                  { _PARSE_DEBUG("assignment->\" \"");
-                                  cgy_assignment(_cy, $1,NULL);free($1);}
+                                  cgy_assignment(_cy, $1,"");free($1);}
             ;
 
 flag        : NAME               { _PARSE_DEBUG("flag->NAME");
-- 
2.43.0


From db4b6b1757b0aca178bef0c7aba28b982cb11ee5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:57:43 +0000
Subject: [PATCH 46/64] fix: alternatives lost in a choice without grouping,
 callbacks called twice after [a][a]

---
 cligen_parse.y | 53 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index fec3ad0..ee3ece0 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -489,6 +489,32 @@ cgy_list_delete(struct cgy_list **cl0)
     return 0;
 }
 
+/*! Remove all but the first of the elements of a list with the same object
+ *
+ * The same object is added more than once by eg (a|a) and [a][a], and would get its callbacks twice
+ * @param[in]  cl0   List of objects
+ */
+static int
+cgy_list_uniq(struct cgy_list *cl0)
+{
+    struct cgy_list  *cl;
+    struct cgy_list **clp;
+
+    for (clp = &cl0; (cl = *clp) != NULL;){
+        if (co_flags_get(cl->cl_obj, CO_FLAGS_MARK)){
+            *clp = cl->cl_next;
+            free(cl);
+        }
+        else {
+            co_flags_set(cl->cl_obj, CO_FLAGS_MARK);
+            clp = &cl->cl_next;
+        }
+    }
+    for (cl = cl0; cl; cl = cl->cl_next)
+        co_flags_reset(cl->cl_obj, CO_FLAGS_MARK);
+    return 0;
+}
+
 /*! Create new tmp variable cligen object
  *
  * It must be filled in by later functions.
@@ -930,6 +956,28 @@ ctx_peek_swap2(cligen_yacc *cy)
     return 0;
 }
 
+/*! Add the alternatives of a choice without grouping to object list
+ *
+ * Typically done after "c1|c2", before ";"
+ * @param[in]  cy  CLIgen yacc parse struct
+ * @see ctx_peek_swap
+ */
+static int
+ctx_peek_add(cligen_yacc *cy)
+{
+    struct cgy_stack *cs;
+    struct cgy_list  *cl;
+
+    if ((cs = cy->cy_stack) == NULL || cs->cs_saved == NULL)
+        return 0;
+    for (cl = cs->cs_saved; cl; cl = cl->cl_next){
+        if (cgy_list_push(cl->cl_obj, &cy->cy_list) < 0)
+            return -1;
+    }
+    cgy_list_delete(&cs->cs_saved);
+    return cgy_list_uniq(cy->cy_list);
+}
+
 static int
 delete_stack_element(struct cgy_stack *cs)
 {
@@ -972,6 +1020,7 @@ ctx_pop_add(cligen_yacc *cy)
         if (cgy_list_push(co, &cy->cy_list) < 0)
             return -1;
     }
+    cgy_list_uniq(cy->cy_list);
     delete_stack_element(cs);
     return 0;
 }
@@ -1001,6 +1050,7 @@ ctx_pop(cligen_yacc *cy)
         if (cgy_list_push(co, &cy->cy_list) < 0)
             return -1;
     }
+    cgy_list_uniq(cy->cy_list);
     delete_stack_element(cs);
     return 0;
 }
@@ -1253,7 +1303,8 @@ lines       : lines line  { _PARSE_DEBUG("lines->lines line"); }
             |             { _PARSE_DEBUG("lines->"); }
             ;
 
-line        : decltop line1  { _PARSE_DEBUG("line->decltop line1"); }
+line        : decltop        { if (ctx_peek_add(_cy) < 0) _YYERROR("line"); }
+              line1          { _PARSE_DEBUG("line->decltop line1"); }
             | assignment ';' { _PARSE_DEBUG("line->assignment ;"); }
             ;
 
-- 
2.43.0


From 6657cb53ab712b49792a7b536122f2a6a4a9712d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 47/64] fix: hide on a command with a sub-menu also hid the
 first command in it

---
 cligen_parse.y | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index ee3ece0..0b0d529 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -873,13 +873,26 @@ ctx_push(cligen_yacc *cy,
     cy->cy_stack = cs; /* Push the new stack element */
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (cvec_find(cy->cy_cvec, "hide") != NULL)
-            co_flags_set(co, CO_FLAGS_HIDE);
+        if (cy->cy_cvec){
+            if (cvec_find(cy->cy_cvec, "hide") != NULL)
+                co_flags_set(co, CO_FLAGS_HIDE);
+            if (co->co_cvec)
+                cvec_free(co->co_cvec);
+            if ((co->co_cvec = cvec_dup(cy->cy_cvec)) == NULL){
+                fprintf(stderr, "%s: cvec_dup: %s\n", __FUNCTION__, strerror(errno));
+                return -1;
+            }
+        }
         if (sets)
             co_sets_set(co, 1);
         if (cgy_list_push(co, &cs->cs_list) < 0)
             return -1;
     }
+    /* The variables belong to the objects above, not to those that follow */
+    if (cy->cy_cvec){
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     return 0;
 }
 
-- 
2.43.0


From 8ea171fd71f753cf2afac4642abf9cb09d043069 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 48/64] fix: ranges and lengths of the wrong type accepted,
 repeated variable options leaked

A range on a string, a length on a number, or an option after the range that changed the
type or the fraction-digits gave bounds of another type than the variable, so that values
were compared with whatever the bytes meant.
---
 cligen_parse.y | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 0b0d529..a00cef4 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -424,6 +424,8 @@ static int
 expand_fn(cligen_yacc *cy,
           char        *fn)
 {
+    if (cy->cy_var->co_expand_fn_str)
+        free(cy->cy_var->co_expand_fn_str);
     cy->cy_var->co_expand_fn_str = fn;
     return 0;
 }
@@ -432,6 +434,8 @@ static int
 cg_translate(cligen_yacc *cy,
              char        *fn)
 {
+    if (cy->cy_var->co_translate_fn_str)
+        free(cy->cy_var->co_translate_fn_str);
     cy->cy_var->co_translate_fn_str = fn;
     return 0;
 }
@@ -563,6 +567,36 @@ cgy_var_name_type(cligen_yacc *cy,
     return 0;
 }
 
+/*! Check that ranges and lengths are given for the type the variable has
+ *
+ * A length is for strings, a range for numbers of the same type as its bounds. An option
+ * following the bounds may have changed the type, or the fraction-digits, of the variable.
+ * @param[in]  cy  CLIgen yacc parse struct
+ * @param[in]  coy Variable object
+ * @retval     0   OK
+ * @retval    -1   Error
+ */
+static int
+cgy_var_range_check(cligen_yacc *cy,
+                    cg_obj      *coy)
+{
+    cg_var      *cv;
+    enum cv_type type = coy->co_vtype;
+    int          i;
+
+    if (type == CGV_STRING || type == CGV_REST)
+        type = CGV_UINT64; /* The type of lengths */
+    for (i=0; i<coy->co_rangelen; i++){
+        cv = cvec_i(coy->co_rangecvv_upp, i);
+        if ((!cv_isint(type) && type != CGV_DEC64) || cv_type_get(cv) != type ||
+            (type == CGV_DEC64 && cv_dec64_n_get(cv) != coy->co_dec64_n)){
+            cligen_parseerror1(cy, "Range or length does not apply to the type of the variable");
+            return -1;
+        }
+    }
+    return 0;
+}
+
 /*! Complete variable cligen object after parsing is complete,
  *
  * And insert it into object hierarchies.
@@ -592,6 +626,8 @@ cgy_var_post(cligen_yacc *cy)
         cligen_parseerror1(cy, "Wrong or unassigned variable type");
         return -1;
     }
+    if (cgy_var_range_check(cy, coy) < 0)
+        return -1;
 #if 0 /* XXX dont really know what i am doing but variables dont behave nice in choice */
     if (cy->cy_opt){     /* get coparent from stack */
         if (cy->cy_stack == NULL){
@@ -1504,10 +1540,12 @@ keypair     : NAME '(' ')' {
                  expand_fn(_cy, $1); }
             | V_SHOW ':' NAME {
                  _PARSE_DEBUG("keypair->show:name");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $3;
               }
             | V_SHOW ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->show:DQ charseq DQ");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $4;
               }
             | V_RANGE '[' numdec ':' numdec ']' {
@@ -1532,10 +1570,12 @@ keypair     : NAME '(' ')' {
               }
             | V_CHOICE choices {
                  _PARSE_DEBUG("keypair->choice choices");
+                 if (_CY->cy_var->co_choice) free(_CY->cy_var->co_choice);
                  _CY->cy_var->co_choice = $2;
               }
             | V_KEYWORD ':' NAME {
                  _PARSE_DEBUG("keypair->keyword name");
+                if (_CY->cy_var->co_keyword) free(_CY->cy_var->co_keyword);
                 _CY->cy_var->co_keyword = $3;
                 _CY->cy_var->co_vtype=CGV_STRING;
               }
-- 
2.43.0


From 25511ed72ff20e40e2aee6e680ce93ed9c3d2ce4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 49/64] fix: the detailed print of a tree could not be parsed,
 or gave another tree

Choices lost their variable, decimal64 ranges were printed as lengths, fraction-digits,
preferences, inverted patterns, types of arguments and values of local variables were not
printed, local variables were printed twice, expansion arguments were printed as one, names
were not escaped, and options before a single command were not followed by braces.
---
 cligen_callback.c |  63 ++++++++++++++----
 cligen_callback.h |   2 +
 cligen_print.c    | 161 +++++++++++++++++++++++++++++++++++-----------
 3 files changed, 175 insertions(+), 51 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..58e3791 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -137,28 +137,63 @@ co_callbacks_free(cg_callback **ccp)
     return 0;
 }
 
+/*! Print an argument, within quotes, as it is given in a specification
+ *
+ * @param[in,out] cb    CLIgen buffer string to print to
+ * @param[in]     cv    Argument
+ */
+int
+co_arg2cbuf(cbuf   *cb,
+            cg_var *cv)
+{
+    enum cv_type type = cv_type_get(cv);
+    const char  *s;
+
+    cbuf_append(cb, '"');
+    if (type == CGV_STRING || type == CGV_REST){
+        for (s = cv_string_get(cv); s && *s; s++){
+            if (*s == '\\' || *s == '"')
+                cbuf_append(cb, '\\');
+            cbuf_append(cb, *s);
+        }
+    }
+    else
+        cv2cbuf(cv, cb);
+    cbuf_append(cb, '"');
+    return 0;
+}
+
+/*! Print arguments of a function, as they are given in a specification
+ *
+ * @param[in,out] cb    CLIgen buffer string to print to
+ * @param[in]     cvv   Arguments, or NULL
+ */
+int
+co_args2cbuf(cbuf *cb,
+             cvec *cvv)
+{
+    cg_var *cv = NULL;
+    int     i = 0;
+
+    while ((cv = cvec_each(cvv, cv)) != NULL) {
+        if (i++)
+            cbuf_append(cb, ',');
+        if (cv_type_get(cv) != CGV_STRING)
+            cprintf(cb, "(%s)", cv_type2str(cv_type_get(cv)));
+        co_arg2cbuf(cb, cv);
+    }
+    return 0;
+}
+
 /*! Print a CLIgen object callback to a CLIgen buffer
  */
 int
 co_callback2cbuf(cbuf        *cb,
                  cg_callback *cc)
 {
-    int     i;
-    cg_var *cv;
-
     if (cc->cc_fn_str){
         cprintf(cb, ", %s(", cc->cc_fn_str);
-        if (cc->cc_cvec){
-            cv = NULL;
-            i = 0;
-            while ((cv = cvec_each(cc->cc_cvec, cv)) != NULL) {
-                if (i++)
-                    cprintf(cb, ",");
-                cprintf(cb, "\"");
-                cv2cbuf(cv, cb);
-                cprintf(cb, "\"");
-            }
-        }
+        co_args2cbuf(cb, cc->cc_cvec);
         cprintf(cb, ")");
     }
     return 0;
diff --git a/cligen_callback.h b/cligen_callback.h
index 899a66b..5d72df8 100644
--- a/cligen_callback.h
+++ b/cligen_callback.h
@@ -70,6 +70,8 @@ int            co_callback_fn_set(cg_callback *cc, cgv_fnstype_t *fn);
 cg_callback   *co_callback_next(cg_callback *cc);
 int            co_callback_copy(cg_callback *cc0, cg_callback **ccn);
 int            co_callbacks_free(cg_callback **ccp);
+int            co_arg2cbuf(cbuf *cb, cg_var *cv);
+int            co_args2cbuf(cbuf *cb, cvec *cvv);
 int            co_callback2cbuf(cbuf *cb, cg_callback *cc);
 size_t         co_callback_size(cg_callback *cc);
 
diff --git a/cligen_print.c b/cligen_print.c
index 629a4ab..e079d59 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -62,6 +62,70 @@
 /* Static prototypes */
 static int pt2cbuf(cbuf *cb, parse_tree *pt, int level, int brief);
 
+/*! Print the name of a command so that it is read back as the same name
+ *
+ * @param[in,out] cb    CLIgen buffer string to print to
+ * @param[in]     name  Name of a command
+ */
+static void
+name2cbuf(cbuf       *cb,
+          const char *name)
+{
+    for (; *name; name++){
+        if (strchr("@ \t,#\r=;\\<()[]|{}", *name))
+            cbuf_append(cb, '\\');
+        cbuf_append(cb, *name);
+    }
+}
+
+/*! Print a help text so that it is read back as the same text
+ *
+ * @param[in,out] cb    CLIgen buffer string to print to
+ * @param[in]     help  Help text
+ */
+static void
+help2cbuf(cbuf       *cb,
+          const char *help)
+{
+    const char *line;
+
+    cbuf_append_str(cb, "(\"");
+    for (line = help;; line++){
+        if (*line == '\n' || *line == '\0'){
+            if (line == help || line[-1] == '\n')
+                cbuf_append(cb, ' '); /* An empty line cannot be given as such */
+        }
+        if (*line == '\0')
+            break;
+        if (*line == ')' && line != help && line[-1] == '"')
+            cbuf_append(cb, ' '); /* Not the end of the text. Blanks here are skipped when read */
+        cbuf_append(cb, *line);
+    }
+    cbuf_append_str(cb, "\")");
+}
+
+/*! Print local variables of a command
+ *
+ * @param[in,out] cb    CLIgen buffer string to print to
+ * @param[in]     cvv   Local variables, or NULL
+ * @param[in]     brief If set, names only, otherwise clispec parsable format
+ */
+static void
+locals2cbuf(cbuf *cb,
+            cvec *cvv,
+            int   brief)
+{
+    cg_var *cv = NULL;
+
+    while ((cv = cvec_each(cvv, cv)) != NULL){
+        cprintf(cb, ", %s", cv_name_get(cv));
+        if (!brief && cv_type_get(cv) == CGV_STRING){
+            cbuf_append_str(cb, "=");
+            co_arg2cbuf(cb, cv);
+        }
+    }
+}
+
 /*! Print the syntax specification of a variable syntax spec to a cligen buf
  *
  * @param[out] cb    CLIgen buffer string to print to
@@ -89,7 +153,7 @@ cov2cbuf(cbuf   *cb,
     cg_var *cv1;
     cg_var *cv2;
 
-    if (co->co_choice){
+    if (brief && co->co_choice){
         if (strchr(co->co_choice, '|'))
             cprintf(cb, "(%s)", co->co_choice);
         else
@@ -103,9 +167,10 @@ cov2cbuf(cbuf   *cb,
         }
         else{
             cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype));
-
+            if (co->co_vtype == CGV_DEC64 && co->co_dec64_n != CGV_DEC64_N_DEFAULT)
+                cprintf(cb, " fraction-digits:%d", co->co_dec64_n);
             for (i=0; i<co->co_rangelen; i++){
-                if (cv_isint(co->co_vtype))
+                if (cv_isint(co->co_vtype) || co->co_vtype == CGV_DEC64)
                     cprintf(cb, " range[");
                 else
                     cprintf(cb, " length[");
@@ -121,23 +186,19 @@ cov2cbuf(cbuf   *cb,
             if (co->co_show)
                 cprintf(cb, " show:\"%s\"", co->co_show);
             if (co->co_expand_fn_str){
-                cprintf(cb, " %s(\"", co->co_expand_fn_str);
-                if (co->co_expand_fn_vec){
-                    cg_var *cv = NULL;
-                    int   i = 0;
-                    while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
-                        if (i++)
-                            cprintf(cb, ",");
-                        cv2cbuf(cv, cb);
-                    }
-                }
-                cprintf(cb, "\")");
+                cprintf(cb, " %s(", co->co_expand_fn_str);
+                co_args2cbuf(cb, co->co_expand_fn_vec);
+                cprintf(cb, ")");
             }
             cv1 = NULL;
             while ((cv1 = cvec_each(co->co_regex, cv1)) != NULL)
-                cprintf(cb, " regexp:\"%s\"", cv_string_get(cv1));
+                cprintf(cb, " regexp:%s\"%s\"", cv_flag(cv1, V_INVERT)?"!":"", cv_string_get(cv1));
             if (co->co_translate_fn_str)
                 cprintf(cb, " translate:%s()", co->co_translate_fn_str);
+            if (co->co_preference)
+                cprintf(cb, " preference:%d", co->co_preference);
+            if (co->co_choice)
+                cprintf(cb, " choice:%s", co->co_choice);
             cprintf(cb, "%c", VARIABLE_POST);
         }
     }
@@ -145,6 +206,21 @@ cov2cbuf(cbuf   *cb,
     return retval;
 }
 
+/*! Does the object have a local variable with a string value
+ *
+ * @param[in]  co  CLIgen object
+ */
+static int
+has_assignment(cg_obj *co)
+{
+    cg_var *cv = NULL;
+
+    while (co && (cv = cvec_each(co->co_cvec, cv)) != NULL)
+        if (cv_type_get(cv) == CGV_STRING)
+            return 1;
+    return 0;
+}
+
 /*! Print a CLIgen object (cg object / co) to a CLIgen buffer
  */
 static int
@@ -158,7 +234,7 @@ co2cbuf(cbuf   *cb,
     parse_tree  *pt;
     cg_obj      *co1;
     cg_obj      *cot = NULL;
-    cg_var      *cv;
+    int          braces;
 
     if (co == NULL){
         errno = EINVAL;
@@ -172,12 +248,26 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, "[");
     switch (co->co_type){
     case CO_COMMAND:
-        if (co->co_command)
-            cprintf(cb, "%s", co->co_command);
+        if (co->co_command){
+            if (brief)
+                cprintf(cb, "%s", co->co_command);
+            else
+                name2cbuf(cb, co->co_command);
+        }
         break;
     case CO_REFERENCE:
-        if (co->co_command)
-            cprintf(cb, "@%s", co->co_command);
+        if (co->co_command){
+            if (brief)
+                cprintf(cb, "@%s", co->co_command);
+            else if (co->co_command[0] == '|' && co->co_command[1]){
+                cbuf_append_str(cb, "@|");
+                name2cbuf(cb, co->co_command+1);
+            }
+            else{
+                cbuf_append_str(cb, "@");
+                name2cbuf(cb, co->co_command);
+            }
+        }
         break;
     case CO_VARIABLE:
         cov2cbuf(cb, co, brief);
@@ -189,32 +279,29 @@ co2cbuf(cbuf   *cb,
     if (co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "]");
     if (brief == 0){
-        if (co->co_helpstring){
-            cbuf_append_str(cb, "(\"");
-            cbuf_append_str(cb, co->co_helpstring);
-            cbuf_append_str(cb, "\")");
-        }
-        if (co_flags_get(co, CO_FLAGS_HIDE))
+        if (co->co_helpstring)
+            help2cbuf(cb, co->co_helpstring);
+        if (co_flags_get(co, CO_FLAGS_HIDE) && cvec_find(co->co_cvec, "hide") == NULL)
             cprintf(cb, ", hide");
-        cv = NULL;
-        while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
             co_callback2cbuf(cb, cc);
         }
     }
-    cv = NULL;
-    while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-        cprintf(cb, ", %s", cv_name_get(cv));
+    locals2cbuf(cb, co->co_cvec, brief);
     if (co_terminal(co, &cot) &&
         cot != NULL){
-        cg_var *cv = NULL;
-        while ((cv = cvec_each(cot->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
+        locals2cbuf(cb, cot->co_cvec, brief);
         cprintf(cb, ";");
     }
     pt = co_pt_get(co);
-    if (pt_len_get(pt) > 1){
+    /* A single command follows on the same line, but not after options, and an assignment
+     * is local only inside braces */
+    braces = pt_len_get(pt) > 1 ||
+        (!brief && pt_len_get(pt) == 0) ||
+        (!brief && pt_len_get(pt) == 1 && cot == NULL &&
+         (co_sets_get(co) || co_flags_get(co, CO_FLAGS_HIDE) || cvec_len(co->co_cvec) ||
+          has_assignment(pt_vec_i_get(pt, 0))));
+    if (braces){
         if (co_sets_get(co))
             cprintf(cb, "@");
         cprintf(cb, "{\n");
@@ -226,7 +313,7 @@ co2cbuf(cbuf   *cb,
             cprintf(cb, "\n");
     if (pt2cbuf(cb, pt, marginal+3, brief) < 0)
         goto done;
-    if (pt_len_get(pt)>1){
+    if (braces){
         cprintf(cb, "%*s", marginal, "");
         cprintf(cb, "}\n");
     }
-- 
2.43.0


From 5fce62af05564a18fdeff8ac9f8c3c1bf53cc20d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:31:42 +0000
Subject: [PATCH 50/64] fix: after a failing piped command its process was not
 waited for and later output was lost

---
 cligen_read.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index a7aaf57..3a390ba 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -976,22 +976,22 @@ cligen_eval_pipe_post(cligen_handle h,
             if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
                 goto done;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
     }
+    retval = 0;
+ done:
+    /* Also on error: later output is not for this child */
+    cli_pipe_output_socket_set(-1);
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
     if(waitpid(childpid, &status, 0) != childpid){
         perror("waitpid");
-        goto done;
+        retval = -1;
     }
-    retval = 0;
-    if (WIFEXITED(status)){
+    else if (WIFEXITED(status)){
         ret = WEXITSTATUS(status);
         if (ret != 0)
             retval = -1;
     }
- done:
     return retval;
 }
 
@@ -1078,12 +1078,19 @@ cligen_eval(cligen_handle h,
         }
     }
     if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
+        ret = cligen_eval_pipe_post(h, spipe, childpid);
+        childpid = 0;
+        if (ret < 0){
             goto done;
         }
     }
     retval = 0;
  done:
+    if (childpid > 0){ /* A callback failed */
+        cli_pipe_output_socket_set(-1);
+        kill(childpid, SIGTERM);
+        waitpid(childpid, NULL, 0);
+    }
     if (spipe != -1)
         close(spipe);
     if (wh)
-- 
2.43.0


From 91783d4539b7c01ebed434132abe739439237fee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:31:48 +0000
Subject: [PATCH 51/64] fix: a pipe function that stops reading killed the
 process and lost its output

---
 cligen_io.c   | 16 +++++++++++-----
 cligen_read.c |  2 ++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 804b548..d633d78 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -268,6 +268,8 @@ cligen_output(FILE       *f,
     int     term_rows;
     int     term_width;
     ssize_t inbuflen;
+    ssize_t len;
+    ssize_t i = 0;
     int     s = -1;
     int     paging;
 
@@ -294,11 +296,15 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
-            perror("cligen_output write on pipe socket");
-            close(s);
-            cli_pipe_output_socket_set(-1);
-            goto done;
+        while (i < inbuflen){
+            if ((len = send(s, inbuf+i, inbuflen-i, MSG_NOSIGNAL)) < 0){
+                if (errno == EINTR)
+                    continue;
+                if (errno != EPIPE) /* The pipe function may stop reading, it still has output */
+                    perror("cligen_output send on pipe socket");
+                goto done;
+            }
+            i += len;
         }
     }
     else{
diff --git a/cligen_read.c b/cligen_read.c
index 3a390ba..a7ec72d 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -963,6 +963,8 @@ cligen_eval_pipe_post(cligen_handle h,
         /* Read until EOF */
         while (ret != 0) {
             if ((len = read(s, buf, 4096)) < 0){
+                if (errno == ECONNRESET) /* EOF, but the child did not read all its input */
+                    break;
                 perror("cli_pipe_exec_cb, read");
                 goto done;
             }
-- 
2.43.0


From 8a22c5a32d5def56be84e71c84bee08d1801ba48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:31:56 +0000
Subject: [PATCH 52/64] fix: failing fork and dup2 left descriptors open or a
 second user interface

---
 cligen_read.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index a7ec72d..9924ead 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -893,17 +893,20 @@ cligen_eval_pipe_pre(cligen_handle h,
 
     if (socketpair(AF_UNIX, SOCK_STREAM, 0, spair) < 0)
         goto done;
-    if ((*pidp = fork()) < 0)
+    if ((*pidp = fork()) < 0){
+        close(spair[0]);
+        close(spair[1]);
         goto done;
+    }
     if (*pidp == 0) {   /* Child */
         close(spair[0]);
         close(0);
         if (dup2(spair[1], STDIN_FILENO) < 0){
-            goto done;
+            exit(-1);
         }
         close(1);
         if (dup2(spair[1], STDOUT_FILENO) < 0){
-            goto done;
+            exit(-1);
         }
         close(spair[1]);
         fn = co_callback_fn_get(cc);
-- 
2.43.0


From 3b8e730594c61e0bc07add54c25d920567d1d696 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 53/64] fix: after a comment among the options of a command a
 string was read as a name with its quotes

---
 cligen_parse.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 08808d3..70b7046 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -191,7 +191,7 @@ stripdup(char *s0)
 
 <OPTION>[ \t]+
 <OPTION>,                { return *yytext; }
-<OPTION>#                 { _CY->cy_lex_state =INITIAL; BEGIN(COMMENT); }
+<OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
 <OPTION>=                 { return *yytext; }
 <OPTION>;                 { BEGIN(INITIAL); return *yytext;}
-- 
2.43.0


From c2de0529d48d11f3ad8c3bf0e36ae3497724f938 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 54/64] fix: lines ending in CR LF and newlines between the
 options of a variable were read as part of names

---
 cligen_parse.l | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 70b7046..9a2460c 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -145,14 +145,14 @@ stripdup(char *s0)
                             return HELPSTR;}
 
 <NAMEORTYPE>\>            { BEGIN(INITIAL); return *yytext; }
-<NAMEORTYPE>\n            { _CY->cy_linenum++; }
+<NAMEORTYPE>\n            { _CY->cy_linenum++; BEGIN(VARIABLE); }
 <NAMEORTYPE>\:            { return *yytext; }
-<NAMEORTYPE>[ \t]+        { BEGIN(VARIABLE); }
-<NAMEORTYPE>([^ \t>:]|\\.)+  {
+<NAMEORTYPE>[ \t\r]+      { BEGIN(VARIABLE); }
+<NAMEORTYPE>([^ \t\n\r>:]|\\.)+  {
                             cligen_parselval.string = strdup(yytext);
                             return NAME; }
 
-<VARIABLE>[ \t]+
+<VARIABLE>[ \t\r]+
 <VARIABLE>\n              { _CY->cy_linenum++; }
 <VARIABLE>\>              { BEGIN(INITIAL); return *yytext; }
 <VARIABLE>\:              { return *yytext; }
@@ -175,21 +175,21 @@ stripdup(char *s0)
 <VARIABLE>preference      { return V_PREFERENCE; }
 <VARIABLE>[-+]?[0-9]+\.[0-9]+ { cligen_parselval.string = strdup(yytext); return DECIMAL;}
 <VARIABLE>[-+]?[0-9]+     { cligen_parselval.string = strdup(yytext); return NUMBER;}
-<VARIABLE>([^ \t\n>:\|\"\(\)\[\]]|\\.)+ {
+<VARIABLE>([^ \t\n\r>:\|\"\(\)\[\]]|\\.)+ {
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 
-<CHOICE>[ \t]+
+<CHOICE>[ \t\r]+
 <CHOICE>\n              { _CY->cy_linenum++; }
 <CHOICE>\|              { return *yytext; }
 <CHOICE>\>              { BEGIN(INITIAL); return *yytext; }
 <CHOICE>[-+]?[0-9]+\.[0-9]+ { cligen_parselval.string = strdup(yytext); return DECIMAL;}
 <CHOICE>[-+]?[0-9]+     { cligen_parselval.string = strdup(yytext); return NUMBER;}
-<CHOICE>([^ \t\n>\|\"\(\)\[\]]|\\.)+ {
+<CHOICE>([^ \t\n\r>\|\"\(\)\[\]]|\\.)+ {
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 
-<OPTION>[ \t]+
+<OPTION>[ \t\r]+
 <OPTION>,                { return *yytext; }
 <OPTION>#                 { _CY->cy_lex_state =OPTION; BEGIN(COMMENT); }
 <OPTION>\n                { _CY->cy_linenum++; }
@@ -200,7 +200,7 @@ stripdup(char *s0)
 <OPTION>\)                { return *yytext; }
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
-<OPTION>([^ \t,#\n=;\(\)\{\}\"]|\\.)+   {
+<OPTION>([^ \t,#\n\r=;\(\)\{\}\"]|\\.)+   {
                                  cligen_parselval.string = strdup(yytext);
                                  return NAME; }
 <OPTION>.                 { return -1;}
-- 
2.43.0


From 7d03ab386a5e39a6300ee1c7487187442316d7ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 55/64] fix: a set after an option of its command was refused

---
 cligen_parse.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_parse.l b/cligen_parse.l
index 9a2460c..d36dce6 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -199,6 +199,7 @@ stripdup(char *s0)
 <OPTION>\(                { return *yytext; }
 <OPTION>\)                { return *yytext; }
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
+<OPTION>"@{"              { BEGIN(INITIAL); return SETS; }
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
 <OPTION>([^ \t,#\n\r=;\(\)\{\}\"]|\\.)+   {
                                  cligen_parselval.string = strdup(yytext);
-- 
2.43.0


From b65f867b60e1972b7dbc00c393349d7dea2af47c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 56/64] fix: a specification file that cannot be read was taken
 as empty, and text after a null character was dropped

---
 cligen_syntax.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index fad8ea4..c926c76 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -206,8 +206,16 @@ clispec_parse_file(cligen_handle h,
             memset(buf+len, 0, len);
             len *= 2;
         }
+        if (c == '\0'){ /* Would end the string and silently drop the rest of the file */
+            fprintf(stderr, "%s: %s: null character in specification\n", __FUNCTION__, name);
+            goto done;
+        }
         buf[i++] = (char)(c&0xff);
     } /* read a line */
+    if (ferror(f)){
+        fprintf(stderr, "%s: %s: read error\n", __FUNCTION__, name);
+        goto done;
+    }
     if (clispec_parse_str(h, buf, name, treename, pt, cvv) < 0)
         goto done;
     retval = 0;
-- 
2.43.0


From 3f8496ff58170d5dcbdbf570d40d0a5c22138302 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 57/64] fix: parsing an empty specification leaked its parse
 tree

---
 cligen_syntax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index c926c76..0efd235 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -154,6 +154,8 @@ clispec_parse_str(cligen_handle h,
         if ((co=pt_vec_i_get(pt, i)) != NULL)
             co_up_set(co, NULL);
     }
+    if (ptp == NULL && strlen(str) == 0) /* Not added to the handle */
+        co_pt_set(cot, NULL);
     retval = 0;
   done:
     if (cot)
-- 
2.43.0


From a16887f8a3b4b073437dfd6d407e3ec0714d50fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 58/64] fix: paged output while editing a line left the
 terminal without echo

---
 cligen_getline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 004b056..6f39298 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -144,6 +144,7 @@ static int   search_last = 0;     /* last match found */
 #ifdef POSIX            /* use POSIX interface */
 #include <termios.h>
 struct termios  new_termios, old_termios;
+static int      gl_char_depth = 0;   /* gl_char_init calls not yet undone */
 #else /* not POSIX */
 #include <sys/ioctl.h>
 #ifdef M_XENIX  /* does not really use bsd terminal interface */
@@ -177,6 +178,8 @@ gl_char_init(void)                      /* turn off input echo */
 {
 #ifdef __unix__
 #ifdef POSIX
+    if (gl_char_depth++ > 0) /* Nested, eg paging while editing: keep the saved attributes */
+        return;
     tcgetattr(0, &old_termios);
     gl_intrc = old_termios.c_cc[VINTR];
     gl_quitc = old_termios.c_cc[VQUIT];
@@ -238,6 +241,8 @@ gl_char_cleanup(void)           /* undo effects of gl_char_init */
 {
 #ifdef __unix__
 #ifdef POSIX
+    if (gl_char_depth == 0 || --gl_char_depth > 0)
+        return;
     tcsetattr(0, TCSADRAIN, &old_termios);
 #else                   /* not POSIX */
 #ifdef TIOCSETN         /* BSD */
-- 
2.43.0


From 88891bc449f96ddc8a2a0a837bf606d0acb3cbf2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 59/64] fix: an interrupted read without an interrupt hook
 called a null pointer

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 6f39298..7dfb890 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -426,7 +426,7 @@ gl_getc(cligen_handle h)
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
+            if (gl_interrupt_hook && gl_interrupt_hook(h) <0)
                 return -1;
             continue;
         }
-- 
2.43.0


From 3865fd39ee8fc0eb633f275566f0edaa0ded12a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 60/64] fix: a signal while waiting for a key kept registered
 descriptors from being served until the next key

---
 cligen_getline.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 7dfb890..02c82bd 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -335,8 +335,14 @@ gl_unregfd(int fd)
     return -1;
 }
 
-int
-gl_select()
+/*! Wait for stdin, and call registered functions of other file descriptors meanwhile
+ *
+ * @param[in]  h     CLIgen handle
+ * @retval     0     Read from stdin
+ * @retval    -1     Interrupt hook failed
+ */
+static int
+gl_select(cligen_handle h)
 {
     int i;
     fd_set fdset = {0,};
@@ -346,12 +352,17 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
-            return -1;
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno != EINTR)
+                break;
+            if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                return -1;
+            continue;
+        }
         for(i = 0; i < nextfds; i++)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
-                    return -1;
+                    return 0;
         if (FD_ISSET(0, &fdset))
             break;
     }
@@ -421,7 +432,8 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    if (gl_select(h) < 0) /* block until something arrives on stdin */
+        return -1;
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
-- 
2.43.0


From 7be70aac90136c771d2a9b9a346499054be91e37 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:49:10 +0000
Subject: [PATCH 61/64] fix: expanding commands that several trees share
 changed the trees, freed parts of them and lost callbacks

---
 cligen_expand.c          | 176 +++++++++++++++++++++++++++++++++++++--
 cligen_expand.h          |   1 +
 cligen_handle.c          |   2 +
 cligen_handle_internal.h |   2 +
 cligen_match.c           |   1 -
 cligen_read.c            |   2 +
 6 files changed, 174 insertions(+), 10 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 919b570..bd5c9e8 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -70,6 +70,10 @@
 #include "cligen_callback.h"
 #include "cligen_object.h"
 #include "cligen_handle.h"
+#include "cligen_result.h"
+#include "cligen_read.h"
+#include "cligen_history.h"
+#include "cligen_handle_internal.h"
 #include "cligen_print.h"
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
@@ -347,6 +351,116 @@ co_filter_merge(cg_obj *co,
     return 0;
 }
 
+/*! Point from all objects of a copied tree to the objects they are copies of
+ *
+ * @param[in]  ptn   Copy of pt
+ * @param[in]  pt    Parse-tree
+ */
+static void
+pt_expand_origin(parse_tree *ptn,
+                 parse_tree *pt)
+{
+    int     i;
+    cg_obj *con;
+    cg_obj *co;
+
+    for (i=0; i<pt_len_get(ptn) && i<pt_len_get(pt); i++){
+        if ((con = pt_vec_i_get(ptn, i)) == NULL ||
+            (co = pt_vec_i_get(pt, i)) == NULL)
+            continue;
+        if (con->co_treeref_orig == NULL)
+            con->co_treeref_orig = co;
+        pt_expand_origin(co_pt_get(con), co_pt_get(co));
+    }
+}
+
+/*! Copy the sub-tree of an expanded object
+ *
+ * The sub-tree of an expanded object is that of the original object
+ * @param[in]  pt      Sub-tree of expanded object
+ * @param[in]  parent  Original object
+ * @retval     ptn     Copy
+ * @retval     NULL    Error
+ */
+static parse_tree *
+pt_expand_dup(parse_tree *pt,
+              cg_obj     *parent)
+{
+    parse_tree *ptn;
+
+    if ((ptn = pt_dup(pt, parent, 0x0)) != NULL)
+        pt_expand_origin(ptn, pt);
+    return ptn;
+}
+
+/*! Add an expanded object to an expanded parse-tree
+ *
+ * As co_insert, but if there is already an equivalent object, the sub-trees are merged in
+ * a copy, since they are parts of the original trees.
+ * @param[in]  h     CLIgen handle
+ * @param[in]  pt    Expanded parse-tree
+ * @param[in]  co1   Expanded object, may be deleted in the call
+ * @retval     co    Object in pt (co1 or an equivalent object)
+ * @retval     NULL  Error, co1 is deleted
+ */
+static cg_obj *
+co_expand_insert(cligen_handle h,
+                 parse_tree   *pt,
+                 cg_obj       *co1)
+{
+    struct cligen_handle *ch = handle(h);
+    cg_obj      *retval = NULL;
+    cg_obj      *co2 = NULL;
+    cg_obj      *parent = NULL;
+    parse_tree  *pt1;
+    parse_tree  *pt2;
+    parse_tree  *ptn = NULL;
+    parse_tree **vec;
+    int          i;
+
+    for (i=0; i<pt_len_get(pt); i++)
+        if ((co2 = pt_vec_i_get(pt, i)) != NULL && co_eq(co1, co2) == 0)
+            break;
+    if (i == pt_len_get(pt)){
+        if ((retval = co_insert1(pt, co1, 0)) != NULL)
+            co1 = NULL;
+        goto done;
+    }
+    if (co2->co_callbacks == NULL &&
+        co_callback_copy(co1->co_callbacks, &co2->co_callbacks) < 0)
+        goto done;
+    pt1 = co_pt_get(co1);
+    pt2 = co_pt_get(co2);
+    if (pt1 != pt2 && pt_len_get(pt1) > 0){
+        for (i=0; i<pt_len_get(pt2) && parent == NULL; i++)
+            if (pt_vec_i_get(pt2, i) != NULL)
+                parent = co_up(pt_vec_i_get(pt2, i));
+        for (i=0; i<ch->ch_expand_len; i++)
+            if (ch->ch_expand_vec[i] == pt2)
+                break;
+        if (i == ch->ch_expand_len){
+            if ((vec = realloc(ch->ch_expand_vec, (i+1)*sizeof(*vec))) == NULL)
+                goto done;
+            ch->ch_expand_vec = vec;
+            if ((pt2 = pt2 ? pt_expand_dup(pt2, parent) : pt_new()) == NULL)
+                goto done;
+            vec[ch->ch_expand_len++] = pt2;
+            co2->co_ptvec[0] = pt2;
+        }
+        if ((ptn = pt_expand_dup(pt1, parent)) == NULL)
+            goto done;
+        if (cligen_parsetree_merge(pt2, parent, ptn) < 0)
+            goto done;
+    }
+    retval = co2;
+ done:
+    if (ptn)
+        pt_free(ptn, 1);
+    if (co1)
+        co_free(co1, 0);
+    return retval;
+}
+
 /*! Trees being expanded, to stop at references to a tree at its own top level
  */
 struct tree_chain {
@@ -438,7 +552,8 @@ co_expand_treeref_copy_shallow(cligen_handle      h,
             if (cvec_len(cvv_filter) &&
                 co_filter_set(con, cvv_filter) == NULL)
                 goto done;
-            if (co_insert(ptnew, con) == NULL)
+            /* con may be deleted in the call */
+            if (co_expand_insert(h, ptnew, con) == NULL)
                 goto done;
             con = NULL;
         }
@@ -648,6 +763,7 @@ pt_expand_fn(cligen_handle h,
 
 /*! Expand a choice rule with actual commands
  *
+ * @param[in]  h          Cligen handle
  * @param[in]  co         Original cligen object (to expand into ptn)
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
  * @param[in]  transient  co may be "transient" if so use co->co_ref as new co_ref,...
@@ -656,7 +772,8 @@ pt_expand_fn(cligen_handle h,
  * @retval    -1          Error
  */
 static int
-pt_expand_choice(cg_obj       *co,
+pt_expand_choice(cligen_handle h,
+                 cg_obj       *co,
                  cvec         *cvv_filter,
                  int           transient,
                  parse_tree   *ptn)
@@ -681,7 +798,7 @@ pt_expand_choice(cg_obj       *co,
             if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
-            if (co_insert1(ptn, con, 0) == NULL)
+            if (co_expand_insert(h, ptn, con) == NULL)
                 goto done;
             con = NULL;
         }
@@ -765,7 +882,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, transient, ptn) < 0) // XXX filter
+        if (pt_expand_choice(h, co, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
@@ -797,7 +914,7 @@ pt_expand1_co(cligen_handle h,
         if (co_expand_sub(co, NULL, &con) < 0)
             goto done;
         /* con may be deleted in the call and need to be replaced */
-        if ((con = co_insert1(ptn, con, 0)) == NULL)
+        if ((con = co_expand_insert(h, ptn, con)) == NULL)
             goto done;
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
@@ -928,10 +1045,6 @@ pt_expand_reference(cligen_handle h,
  * @retval        0         OK
  * @retval       -1         Error
  * @see pt_expand_cleanup
- * @note there is a cornercase that has to do with multiple non-disjoint tree references:
- *       If tree t1 and t2 have sub-co:s in common, they may destructively modify each other,
- *       eg @t1:{a;b} @t2:{b;c}
- *       then the common sub-elements of t1 can have extra elements of t2: @t1:{a;b;c}
  */
 int
 pt_expand(cligen_handle h,
@@ -1020,6 +1133,45 @@ pt_expand(cligen_handle h,
     return retval;
 }
 
+/*! Let an expanded object refer to the sub-tree of the original object
+ *
+ * Call this before pt_expand_cleanup for an object that remains in use
+ * @param[in] h    CLIgen handle
+ * @param[in] co   Expanded object
+ * @retval    0    OK
+ * @retval   -1    Error
+ */
+int
+pt_expand_restore(cligen_handle h,
+                  cg_obj       *co)
+{
+    struct cligen_handle *ch = handle(h);
+    parse_tree           *pt;
+    cg_obj               *co0;
+    cg_obj               *coc;
+    int                   i;
+    int                   j;
+
+    if (co == NULL){
+        errno = EINVAL;
+        return -1;
+    }
+    if (co->co_ptvec == NULL)
+        return 0;
+    co0 = co->co_treeref_orig;
+    pt = co_pt_get(co);
+    for (i=0; co0 == NULL && i<ch->ch_expand_len; i++){
+        if (ch->ch_expand_vec[i] != pt)
+            continue;
+        for (j=0; co0 == NULL && j<pt_len_get(pt); j++)
+            if ((coc = pt_vec_i_get(pt, j)) != NULL)
+                co0 = co_up(coc);
+    }
+    if (co0 != NULL)
+        co->co_ptvec[0] = co_pt_get(co0);
+    return 0;
+}
+
 /*! Go through tree and clean & delete all extra memory from pt_expand and pt_expand_treeref
  *
  * @param[in] h    CLIgen handle
@@ -1032,6 +1184,12 @@ int
 pt_expand_cleanup(cligen_handle h,
                   parse_tree *pt)
 {
+    struct cligen_handle *ch = handle(h);
+
+    while (ch->ch_expand_len > 0)
+        pt_free(ch->ch_expand_vec[--ch->ch_expand_len], 1);
+    free(ch->ch_expand_vec);
+    ch->ch_expand_vec = NULL;
     return 0;
 }
 
diff --git a/cligen_expand.h b/cligen_expand.h
index 48b3256..2a466e2 100644
--- a/cligen_expand.h
+++ b/cligen_expand.h
@@ -66,6 +66,7 @@ char *pt_local_pipe(parse_tree *pt);
 int   pt_expand(cligen_handle h, cg_obj *co, parse_tree *pt, cvec *cvt, cvec *cvv,
               int hide, int expandvar, cg_callback *callbacks,
               cg_obj *co_pipe, parse_tree *ptn);
+int   pt_expand_restore(cligen_handle h, cg_obj *co);
 int   pt_expand_cleanup(cligen_handle h, parse_tree *pt);
 int   reference_path_match(cg_obj *co1, parse_tree *pt0, cg_obj **co0p);
 
diff --git a/cligen_handle.c b/cligen_handle.c
index 1ae8b46..0ac5d94 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -64,6 +64,7 @@
 #include "cligen_read.h"
 #include "cligen_parse.h"
 #include "cligen_print.h"
+#include "cligen_expand.h"
 #include "cligen_history.h"
 #include "cligen_getline.h"
 #include "cligen_handle_internal.h"
@@ -201,6 +202,7 @@ cligen_exit(cligen_handle h)
 
     hist_exit(h);
     cligen_buf_cleanup(h);
+    pt_expand_cleanup(h, NULL);
     if (ch->ch_prompt)
         free(ch->ch_prompt);
     if (ch->ch_nomatch)
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6acbf2e..717e806 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -118,6 +118,8 @@ struct cligen_handle{
     void        *ch_eval_wrap_arg; /* Argument to eval wrap function */
     cligen_tree_resolve_wrapper_fn *ch_tree_resolve_wrapper_fn;  /* Wrap function for treeref lookup */
     void        *ch_tree_resolve_wrapper_arg; /* Argument to treeref wrap function */
+    parse_tree **ch_expand_vec;  /* Sub-trees made by pt_expand, see pt_expand_cleanup */
+    int          ch_expand_len;  /* Length of ch_expand_vec */
 };
 
 #endif /* _CLIGEN_HANDLE_INTERNAL_H_ */
diff --git a/cligen_match.c b/cligen_match.c
index 4312105..569c8c7 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1212,7 +1212,6 @@ match_pattern(cligen_handle h,
                 mr_reason_set(mr, r);
                 mr_pt_reset(mr);
             }
-            pt_expand_cleanup(h, ptn);
         }
         break;
     default:
diff --git a/cligen_read.c b/cligen_read.c
index 9924ead..14f12ca 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -713,6 +713,8 @@ cliread_parse(cligen_handle  h,
                             &match_obj,
                             result, reason) < 0)
         goto done;
+    if (match_obj && pt_expand_restore(h, match_obj) < 0)
+        goto done;
     /* Map from ghost object match_obj to real object */
     *co_orig = match_obj;
     *cvvp = cvv;
-- 
2.43.0


From 5464ecf6c19946f7f246076ed02a1493f47806a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 62/64] fix: a printed set after an option of its command was
 read back as part of the option

---
 cligen_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_print.c b/cligen_print.c
index e079d59..38a3190 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -303,7 +303,7 @@ co2cbuf(cbuf   *cb,
           has_assignment(pt_vec_i_get(pt, 0))));
     if (braces){
         if (co_sets_get(co))
-            cprintf(cb, "@");
+            cprintf(cb, " @");
         cprintf(cb, "{\n");
     }
     else
-- 
2.43.0


From 75bf2883e0696f3f24d0fcfae42bede2ba197601 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:37:45 +0000
Subject: [PATCH 63/64] fix: the print of an optional command with a help text
 was not accepted as a specification

---
 cligen_print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_print.c b/cligen_print.c
index 38a3190..f5f5ebb 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -276,11 +276,11 @@ co2cbuf(cbuf   *cb,
         cprintf(cb, ";");
         break;
     }
+    if (brief == 0 && co->co_helpstring)
+        help2cbuf(cb, co->co_helpstring);
     if (co_flags_get(co, CO_FLAGS_OPTION))
         cprintf(cb, "]");
     if (brief == 0){
-        if (co->co_helpstring)
-            help2cbuf(cb, co->co_helpstring);
         if (co_flags_get(co, CO_FLAGS_HIDE) && cvec_find(co->co_cvec, "hide") == NULL)
             cprintf(cb, ", hide");
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
-- 
2.43.0


From 309a8b008ddb960a5e860fece31061c9ad3b4ec9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:20:40 +0000
Subject: [PATCH 64/64] fix: output of a pipe function after a pause was lost

---
 cligen_read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 14f12ca..5f14db7 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -980,8 +980,11 @@ cligen_eval_pipe_post(cligen_handle h,
             /* Immediate poll: possibility if writer is slow that input is dropped due
              * to starving of child in (maybe) single process systems
              */
-            if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
-                goto done;
+            do { /* Also a child that pauses has more to say until EOF */
+                if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
+                    goto done;
+            }
+            while (ret == 0);
         }
     }
     retval = 0;
-- 
2.43.0

