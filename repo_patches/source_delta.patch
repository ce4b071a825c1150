From 62dab43ef0ff53fe61cee94ebc6c6cf4020534c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 01/73] fix: zt_cstr_map kept only characters up to 225, the
 rest became NUL

---
 src/libzt/zt_cstr.c | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..45838d6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -243,29 +243,12 @@ zt_cstr_reverse(const char *s, ssize_t i, ssize_t j) {
 char *
 zt_cstr_map(const char *s, ssize_t i, ssize_t j,
             const char *from, const char *to) {
-    unsigned char map[256] = { 0,   1,   2,   3,   4,   5,   6,   7,   8,   9,
-                               10,  11,  12,  13,  14,  15,  16,  17,  18,  19,
-                               20,  21,  22,  23,  24,  25,  26,  27,  28,  29,
-                               30,  31,  32,  33,  34,  35,  36,  37,  38,  39,
-                               40,  41,  42,  43,  44,  45,  46,  47,  48,  49,
-                               50,  51,  52,  53,  54,  55,  56,  57,  58,  59,
-                               60,  61,  62,  63,  64,  65,  66,  67,  68,  69,
-                               70,  71,  72,  73,  74,  75,  76,  77,  78,  79,
-                               80,  81,  82,  83,  84,  85,  86,  87,  88,  89,
-                               90,  91,  92,  93,  94,  95,  96,  97,  98,  99,
-                               100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
-                               110, 111, 112, 113, 114, 115, 116, 117, 118, 119,
-                               120, 121, 122, 123, 124, 125, 126, 127, 128, 129,
-                               130, 131, 132, 133, 134, 135, 136, 137, 138, 139,
-                               140, 141, 142, 143, 144, 145, 146, 147, 148, 149,
-                               150, 151, 152, 153, 154, 155, 156, 157, 158, 159,
-                               160, 161, 162, 163, 164, 165, 166, 167, 168, 169,
-                               170, 171, 172, 173, 174, 175, 176, 177, 178, 179,
-                               180, 181, 182, 183, 184, 185, 186, 187, 188, 189,
-                               190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
-                               200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
-                               210, 211, 212, 213, 214, 215, 216, 217, 218, 219,
-                               220, 221, 222, 223, 224, 225 };
+    unsigned char map[256];
+    size_t        c;
+
+    for (c = 0; c < sizeof(map); c++) {
+        map[c] = (unsigned char)c;
+    }
 
     if (from && to) {
         while (*from && *to) {
-- 
2.43.0


From a7d266d9cfcb15cab49a539d86e4a2683bfad377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 02/73] fix: zt_cstr_cat and zt_cstr_catv lost what follows an
 empty string

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 45838d6..87cc0a2 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -158,11 +158,11 @@ zt_cstr_cat(const char *s1, ssize_t i1, ssize_t j1,
 
     p = new = zt_malloc(char, IDXLEN(i1, j1) + IDXLEN(i2, j2) + 1);
 
-    while (i1 <= j1) {
+    while (i1 <= j1 && s1[i1] != '\0') {
         *p++ = s1[i1++];
     }
 
-    while (i2 <= j2) {
+    while (i2 <= j2 && s2[i2] != '\0') {
         *p++ = s2[i2++];
     }
 
@@ -205,7 +205,7 @@ zt_cstr_catv(const char *s, ...) {
         j = va_arg(ap, int);
         CONVERT(s, i, j);
 
-        while (i <= j) {
+        while (i <= j && s[i] != '\0') {
             *p++ = s[i++];
         }
         s = va_arg(ap, const char *);
-- 
2.43.0


From f08cf4cdcd6e1e70759a960abc6a82f019aa2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 03/73] fix: zt_cstr_len of an empty string is 0

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 87cc0a2..d052ae6 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -296,7 +296,7 @@ zt_cstr_pos(const char *s, ssize_t i) {
 size_t
 zt_cstr_len(const char *s, ssize_t i, ssize_t j) {
     CONVERT(s, i, j);
-    return IDXLEN(i, j);
+    return s[i] == '\0' ? 0 : IDXLEN(i, j);
 }
 
 /*!
-- 
2.43.0


From 762ae7ebd84409c851eb66317db81ad6f7e599c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 04/73] fix: zt_cstr_upto and zt_cstr_rupto matched the
 terminator of an empty string

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d052ae6..25b5aec 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -368,7 +368,7 @@ zt_cstr_upto(const char *s, ssize_t i, ssize_t j, const char *set) {
     CONVERT(s, i, j);
 
     for (; i <= j; i++) {
-        if (strchr(set, s[i])) {
+        if (s[i] != '\0' && strchr(set, s[i])) {
             return i;
         }
     }
@@ -386,7 +386,7 @@ zt_cstr_rupto(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     CONVERT(s, i, j);
     for (; j >= i; j--) {
-        if (strchr(set, s[j])) {
+        if (s[j] != '\0' && strchr(set, s[j])) {
             return j;
         }
     }
-- 
2.43.0


From 9bbb4b11d1fac0dfe3231d259f0f85872ce6c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 05/73] fix: zt_cstr_rany returned the position relative to the
 slice

---
 src/libzt/zt_cstr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 25b5aec..6f6b72a 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -489,8 +489,6 @@ zt_cstr_any(const char *s, ssize_t i, ssize_t j, const char *set) {
  */
 ssize_t
 zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
-    ssize_t   orig;
-
     zt_assert(s);
     zt_assert(set);
 
@@ -498,9 +496,9 @@ zt_cstr_rany(const char *s, ssize_t i, ssize_t j, const char *set) {
 
     zt_assert(i >= 0 && i <= j);
 
-    for (orig = i; j >= i; j--) {
+    for (; j >= i; j--) {
         if (s[j] != '\0' && strchr(set, s[j])) {
-            return j - orig;
+            return j;
         }
     }
 
-- 
2.43.0


From a429ec565124c1c95347dbdf13896bfe1ceeed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 06/73] fix: zt_cstr_chomp read before an empty string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6f6b72a..ddf127a 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -513,7 +513,7 @@ zt_cstr_chomp(char *str) {
         size_t    i = 0;
 
         i = strlen(str);
-        if (str[i - 1] == '\n') {
+        if (i > 0 && str[i - 1] == '\n') {
             str[i - 1] = '\0';
         }
     }
-- 
2.43.0


From 8c032c6e7fe87843e7f35d5559b4c3d66577ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 07/73] fix: zt_cstr_rspn and zt_cstr_rcspn ignored the first
 character

---
 src/libzt/zt_cstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index ddf127a..cfcab59 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -556,7 +556,7 @@ zt_cstr_rspn(const char *s, const char *accept) {
     zt_assert(s);
     zt_assert(accept);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strspn(&s[i], accept) == 0) {
             return (len - i) - 1;                          /* -1 for the first non matching char */
         }
@@ -572,7 +572,7 @@ zt_cstr_rcspn(const char *s, const char *reject) {
     zt_assert(s);
     zt_assert(reject);
 
-    for (i = len - 1; i > 0; i--) { /* -1 to skip \0 */
+    for (i = len - 1; i >= 0; i--) { /* -1 to skip \0 */
         if (strcspn(&s[i], reject) == 0) {
             return i;                                      /* -1 for the first non matching char */
         }
-- 
2.43.0


From c64ec059ca831c859e0df9ab87f7f0789f337878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 08/73] fix: zt_cstr_strip wrote past the string for an inner
 newline

---
 src/libzt/zt_cstr.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index cfcab59..d03fcdb 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -533,17 +533,15 @@ zt_cstr_strip(char *str) {
         memmove(str, &str[len], (strlen(str) - len) + 1); /* +1 captures \0 */
 
         /* strip whitespace from the end of the string */
-        if (strchr(str, '\n') != NULL) {
-            nl = 1;
-        }
         len = zt_cstr_rspn(str, WHITESPACE "\n");
         len = strlen(str) - len;
-        if (len) {
-            if (nl) {
-                str[len++] = '\n';
-            }
-            str[len] = '\0';
+        if (strchr(&str[len], '\n') != NULL) {
+            nl = 1;
+        }
+        if (nl) {
+            str[len++] = '\n';
         }
+        str[len] = '\0';
     }
     return str;
 }
-- 
2.43.0


From 66e94b283658bd29ad6ade7d71784cded05a6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 09/73] fix: zt_cstr_tok read before an empty string

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index d03fcdb..7996083 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -958,7 +958,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
 
     str_copy = strdup(str);
 
-    if (str[strlen(str) - 1] == delim) {
+    if (str[0] != '\0' && str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
     }
 
-- 
2.43.0


From d74aacb3565f8190fa8b717e3d0080b673258100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 10/73] fix: zt_binary_to_hex wrote one digit past an odd sized
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 7996083..2ff31b7 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -787,7 +787,7 @@ zt_binary_to_hex(void *data, size_t dlen, char *hex, size_t hlen) {
     size_t n;
     char * dptr = hex;
 
-    for (n = 0; (n < dlen) && ((n * 2) < hlen); n++, dptr += 2) {
+    for (n = 0; (n < dlen) && ((n * 2) + 1 < hlen); n++, dptr += 2) {
         uint8_t c = ((uint8_t *)data)[n];
         if (hex != NULL) {
             dptr[0] = HEX_DIGITS[((c >> 4) & 0xF)];
-- 
2.43.0


From 3620b252bc7dfd30b7ae165467d4f22af0168cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 11/73] fix: zt_hex_to_binary read past odd sized text and did
 not set errno

---
 src/libzt/zt_cstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 2ff31b7..3c1756c 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -845,7 +845,8 @@ zt_hex_to_binary(char *hex, size_t hlen, void *data, size_t dlen) {
             return 0;
         }
 
-        if ((c2 = hex_to_char(*hex++)) == -1) {
+        if (n + 1 >= hlen || (c2 = hex_to_char(*hex++)) == -1) {
+            errno = EINVAL;
             return 0;
         } else {
             n++;
-- 
2.43.0


From cb10e0b985c475a14bc84fa15886a0c067f5f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 12/73] fix: zt_cstr_itoa wrote the terminator past a full
 buffer

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 3c1756c..01d2d87 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -993,7 +993,7 @@ ssize_t zt_cstr_itoa(char *s, int value, size_t offset, size_t bufsiz)
 
     result = loc = offset + zt_cstr_int_display_len(value);
 
-    if ((s == NULL) || (loc > bufsiz)) {
+    if ((s == NULL) || (loc >= bufsiz)) {
         return -1;
     }
 
-- 
2.43.0


From ac0ceec7f842e3bcfbc009e4c64a138b990b2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 13/73] fix: zt_hexdump_str stopped at byte 0xff

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 01d2d87..43ec752 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -690,7 +690,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From 2cc8b1337388f26dbe26f2c9182e6a11b51be06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 14/73] fix: zt_hexdump dropped a last line of 15 bytes

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 43ec752..87a53fa 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -767,7 +767,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 0f4b0da93615180e39481fa35f50ab699c534791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 15/73] fix: zt_cstr_cmp ignored the last character of equally
 long slices

---
 src/libzt/zt_cstr.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 87a53fa..4de6783 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -306,21 +306,21 @@ zt_cstr_len(const char *s, ssize_t i, ssize_t j) {
 int
 zt_cstr_cmp(const char *s1, ssize_t i1, ssize_t j1,
             const char *s2, ssize_t i2, ssize_t j2) {
+    size_t n1;
+    size_t n2;
+    int    cond;
+
     CONVERT(s1, i1, j1);
     CONVERT(s2, i2, j2);
 
-    s1 += i1;
-    s2 += i2;
+    n1   = s1[i1] == '\0' ? 0 : IDXLEN(i1, j1);
+    n2   = s2[i2] == '\0' ? 0 : IDXLEN(i2, j2);
+    cond = strncmp(s1 + i1, s2 + i2, MIN(n1, n2));
 
-    if (j1 - i1 < j2 - i2) {
-        int cond = strncmp(s1, s2, IDXLEN(i1, j1));
-        return cond == 0 ? -1 : cond;
-    } else if (j1 - i1 > j2 - i2) {
-        int cond = strncmp(s1, s2, IDXLEN(i2, j2));
-        return cond == 0 ? +1 : cond;
+    if (cond == 0) {
+        return n1 == n2 ? 0 : (n1 < n2 ? -1 : 1);
     }
-
-    return strncmp(s1, s2, j1 - i1);
+    return cond < 0 ? -1 : 1;
 }
 
 /*!
-- 
2.43.0


From b9de97dbe6b0c33b73b2da1b0d2cca8f5432d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 16/73] fix: zt_cstr_basename cut names at inner suffixes and
 left full buffers unterminated

---
 src/libzt/zt_cstr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 4de6783..43807fc 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -582,6 +582,7 @@ char*
 zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix) {
     ssize_t   start;
     ssize_t   end;
+    ssize_t   slen;
 
     zt_assert(npath);
     zt_assert(path);
@@ -594,16 +595,18 @@ zt_cstr_basename(char *npath, size_t len, const char *path, const char *suffix)
         start = 0;
     }
 
+    end = strlen(path);
     if (suffix) {
-        end = zt_cstr_rfind(path, start, -1, suffix);
-        if (end > 0 && path[end] == '.') {
-            end--;
+        slen = strlen(suffix);
+        if (slen < end - start && strcmp(&path[end - slen], suffix) == 0) {
+            end -= slen;
         }
-    } else {
-        end = -1;
     }
 
-    zt_cstr_copy(path, start, end, npath, len);
+    /* leave room for the terminator */
+    if (end > start && len > 1) {
+        zt_cstr_copy(path, start, end - 1, npath, len - 1);
+    }
     return npath;
 }
 
-- 
2.43.0


From 4067d6590361b29bc1bd00d91aa61dfacc77712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 17/73] fix: zt_cstr_dirname of paths in the root, of the empty
 path and into full buffers

---
 src/libzt/zt_cstr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 43807fc..7d1b560 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -615,15 +615,21 @@ char *
 zt_cstr_dirname(char *npath, size_t len, const char *path) {
     ssize_t    end    = -1;
     ssize_t    ps_len = 0;
+    ssize_t    plen   = 0;
 
     zt_assert(npath);
     zt_assert(path);
 
     memset(npath, '\0', len);
+    if (len < 2) {
+        return npath;
+    }
+    len--; /* leave room for the terminator */
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
+    plen   = strlen(path);
+    if (plen > ps_len && strcmp(&path[plen - ps_len], PATH_SEPERATOR) == 0) {
         end = end - ps_len;
     }
 
@@ -631,7 +637,7 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len);
         return npath;
-    } else {
+    } else if (end > 0) {
         end = end - 1;
     }
 
-- 
2.43.0


From 8f7e975a7e74ff9d6e4d6a23ea412aec5b386016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 18/73] fix: zt_cstr_path_append repeated the separator when a
 part is only separators

---
 src/libzt/zt_cstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 7d1b560..b2c1199 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -659,16 +659,16 @@ zt_cstr_path_append(const char *path1, const char *path2) {
     len2    = strlen(path2);
     sep_len = strlen(PATH_SEPERATOR);
 
-    for (y = len1 - 1; y > 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
+    for (y = len1 - 1; y >= 0 && strncmp(&path1[y], PATH_SEPERATOR, sep_len) == 0; y--) {
         ;
     }
     for (x = 0; x < (ssize_t)len2 && strncmp(&path2[x], PATH_SEPERATOR, sep_len) == 0; x++) {
         ;
     }
 
-    rpath = zt_cstr_catv(path1, 0, y,
+    rpath = zt_cstr_catv(y < 0 ? "" : path1, 0, y,
                          PATH_SEPERATOR, 0, -1,
-                         path2, x, -1, NULL);
+                         &path2[x], 0, -1, NULL);
     return rpath;
 }
 
-- 
2.43.0


From b178086d33039205a289e53a7b7b41c433f07002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 19/73] fix: zt_table_del lost the entries in front of the
 deleted one

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0fcd1c9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From b5819eea6c4af2151c472cecaab4e226de30b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 20/73] fix: zt_table bucket count 65535 is not a power of two
 and was indexed past its end

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0fcd1c9..88246b0 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,7 +28,7 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
-- 
2.43.0


From 0753e96843e2989f9317bf47d4153768c3a01037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 21/73] fix: zt_table indexed past its buckets for size hints
 that are not powers of two

---
 src/libzt/zt_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 88246b0..827dd75 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -100,7 +100,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        nbuckets = hint > 0 ? hint : 1;
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
@@ -170,6 +170,7 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     struct table_node * nn;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
     /* ZT_LOG_XDEBUG("for key %d hash key is: %d", (int)key, nkey); */
 
     nn = h->buckets[nkey];
@@ -209,6 +210,7 @@ zt_table_get(zt_table *h, const void *key, size_t key_len)
     skey = nkey;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
     node = h->buckets[nkey];
 
     while (node) {
@@ -233,6 +235,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
     unsigned long       skey = nkey;
 
     ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey %= h->num_buckets;
 
     prev = node = h->buckets[nkey];
 
-- 
2.43.0


From 2cb212b0803c6fc632241f82dbf332f272805bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 22/73] fix: zt_table_compare_buff stopped comparing at a NUL
 byte

---
 src/libzt/zt_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 827dd75..62476d2 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -365,7 +365,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From db5d21ce45efee8da86e94be6b2ea98e34bba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 23/73] fix: zt_set_size named a member that does not exist

---
 src/libzt/zt_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From 6a031bf229a204a78e14506a2b56e8fe6f469ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 24/73] fix: zt_set union, intersection and difference stopped
 at the first member already present

---
 src/libzt/zt_set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..89d1181 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -75,7 +75,7 @@ static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_le
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
@@ -97,7 +97,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
@@ -119,7 +119,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return zt_set_insert(p->s2, datum, datum_len) < 0 ? -1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From 07abcee2ff0b3e05f8422f4e2d87d1ab3d280eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 25/73] fix: zt_set_remove never removed the member and always
 decremented the length

---
 src/libzt/zt_set.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 89d1181..3638e91 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -57,9 +57,32 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
 }
 
+struct _find_data {
+    void  * data;
+    size_t  len;
+};
+
+static int _find(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
+{
+    struct _find_data * p = (struct _find_data *)param;
+
+    if (datum == p->data) {
+        p->len = key_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _find_data d = { *data, 0 };
+
+    /* the table needs the length the member was inserted with */
+    if (zt_table_for_each(set->tbl, _find, &d) == 0) {
+        return -1;
+    }
+
+    *data = zt_table_del(set->tbl, *data, d.len);
     set->length--;
     return 0;
 }
-- 
2.43.0


From 8358e82efc319df5ed5606a51baff7eff2225b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 26/73] fix: zt_buf grew from the middle of its block and
 miscounted room after a drain

---
 src/libzt/zt_buf.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..c54bc5f 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -60,12 +60,13 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    if (b->buf != b->top) {
+        /* drained data lies in front of buf, only top can be reallocated */
+        memmove(b->top, b->buf, b->len);
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
-    b->top = b->buf;
+    b->top = realloc(b->top, b->len + rlen);
+    b->buf = b->top;
     b->max = b->len + rlen;
 
     return 0;
@@ -79,7 +80,7 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
         b->len = 0;
-- 
2.43.0


From 411d9cf37b9dc1d84bf2ad170e65444e0fc0a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 27/73] fix: zt_ptr_array_del reported failure after deleting
 and skipped the element it moved

---
 src/libzt/zt_ptr_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..4e23beb 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -108,6 +108,8 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
             if (array->free_cb) {
                 array->free_cb(data);
             }
+
+            return 0;
         }
     }
 
-- 
2.43.0


From 6a1abc29aa88715bb2421f5986f2beb641899437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 28/73] fix: zt_ptr_array accepted indexes outside the array

---
 src/libzt/zt_ptr_array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 4e23beb..983394e 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -185,10 +185,10 @@ void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
         /* return the last element */
-        return array->array[array->count - 1];
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From ae830d19d9ef3f22f45ed1d9cacbd6ee179b88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 29/73] fix: zt_ptr_array_cat of an array to itself never ended

---
 src/libzt/zt_ptr_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 983394e..945e1a2 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -119,12 +119,15 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    /* src may be dst, which grows below */
+    count = src->count;
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From 199e75524434c2ac5cacbff0fe2721720c1e24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 30/73] fix: zt_ptr_array_resize tested for overflow after
 overflowing

---
 src/libzt/zt_ptr_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 945e1a2..240bac1 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -56,7 +56,7 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
         size = expand;
     }
 
-    if ((array->size + size) < array->size) {
+    if (size < 0 || size > INT32_MAX - array->size) {
         /* error on overflow */
         return -1;
     }
-- 
2.43.0


From 2c0904b550161ef300858e8f657752c6a6369a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 31/73] fix: zt_array_resize lost the data block of an array
 whose length was set to 0

---
 src/libzt/zt_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..cfcdd26 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -81,7 +81,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(array);
     zt_assert(len > 0);
 
-    if (array->length == 0) {
+    if (array->data == NULL && len > 0) {
         array->data = zt_calloc(char, len * array->size);
     } else if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
-- 
2.43.0


From 9e729388a57eb69490ceddf9bd766a6e21c8abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 32/73] fix: zt_bstream_write wrote outside the stream after a
 truncate

---
 src/libzt/zt_bstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..d8b1aca 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -183,8 +183,8 @@ zt_bstream_write(zt_bstream_t bs, char *data, size_t len, char size, char tag UN
 
     alen = zt_array_length(bs->data);
 
-    if (tlen > alen - bs->offt) {
-        zt_array_resize(bs->data, (alen + tlen) * 2);
+    if (bs->offt > alen || tlen > alen - bs->offt) {
+        zt_array_resize(bs->data, (MAX(alen, bs->offt) + tlen) * 2);
     }
 
     bs->offt = _array_put(bs->data, data, bs->offt, tlen, bs->flipendian);
-- 
2.43.0


From e8de8ccf4728232557a950ecf4eb95a965c2a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 33/73] fix: zt_bstream_clone dropped the byte order of the
 stream

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index d8b1aca..dc605c0 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -105,6 +105,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From c140c9fdd446380c18d07b32707578681a97e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 34/73] fix: zt_queue_dequeue on an empty queue returned the
 queue itself

---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..1af57da 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if(zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From 20c4da60b89531fbcb351aef5c87c0c1d40eabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 35/73] fix: zt_elist_join of an empty list linked the empty
 list's head into the other

---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From ae4d10e0cf2ed272797b7c3a62aedc82d8c138f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 36/73] fix: checked unsigned subtraction rejected equal
 operands

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index c098de9..124d636 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -74,7 +74,7 @@ ZT_INT_SIGNED_ADD(signed long, long, LONG)
     INLINE static ltype UNUSED ZT_CONC3(zt_, sltype, _sub) (ltype lhs, \
                                                   ltype rhs) \
     {                                                        \
-        zt_assert(lhs > rhs);                                \
+        zt_assert(lhs >= rhs);                               \
         return lhs - rhs;                                    \
     }
 
-- 
2.43.0


From 3bdb24623614b589c640b22a4934d92871007fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 37/73] fix: checked signed division rejected every quotient of
 negative numbers except by -1

---
 src/libzt/zt_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_int.h b/src/libzt/zt_int.h
index 124d636..af1c48e 100644
--- a/src/libzt/zt_int.h
+++ b/src/libzt/zt_int.h
@@ -184,7 +184,7 @@ ZT_INT_UNSIGNED_DIV(unsigned long, ulong, ULONG, unsigned long long)
         cvtype _tmp;                                          \
         zt_assert(rhs != 0);                                  \
         if (ZT_INT_IS_SIGNED(lhs) && ZT_INT_IS_SIGNED(rhs)) { \
-            zt_assert(lhs != ZT_CONC(sutype, _MIN) && rhs == -1);\
+            zt_assert(lhs != ZT_CONC(sutype, _MIN) || rhs != -1);\
         }                                                     \
         if (ZT_INT_SAME_SIGN(lhs, rhs)) {                     \
             return lhs / rhs;                                 \
-- 
2.43.0


From c2616389d66e0fb654a1f38f38dfe1965099d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 38/73] fix: destroying a subpool made its parent forget all
 other subpools

---
 src/libzt/zt_ez_mempool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..128bdb1 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,14 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != NULL && *link != pool) {
+            link = &(*link)->next;
+        }
+        if (*link != NULL) {
+            *link = pool->next;
+        }
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 8129e178d72aee3b82e4fbb60b445de73ef60be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 39/73] fix: zt_ez_mempool_strdup of an empty string was not
 owned by the pool

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index 128bdb1..e6522e2 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -131,7 +131,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From cdc6c2e1207ea17caf25fa42b42b2bf7beb12d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 40/73] fix: pages released by zt_mem_pool_release_free_pages
 were not counted as freed

---
 src/libzt/zt_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..8d09fb0 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -319,7 +319,6 @@ zt_mem_pool_release(void **data)
                                   pool->release_test_cb_data)) {
             /* release the page */
             zt_mem_page_destroy(page);
-            pool->page_frees++;
         }
     }
 }
@@ -681,6 +680,7 @@ zt_mem_page_destroy(zt_mem_page *page)
 
     page->parent_pool->npages--;
     page->parent_pool->nfree_pages--;
+    page->parent_pool->page_frees++;
 
     size = sizeof(zt_mem_elt) + page->parent_pool->elt_size;
     elt = (zt_mem_elt *)page->data;
-- 
2.43.0


From 4de064428b1acb1d6b6107da1a2a9575c0bf8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 41/73] fix: pools of odd sized elements handed out misaligned
 elements

---
 src/libzt/zt_mem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 8d09fb0..9397eea 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -185,6 +185,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        npages;
     size_t        pcache;
 
+    /* elements follow each other in the page, keep each of them aligned */
+    size = (size + sizeof(unsigned long) - 1) & ~(sizeof(unsigned long) - 1);
+
     x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
 
     if (!mem_atexit) {
-- 
2.43.0


From 32dba53a6403cf431b3785facc824b1ae359bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 42/73] fix: a pool group ended by a nameless description used
 pools it never created

---
 src/libzt/zt_mem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 9397eea..81dd268 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -569,6 +569,7 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
             return 0;
         }
     }
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From 9fce703758630285409b775404a97689852d523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 43/73] fix: zt_gc_prepare left the collector's flags of a
 value uninitialised

---
 src/libzt/zt_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..2ba3070 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -230,6 +230,7 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
     zt_elist_reset(&mark->list);
+    mark->colour = 0;
 }
 
 void
-- 
2.43.0


From 91d287d025e6eb78cce6fa9163be65728dac4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 44/73] fix: objects protected during a scan were not scanned
 themselves

---
 src/libzt/zt_gc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 2ba3070..6bfa887 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -83,8 +83,11 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    if (gc->scan != &mark->list) {
+        /* behind the scan pointer, so that a scan under way still gets to it */
+        zt_elist_remove(&mark->list);
+        zt_elist_add_tail(gc->grey, &mark->list);
+    }
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 6da2249f23668278bc4f06fc6a10b267d6f20c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 45/73] fix: zt_gc_unregister of the next object to scan left
 the scan on it

---
 src/libzt/zt_gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 6bfa887..1a0cc2a 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -241,6 +241,9 @@ zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
+    if (gc->scan == &mark->list) {
+        gc->scan = gc->scan->next;
+    }
     zt_elist_remove(&mark->list);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
-- 
2.43.0


From 8be351f445b6a332d7dc98a47ad0ae54c22c9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:18 +0000
Subject: [PATCH 46/73] fix: marking the next object to scan moved the scan
 past the objects behind it

---
 src/libzt/zt_gc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 1a0cc2a..c836881 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -403,8 +403,11 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
-        zt_elist_add_tail(gc->grey, &mark->list);
+        if (gc->scan != &mark->list) {
+            /* the next object to scan is grey already, the scan must not follow it to the tail */
+            zt_elist_remove(&mark->list);
+            zt_elist_add_tail(gc->grey, &mark->list);
+        }
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From 5fa734dbfff3333f31450720584a97af84248f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 47/73] fix: zt_ipv4_str2net read past short strings and left
 long ones unterminated

---
 src/libzt/zt_ipv4_tbl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..08af1bb 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -362,7 +362,13 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
         memcpy(save, str, cp - str_cp);
     } else {
         bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        if (strlen(str) > MAXLINE - 1) {
+            free(save);
+            free(str_cp);
+            return -1;
+        }
+
+        memcpy(save, str, strlen(str));
     }
 
     if (bitlen > 32) {
-- 
2.43.0


From d443ad58c2c4f2c303471be95607757a120b9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 48/73] fix: zt_ipv4_str2net took negative prefix lengths and
 text without a number as a prefix length

---
 src/libzt/zt_ipv4_tbl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 08af1bb..ff22613 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -351,9 +351,12 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     }
 
     if ((cp = strchr(str_cp, '/')) != NULL) {
-        bitlen = atoi(cp + 1);
+        char *end;
+        long  len = strtol(cp + 1, &end, 10);
 
-        if ((cp - str_cp) > MAXLINE - 1) {
+        bitlen = len > 32 ? 32 : (int)len;
+
+        if (end == cp + 1 || len < 0 || (cp - str_cp) > MAXLINE - 1) {
             free(save);
             free(str_cp);
             return -1;
-- 
2.43.0


From 8a9ca151c8f81c2617bc44f318266fc798a2460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 49/73] fix: zt_ipv4_str2net accepted text that is no address
 as 255.255.255.255

---
 src/libzt/zt_ipv4_tbl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index ff22613..950b3b4 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -336,6 +336,7 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     char *str_cp;
     char *cp;
     int   bitlen = 32;
+    struct in_addr in;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
@@ -378,7 +379,13 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
         bitlen = 32;
     }
 
-    *outaddr = ntohl(inet_addr(save));
+    if (inet_aton(save, &in) == 0) {
+        free(save);
+        free(str_cp);
+        return -1;
+    }
+
+    *outaddr = ntohl(in.s_addr);
     *outbitlen = bitlen;
 
     free(save);
-- 
2.43.0


From c7cf10d50cfaf21a11bba7caaf1ebf19d58850a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 50/73] fix: a second IPv4 table took its hash arrays from the
 first table's pool whatever their size

---
 src/libzt/zt_ipv4_tbl.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 950b3b4..c41b674 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -128,7 +128,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -146,17 +145,13 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        if (!(hash_entry = zt_mem_pool_group_alloc(tbl->pools, sizeof(zt_ipv4_node *) * tbl->sz))) {
             return -1;
         }
 
-- 
2.43.0


From 5fe97ea4cf05956bfd9f8a212d1c85701388b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 51/73] fix: zt_ipv4_tbl_search_node read past the prefix list
 when all 32 lengths are in use

---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index c41b674..d2f38f9 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -256,7 +256,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From f132c28a6f697eecead2c0593b243880d0114f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 52/73] fix: IPv4 lookups and refused networks never gave their
 pool elements back

---
 src/libzt/zt_ipv4_tbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index d2f38f9..e079a98 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -115,6 +115,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -299,6 +300,7 @@ zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 
     matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
 
+    zt_mem_pool_release((void **)&ipv4_node->addr);
     zt_mem_pool_release((void **)&ipv4_node);
 
     return matched;
-- 
2.43.0


From 00d7e9c37e2e76ea0d4c1ec71314ec155dbfa26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 53/73] fix: SHA-1 overwrote whole blocks of the caller's input

---
 src/libzt/zt_sha1.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..50e7332 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,11 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   work;
+    CHAR64LONG16 * block = &work;
 
-    /* uint32_t      block[80]; */
-
-    block = (CHAR64LONG16 *)buffer;
+    /* the schedule is expanded in place: work on a copy, the block may be the caller's data */
+    memcpy(work.c, buffer, 64);
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From 8e3ecb88f9eb9c0adfaf8f74e34cb282ffa0ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:07 +0000
Subject: [PATCH 54/73] fix: zt_sha1_tostr left its 41-byte text unterminated

---
 src/libzt/zt_sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 50e7332..3ee4153 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -179,6 +179,7 @@ char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
     zt_binary_to_hex(digest, 20, sha1, 41);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From 38e9799574802a3ea09a2f5be752d55c1b0f2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 55/73] fix: zt_time ran its test function once more than asked

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From 05167ea3efc297105b9fd8fa611aa67402ab4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 56/73] fix: zt_random_initstate read past an empty seed array

---
 src/libzt/zt_random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_random.c b/src/libzt/zt_random.c
index 5df1eb4..34cc34f 100644
--- a/src/libzt/zt_random.c
+++ b/src/libzt/zt_random.c
@@ -41,7 +41,7 @@ zt_random_initstate(zt_random_state * state, uint32_t seed[], size_t len) {
     zt_random_srandom(state, 19650218UL);
 
     for(; k; k--) {
-        mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1664525UL)) + seed[j] + (uint32_t)j; /* non linear */
+        mt[i] = (mt[i] ^ ((mt[i-1] ^ (mt[i-1] >> 30)) * 1664525UL)) + (len ? seed[j] : 0) + (uint32_t)j; /* non linear */
         mt[i] &= 0xffffffffUL; /* for WORDSIZE > 32 machines */
 
         i++;
-- 
2.43.0


From f36995c1188e25c341f02724ee7ceb1760c751f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 57/73] fix: zt_time_calibrate subtracted its measurement from
 itself and recorded zero

---
 src/libzt/zt_time.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..b8dddc1 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -103,7 +103,13 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result none = { { 0, 0 }, { 0, 0 } };
+    struct time_result overhead = none;
+
+    /* measured without, and not into, the current calibration: zt_time subtracts that from its result */
+    _calibration_time = none;
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From cb78d3909221c72425fa199883a84f268a966b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:02 +0000
Subject: [PATCH 58/73] fix: zt_mkdir took a file for a directory, retried
 failures for ever and overran its buffer on long paths

---
 src/libzt/zt_path.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..32def4e 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -19,6 +19,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     ssize_t     offt;
     struct stat sbuf;
     ssize_t     pslen;
+    int         parents_done = 0;
 
     errno = 0;
 
@@ -26,10 +27,16 @@ AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {
+                return 0;
+            }
+            /* something else has that name */
+            errno = EEXIST;
+            zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
+            return -1;
         }
 
-        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
+        if (parents_done || !ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
             /* could not create dir and create parents not set */
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
@@ -37,6 +44,10 @@ AGAIN:
 
         pslen = strlen(PATH_SEPERATOR);
         len   = strlen(path);
+        if (len >= (ssize_t)sizeof(cpath)) {
+            errno = ENAMETOOLONG;
+            return -1;
+        }
         memset(cpath, 0, sizeof(cpath));
 
         offt  = 0;
@@ -47,7 +58,7 @@ AGAIN:
                 break;
             }
 
-            memcpy(cpath, path, MIN(sizeof(cpath), (size_t)offt));
+            memcpy(cpath, path, (size_t)offt);
             offt += pslen;
 
             if (offt == pslen || stat(cpath, &sbuf) == 0) {
@@ -61,6 +72,7 @@ AGAIN:
             }
         }
 
+        parents_done = 1;
         goto AGAIN;
     }
 
-- 
2.43.0


From 6cee4f4ca7c8642ce573ee1e7fed46b5b60b40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 59/73] fix: zt_find_basedir left paths longer than PATH_MAX
 unterminated

---
 src/libzt/zt_path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 32def4e..7bed9db 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -106,8 +106,12 @@ char *zt_find_basedir(const char * path, const char * trigger) {
     char        lpath[PATH_MAX + 1];
 
     len = strlen(path);
+    if (len >= sizeof(lpath)) {
+        errno = ENAMETOOLONG;
+        return NULL;
+    }
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, len);
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From 474992714a4ca87403d19b4999c3cdac595fb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 60/73] fix: zt_uuid_fromstr accepted standard and short UUIDs
 with foreign characters or misplaced dashes

---
 src/libzt/zt_uuid.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..b6fb5b9 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -332,7 +332,7 @@ zt_uuid_fillstr(zt_uuid_t* uuid, char* uuids, size_t* uuids_size, zt_uuid_flags_
 
 int
 zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
-    char uuid_hex[UUID_SHORT_STR_LEN + 1]; /* +1 for sscanf */
+    char uuid_hex[UUID_SHORT_STR_LEN];
 
     zt_assert(uuidstr);
     zt_assert(uuid);
@@ -342,17 +342,22 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
         if (strlen(uuidstr) != UUID_STR_LEN) {
             return -1;
         }
-        sscanf(uuidstr, "%8s-%4s-%4s-%4s-%12s",
-               uuid_hex,
-               &uuid_hex[8],
-               &uuid_hex[12],
-               &uuid_hex[16],
-               &uuid_hex[20]);
+        if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+            return -1;
+        }
+        memcpy(uuid_hex, uuidstr, 8);
+        memcpy(&uuid_hex[8], &uuidstr[9], 4);
+        memcpy(&uuid_hex[12], &uuidstr[14], 4);
+        memcpy(&uuid_hex[16], &uuidstr[19], 4);
+        memcpy(&uuid_hex[20], &uuidstr[24], 12);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if (flags == zt_uuid_short_fmt) {
         if (strlen(uuidstr) != UUID_SHORT_STR_LEN) {
             return -1;
         }
+        if (zt_uuid_isvalid(uuidstr, flags) != 0) {
+            return -1;
+        }
         memcpy(uuid_hex, uuidstr, UUID_SHORT_STR_LEN);
         zt_hex_to_binary(uuid_hex, UUID_SHORT_STR_LEN, uuid->data.bytes, UUID_ALEN);
     } else if ((flags == zt_uuid_base62_fmt) || (flags == zt_uuid_base62_hashable_fmt)) {
-- 
2.43.0


From e264b37e5d1a065b3023d4e4ad6fc967ce45f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 61/73] fix: zt_uuid_fromstr read past base62 text that is too
 short

---
 src/libzt/zt_uuid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index b6fb5b9..0857595 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -367,6 +367,10 @@ zt_uuid_fromstr(char * uuidstr, zt_uuid_t * uuid, zt_uuid_flags_t flags) {
         int       x;
         int       ok1;
 
+        if (strlen(uuidstr) != UUID_BASE62_STR_LEN) {
+            return -1;
+        }
+
         /*  reverse the first _UUID_BASE62_SEGMENT bytes to move the less truncated bits forward */
         if (flags == zt_uuid_base62_hashable_fmt) {
             char      t_uuidstr[_UUID_BASE62_SEGMENT];
-- 
2.43.0


From b9e137b5dbf8f224012c86b6955c1095d7a85f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 62/73] fix: zt_uuid_fromstr wrapped base62 text that denotes
 more than 64 bits

---
 src/libzt/zt_uuid.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 0857595..415f238 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -8,8 +8,6 @@
 
 #include <stdio.h>
 
-#include <math.h>
-
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -534,7 +532,10 @@ base62_decode_int64(const char * in, size_t ilen, uint64_t * out) {
             return -1; /* invalid character */
         }
 
-        v += n * (uint64_t)(powl(62, tlen - i - 1));
+        if (v > (UINT64_MAX - (uint64_t)n) / 62) {
+            return -1; /* more than 64 bits */
+        }
+        v = v * 62 + (uint64_t)n;
     }
 
     *out = v;
-- 
2.43.0


From a7b844605e638acc669b8d4e5a57f266204ec7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 63/73] fix: zt_uuid4 shared the pointer to its per-thread
 generator between threads

---
 src/libzt/zt_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 415f238..1da0081 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -63,7 +63,7 @@ zt_uuid4_get_ctx(void) {
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
+    zt_random_state         * state;
     static int                rand_initialized  = 0;
 
     zt_assert(uuid);
-- 
2.43.0


From 7da0960c45838f6c10a4a6e3bdb603c57475f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:28 +0000
Subject: [PATCH 64/73] fix: zt_progpath never looked in the last element of
 PATH and misread an empty one

---
 src/libzt/zt_progname.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..6fb71c2 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -122,7 +122,7 @@ zt_progpath(char *prog) {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        offt = 0;
-            ssize_t       base = 0;
+            size_t        base = 0;
             size_t        len;
             char        * tpath;
             struct stat   sbuf;
@@ -143,25 +143,28 @@ zt_progpath(char *prog) {
             }
 
             len = strlen(path);
-            while(offt < len) {
-                ssize_t   sofft;
-
-                if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+            while(offt <= len) {
+                base = offt;
+                offt += strcspn(path + base, ENV_SEPERATOR);
+
+                if(offt > base) {
+                    tpath = zt_cstr_catv(path, base, offt-1,
+                                         PATH_SEPERATOR, 0, -1,
+                                         prog, 0, -1, NULL);
+                } else {
+                    /* an empty element is the current directory */
+                    tpath = zt_cstr_catv(".", 0, -1,
+                                         PATH_SEPERATOR, 0, -1,
+                                         prog, 0, -1, NULL);
                 }
-                offt = (size_t)sofft;
-                tpath = zt_cstr_catv(path, base, offt-1,
-                                     PATH_SEPERATOR, 0, -1,
-                                     prog, 0, -1, NULL);
 
                 errno = 0;
                 if((stat(tpath, &sbuf) == 0)) {
                     zt_cstr_dirname(_progpath, PATH_MAX, tpath);
                     zt_free(tpath);
-                    return _progpath;
+                    break;
                 }
                 zt_free(tpath);
-                base = offt+1;
                 offt++;
             }
 
-- 
2.43.0


From 598607f924ab9026d1b26484d3c47d9dc0cb6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:07 +0000
Subject: [PATCH 65/73] fix: zt_progpath searched PATH for ./prog and named the
 current directory with a dot

---
 src/libzt/zt_progname.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6fb71c2..e4b9db0 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -118,7 +118,7 @@ zt_progpath(char *prog) {
         memset(_progpath, '\0', PATH_MAX);
         zt_cstr_dirname(_progpath, PATH_MAX, prog);
 
-        if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
+        if(prog[strcspn(prog, PATH_SEPERATOR)] == '\0') {
             /* the passed in prog did not include a path */
             char        * path;
             size_t        offt = 0;
@@ -188,6 +188,12 @@ zt_progpath(char *prog) {
                     char      * tpath;
                     char      * pp = _progpath;
 
+                    if(strcmp(_progpath, ".") == 0) {
+                        /* the current directory itself */
+                        zt_cstr_copy(cwd, 0, -1, _progpath, PATH_MAX);
+                        return _progpath;
+                    }
+
                     if(_progpath[0] == '.' &&  _progpath[1] == '/') {
                         /* if it starts with ./ then remove it */
                         pp += 2;
-- 
2.43.0


From b9e0263c44b9058a2664da9242acf8d53e83a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:42 +0000
Subject: [PATCH 66/73] fix: number and boolean options without a value read
 through NULL

---
 src/libzt/zt_opts.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..10034a6 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -145,6 +145,10 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -174,6 +178,10 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -201,6 +209,10 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        return 0;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From fff3110ec97489f0029adb911fd7f945d953daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:42 +0000
Subject: [PATCH 67/73] fix: zt_opt_get_value compared with a missing long
 name, misread clusters and values holding '=' and counted a value that is not
 there

---
 src/libzt/zt_opts.c | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 10034a6..e32be16 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -88,41 +88,23 @@ zt_opt_error_default(int code, char * fmt, ...) {
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
-    char * pp     = NULL;
     char * result = NULL;
-    char * lopt   = def[defn].lopt;
 
     *args_consumed = 0;
 
-    /* skip past any leading '-' */
-    while(*p == '-') { p++; }
-
-    pp = p;
-    do {
-        if (*pp == '=') {
-            result = ++pp;
-            break;
+    if (p[0] == '-' && p[1] == '-') {
+        /* long opt, the value may follow an embedded '=' */
+        if ((result = strchr(p, '=')) != NULL) {
+            result++;
         }
-    } while (*pp++);
+    } else if ((p = strchr(&p[1], def[defn].sopt)) != NULL && p[1]) {
+        /* short opt, maybe behind others, with a value attached */
+        result = p[1] == '=' ? &p[2] : &p[1];
+    }
 
-    if (!result) {
-        pp = p;
-        /* there was no '=' embedded
-         * try matching the long opt name
-         */
-        if (strcmp(lopt, pp) == 0) {
-            result = argv[argn + 1]; /* default to the next option */
-            *args_consumed = 1;
-        } else {
-            /* short opt */
-            pp++;
-            if(*pp) {
-                result = pp;
-            } else {
-                result = argv[argn + 1];
-                *args_consumed = 1;
-            }
-        }
+    if (!result && (result = argv[argn + 1]) != NULL) {
+        /* default to the next option */
+        *args_consumed = 1;
     }
 
     if (!result) {
-- 
2.43.0


From f94b634b3b27b4c5f9af79a7c1352e9142a07cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:42 +0000
Subject: [PATCH 68/73] fix: zt_opt_process_args took attached values for more
 options and ignored unknown ones in clusters

---
 src/libzt/zt_opts.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index e32be16..cebcd49 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,6 +85,9 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* the last value asked for was part of the option's own argument */
+static int value_attached = 0;
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
@@ -102,6 +105,8 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
         result = p[1] == '=' ? &p[2] : &p[1];
     }
 
+    value_attached = result != NULL;
+
     if (!result && (result = argv[argn + 1]) != NULL) {
         /* default to the next option */
         *args_consumed = 1;
@@ -480,6 +485,7 @@ zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_valida
 
 
 AGAIN:
+            found = 0;
             for (x = 0; args[x].cb; x++) {
                 if ((len == 0 && args[x].sopt != ZT_OPT_NSO && *p == args[x].sopt) || /* short opt */
                     /* long opt */
@@ -488,6 +494,7 @@ AGAIN:
                     int consumed = 0;
 
                     found = 1;
+                    value_attached = 0;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -497,8 +504,9 @@ AGAIN:
                         i += consumed;
                     }
 
-                    if(!consumed && !long_opt && *(++p)) {
+                    if(!consumed && !value_attached && !long_opt && *(++p)) {
                         /* if we did not consume extra args AND
+                         * the rest of this one is not a value AND
                          * we are a short option AND
                          * there are more short options to consume
                          */
-- 
2.43.0


From 71f00d2bbaedc7ad50ee622736a7e23cfaeee7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 69/73] fix: zt_fmt_printf and zt_fmt_fprintf returned the sum
 of the character codes instead of their number

---
 src/libzt/zt_format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..c83571c 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -448,7 +448,7 @@ zt_fmt_outc(int c, void *cl)
 {
     FILE *f = cl;
 
-    return putc(c, f);
+    return putc(c, f) == EOF ? 0 : 1;
 }
 
 static size_t
@@ -647,7 +647,7 @@ zt_fmt_insert(int c, void *cl)
     /* } */
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
 
 static int
@@ -662,5 +662,5 @@ zt_fmt_append(int c, void *cl)
     }
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
-- 
2.43.0


From b68f9876af2e0b2e61377690d61db0d1a1200cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 70/73] fix: zt_format printed INT_MAX as 2147483648 and
 negated INT_MIN

---
 src/libzt/zt_format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index c83571c..90dc9dd 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -484,8 +484,8 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
-        m = INT_MAX + 1U; /* -1 */
+    if (val == INT_MIN) {
+        m = INT_MAX + 1U;
     } else if (val < 0) {
         m = -val;
     } else {
-- 
2.43.0


From 51207f51bee1a5e432cec75a153f7adf20a74da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 71/73] fix: zt_fmt_putd ignored the + flag, padded between
 sign and digits and overran the width for zero with precision 0

---
 src/libzt/zt_format.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 90dc9dd..73be42e 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -374,6 +374,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
@@ -391,6 +393,7 @@ zt_fmt_putd(const char *str, size_t len,
                len == 1 &&
                str[0] == '0') {
         n = 0;
+        len = 0;
     } else {
         n = len;
     }
@@ -409,10 +412,10 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             tlen += put(sign, cl);
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From 42492c85d81b193a02c7b40bf1cab806ad941549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 72/73] fix: zt_fmt_puts did not pad left justified text

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 73be42e..ca9b186 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -351,6 +351,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From f28d02f7e700696d9f02c70a1458887453ef072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 73/73] fix: zt_fmt_sprintf wrote past the end of a buffer too
 small for the text

---
 src/libzt/zt_format.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index ca9b186..cbca646 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -164,11 +164,11 @@ zt_fmt_vsprintf(char *buf, size_t size, const char *fmt, va_list ap)
     zt_assert(fmt);
 
     cl.buf = cl.bp = buf;
-    cl.size = size;
+    cl.size = size - 1;  /* room for the terminator */
 
     zt_fmt_vformat(zt_fmt_insert, &cl, fmt, ap);
-    zt_fmt_insert(0, &cl);
-    return cl.bp - cl.buf - 1;
+    *cl.bp = '\0';
+    return cl.bp - cl.buf;
 }
 
 char * zt_fmt_strprintf(const char *fmt, ...)
@@ -648,10 +648,9 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
-    /* if (p->bp >= p->buf + p->size) { */
-        /* TRY_THROW(zt_exception.format.overflow); */
-    /* } */
+    if (p->bp >= p->buf + p->size) {
+        return 0;  /* full, the rest is cut off */
+    }
 
     *p->bp++ = c;
     return 1;
-- 
2.43.0

