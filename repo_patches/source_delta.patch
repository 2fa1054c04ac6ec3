From 3fd17779d8aab57fa3384858fe7d93ec37215542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:29 +0000
Subject: [PATCH 01/15] fix: reject IPv4 numbers with characters other than
 ASCII digits of the radix

---
 src/urlstd/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..a8fab0d 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,6 +1186,11 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
+        if any(c not in ASCII_HEX_DIGITS for c in address):
+            # int() also accepts signs, underscores, whitespace, radix
+            # prefixes, and non-ASCII digits
+            return -1, True
+
         try:
             return int(address, r), validation_error
         except ValueError:
-- 
2.43.0


From b4f91798dfc0e1f866285c0f50965184b9587fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:36 +0000
Subject: [PATCH 02/15] fix: reject IPv4 addresses with any part but the last
 greater than 255

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index a8fab0d..4d61eb0 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1270,7 +1270,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From e5e88761918aa6c1577243527d404da920b3a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:42 +0000
Subject: [PATCH 03/15] fix: accept IPv6 addresses that end with a compression
 at the last piece

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4d61eb0..99228ee 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1339,7 +1339,7 @@ class IPv6Address:
         piece = ""
         previous: Optional[str] = None
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
-- 
2.43.0


From 752396936a84fc6ab10578d81c80ac4994d3c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:49 +0000
Subject: [PATCH 04/15] fix: reject IPv6 addresses that begin with more than
 two colons

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 99228ee..2d25911 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1337,7 +1337,7 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
+        previous: Optional[str] = ":" if compress is not None else None
         for c in cpstream(address[start:]):
             if piece_index >= 8 and not iseof(c):
                 log.error(
-- 
2.43.0


From 4d3dc8ceef048b8174c1b90561f8ab1dce6f5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 05/15] fix: reject IPv6 addresses with pieces after the IPv4
 address syntax

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 2d25911..1be0ab6 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1426,7 +1426,7 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
+            if (not iseof(c) or len(ipv4_pieces) > 4) or any(
                 [
                     len(x) == 0
                     or any(y not in ASCII_DIGITS for y in x)
-- 
2.43.0


From 5c01b705ae3bb0201bcf51e908ffae029a9ae3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:03 +0000
Subject: [PATCH 06/15] fix: raise IPv6AddressParseError for very long
 IPv4-in-IPv6 parts

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 1be0ab6..094bf82 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1450,7 +1450,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
-- 
2.43.0


From 31eb7548221af93db5289868fcfdf63a462e1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:10 +0000
Subject: [PATCH 07/15] fix: do not raise a bare ValueError for very long port
 numbers

---
 src/urlstd/parse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 094bf82..004f3a8 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3687,17 +3687,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    digits = buffer.lstrip("0") or "0"
+                    if len(digits) > 5 or int(digits) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            digits,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {digits} in {urlstring!r}"
                         )
+                    port = int(digits)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From b9a80702efc028df68bb1f709388fcb4888ebfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:20 +0000
Subject: [PATCH 08/15] fix: treat port 0 as a non-null port when setting
 protocol, host, or hostname

---
 src/urlstd/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 004f3a8..7b9302b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3388,7 +3388,7 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (url.includes_credentials() or url.port is not None)
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3909,7 +3909,7 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (url.includes_credentials() or url.port is not None)
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From f6ad0669851539a53453490317eb0a70c6eca4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 09/15] fix: percent-encode U+007E (~) in the
 application/x-www-form-urlencoded serializer

---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 7b9302b..4f41579 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -418,7 +418,8 @@ def urlencode(
             space_as_plus=True,
         )
         params.append(f"{name}={value}")
-    return "&".join(params)
+    # quote() never percent-encodes "~", but the percent-encode set contains it
+    return "&".join(params).replace("~", "%7E")
 
 
 def urlparse(
-- 
2.43.0


From 8377001beeaa8d7bf6a849b4450651ef2604c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:34 +0000
Subject: [PATCH 10/15] fix: do not percent-decode names and values passed to
 URLSearchParams methods

---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4f41579..2ac2810 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2121,8 +2121,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2160,7 +2160,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2195,7 +2195,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2218,7 +2218,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2241,7 +2241,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2274,8 +2274,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From af6c7d1c3ed230d1ed599ff003128df00c33c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 11/15] fix: compare values as strings in
 URLSearchParams.delete() and has()

---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 2ac2810..c3cf726 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2161,6 +2161,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2242,6 +2244,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From 45270da9de9ae88c6a6bdb44cf219148759dc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 12/15] fix: percent-encode surrogate pairs in opaque paths as
 one code point

---
 src/urlstd/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index c3cf726..c6a7776 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3463,10 +3463,14 @@ class BasicURLParser:
         # **opaque path state**
         del base
         log = get_logger(cls)
+        buffer = ""
         index = start
-        # TODO: Use buffer.
         for c in cpstream(urlstring[index:]):
             index += 1
+            if (iseof(c) or iscp(c, "?#")) and len(buffer) > 0:
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3506,9 +3510,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From 2a94f68418fd617cfd29749dd05adfb3394c39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 13/15] fix: replace lone surrogates in domains before IDNA
 processing

---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index c6a7776..83aeba9 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1040,6 +1040,7 @@ class IDNA:
         """
         log = get_logger(cls)
         info = icu.IDNAInfo()
+        domain = utf8_decode(utf8_encode(domain))
         try:
             options = (
                 icu.UIDNA_CHECK_BIDI
@@ -1119,6 +1120,7 @@ class IDNA:
         """
         log = get_logger(cls)
         info = icu.IDNAInfo()
+        domain = utf8_decode(utf8_encode(domain))
         try:
             options = (
                 icu.UIDNA_CHECK_BIDI
-- 
2.43.0


From 2281a950719b2f3673326f1d46efd33d849db0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 14/15] =?UTF-8?q?fix:=20keep=20the=20base=20URL=E2=80=99s?=
 =?UTF-8?q?=20path=20when=20the=20input=20against=20a=20file=20URL=20is=20?=
 =?UTF-8?q?empty?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 83aeba9..a2e525a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3198,6 +3198,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From ea265b0a72fb8d627d6c15150fd538a7e1a64cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:53 +0000
Subject: [PATCH 15/15] fix: IPv4 parser raised ValueError when reporting very
 large parts

---
 src/urlstd/parse.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index a2e525a..c34cd8a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1265,12 +1265,14 @@ class IPv4Address:
                 )
             numbers.append(result[0])
 
+        # converting a very large integer to a decimal string raises ValueError
+        parsed = [x if x.bit_length() <= 64 else hex(x) for x in numbers]
         if any(x > 255 for x in numbers):
             log.info(
                 "IPv4-out-of-range-part: "
                 "IPv4 address part exceeds 255: %r (%r)",
                 address,
-                numbers,
+                parsed,
                 **kwargs,
             )
         if any(x > 255 for x in numbers[:-1]):
@@ -1278,12 +1280,12 @@ class IPv4Address:
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
                 address,
-                numbers,
+                parsed,
                 **kwargs,
             )
             raise IPv4AddressParseError(
                 f"any part but the last part of the IPv4 address is greater than 255: "
-                f"{address!r} ({numbers!r})"
+                f"{address!r} ({parsed!r})"
             )
         limit = 256 ** (5 - len(numbers))
         if numbers[-1] >= limit:
@@ -1292,12 +1294,12 @@ class IPv4Address:
                 "%r (%r)",
                 limit,
                 address,
-                numbers,
+                parsed,
                 **kwargs,
             )
             raise IPv4AddressParseError(
                 f"last part of the IPv4 address is greater than or equal to {limit}: "
-                f"{address!r} ({numbers!r})"
+                f"{address!r} ({parsed!r})"
             )
 
         ipv4 = numbers[-1]
-- 
2.43.0

