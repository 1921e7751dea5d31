From fdb72d2d28d344401a6c888c1690bbee45f76037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 01/15] fix: '!' is a legal scope character

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..8c470d9 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 4cf7cef1c8a93322f21a0c421c64f1ca765a68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 02/15] fix: allow every character RFC 6749 permits in an error
 description

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..4fa38ec 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# RFC 6749: %x20-21 / %x23-5B / %x5D-7E
+error_chars = {chr(c) for c in range(0x20, 0x7F)} - {'"', '\\'}
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From a3d62aedd3a82fdf137a7b9edd30386a349d56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 03/15] fix: OIDC error codes must not leak into the OAuth2
 error response

---
 src/oidcmsg/oidc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8c470d9..45cdb37 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,6 +390,8 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
+    # not in place, the list belongs to the OAuth2 class
+    c_allowed_values["error"] = list(c_allowed_values["error"])
     c_allowed_values["error"].extend(["interaction_required",
                                       "login_required",
                                       "session_selection_required",
-- 
2.43.0


From 2a870d32aedd23dba1be9bb75f3c0f37a0ef6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 04/15] fix: a back-channel logout token must be signed

---
 src/oidcmsg/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..6ff15e1 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,9 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        # A logout token MUST be signed
+        if not idt.jws_header or idt.jws_header.get("alg", "none") == "none":
+            raise UnsupportedAlgorithm("Logout token not signed")
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From 8d0786bb0c3d843086d07b21d5447b9b738ea42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 05/15] fix: skew extends the not-before limit, as it does for
 issued-at

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 45cdb37..1648baf 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -985,7 +985,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 86947c8abf27c1870bb23eb11211df7196e23b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 06/15] fix: discard 'verified' copies that came with the
 message or its request object

---
 src/oidcmsg/oidc/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 1648baf..2d2721e 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -444,6 +444,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         super(AuthorizationRequest, self).verify(**kwargs)
 
         clear_verified_claims(self)
+        self._dict.pop("verified_id_token_hint", None)
 
         args = {}
         for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
@@ -475,6 +476,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                         del self[key]
 
                 self.update(oidr)
+                # nothing in the request object counts as verified by us
+                clear_verified_claims(self)
+                self._dict.pop("verified_id_token_hint", None)
 
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
@@ -839,6 +843,8 @@ class MessageWithIdToken(Message):
 
     def verify(self, **kwargs):
         super(MessageWithIdToken, self).verify(**kwargs)
+
+        clear_verified_claims(self)
         if "id_token" in self:
             if not verify_id_token(self, **kwargs):
                 return False
-- 
2.43.0


From 801e953f01a6e0f228598f645dbd3d348615f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:09 +0000
Subject: [PATCH 07/15] fix: discard a caller's 'verified' request object when
 no request is given

---
 src/oidcmsg/oauth2/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 4fa38ec..56f4970 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +358,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
-- 
2.43.0


From bac9a549b9c9e38021643babb51abeb850ce6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 08/15] fix: a mapping is not a value for a list of strings

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..4c03357 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -379,7 +379,7 @@ class Message(MutableMapping):
                                 ERRTXT % (key, "type != %s (%s)" % (vtype, type(v))))
 
                 self._dict[skey] = val
-            elif isinstance(val, dict):
+            elif isinstance(val, dict) and issubclass(vtype, Message):
                 try:
                     val = _deser(val, sformat="dict")
                 except Exception as exc:
-- 
2.43.0


From 8f05e01511be067ecb188847dc8ef193ca7a8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 09/15] fix: deleting from a file store must use the serialized
 key

---
 src/oidcmsg/storage/abfile.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..b87f318 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,6 +126,14 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
+        self._remove(self.key_conv.serialize(key))
+
+    def _remove(self, key):
+        """
+        Remove an entry.
+
+        :param key: The key in serialized form, that is the name of the file
+        """
         fname = os.path.join(self.fdir, key)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
@@ -249,7 +257,7 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            self._remove(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From 9efdc65b5d2838fbe9e59afda9e81a5b698a1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 10/15] fix: update and iteration of labelled stores

---
 src/oidcmsg/storage/abfile.py    | 4 ++--
 src/oidcmsg/storage/extension.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index b87f318..c2d31fa 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -314,9 +314,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for k, v in ava.items():
+            self[k] = v
 
     @key_label
     def __getitem__(self, k):
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..c42a5b5 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for k, v in ava.items():
+            self[k] = v
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From d3152fd6df4da967ea35fe733ee528ab3ebcaa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 11/15] fix: the merged request parameters must satisfy the
 base rules too

---
 src/oidcmsg/oidc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 2d2721e..d35b84e 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -479,6 +479,8 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
                 # nothing in the request object counts as verified by us
                 clear_verified_claims(self)
                 self._dict.pop("verified_id_token_hint", None)
+                # the effective parameters must be acceptable too
+                super(AuthorizationRequest, self).verify(**kwargs)
 
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
-- 
2.43.0


From 724163778cbe6e28027fa3fefe417c0ad5e7c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 12/15] fix: a missing openid scope is reported as such

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d35b84e..d082030 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -925,7 +925,7 @@ class ProviderConfigurationResponse(ResponseMessage):
 
         if "scopes_supported" in self:
             if "openid" not in self["scopes_supported"]:
-                raise MissingRequiredValue
+                raise MissingRequiredValue("openid not in scopes_supported")
             for scope in self["scopes_supported"]:
                 check_char_set(scope, SCOPE_CHARSET)
 
-- 
2.43.0


From c74e02d494faa5714edd7c3c885b76a8178bae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 13/15] fix: an unsigned ID Token is allowed only if the caller
 says so

allow_sign_alg_none given as None or another false value counted as
permission because only the value False itself was refused.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d082030..99e0aa7 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -283,7 +283,7 @@ def verify_id_token(msg, check_hash=False, claim='id_token', **kwargs):
         if _sign_alg == "none":
             _allowed = True
         else:  # There might or might not be a specified signing alg
-            if kwargs.get('allow_sign_alg_none', False) is False:
+            if not kwargs.get('allow_sign_alg_none', False):
                 logger.info('Signing algorithm None not allowed')
                 raise UnsupportedAlgorithm('Signing algorithm None not allowed')
     else:
-- 
2.43.0


From 94fae7a37c55976d995867e6e27dee79ee0b22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:52 +0000
Subject: [PATCH 14/15] fix: a single link of a JRD is stored as a list

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 99e0aa7..f59a41c 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -1079,7 +1079,7 @@ def link_deser(val, sformat="urlencoded"):
     if isinstance(val, list):
         return [_l_deser(v, sformat) for v in val]
     else:
-        return _l_deser(val, sformat)
+        return [_l_deser(val, sformat)]
 
 
 def link_ser(inst, sformat, lev=0):
-- 
2.43.0


From 3de4035b45ad71d6b19bce6e58852b99de7e842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:40 +0000
Subject: [PATCH 15/15] fix: typed evidence is verified instead of recursing
 without end

---
 src/oidcmsg/oidc/identity_assurance.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..53b29ac 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -231,27 +231,27 @@ class Evidence(Message):
         if _type:
             if _type == "id_document":
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
             elif _type == "utility_bill":
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
             elif _type == "qes":
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
             else:
                 raise ValueError("Unknown type")
         else:  # let the guessing begin
             if all(x in self.keys() for x in IdDocument.c_param.keys()):
                 _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
+                super(Evidence, _doc).verify(**kwargs)
                 self["type"] = "id_document"
             elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
                 _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
+                super(Evidence, _bill).verify(**kwargs)
                 self["type"] = "utility_bill"
             elif all(x in self.keys() for x in QES.c_param.keys()):
                 _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
+                super(Evidence, _qes).verify(**kwargs)
                 self["type"] = "qes"
             else:
                 raise ValueError("Unknown object")
-- 
2.43.0

