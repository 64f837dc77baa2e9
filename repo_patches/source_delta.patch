From 1d284944d629c4744f7f4d6de8e698e7c681faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 001/101] fix: reconstructing a field no longer alters the
 caller's specification

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..5493144 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = dict(specification)
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From b727a710d194660befe87318187a399e0a56fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 002/101] fix: fields with instance-level errors can be cloned,
 and Email honours them

---
 scheme/field.py        | 2 ++
 scheme/fields/email.py | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 5493144..76cde10 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -205,6 +205,8 @@ class Field(object):
 
         if errors:
             self.errors = self.errors.copy()
+            if isinstance(errors, dict):
+                errors = errors.values()
             for error in errors:
                 self.errors[error.token] = error
 
diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..85f0826 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -30,15 +30,19 @@ class Email(Text):
     def __init__(self, multiple=False, extended=False, pattern=None,
             strip=None, errors=None, **params):
 
+        if isinstance(errors, dict):
+            errors = errors.values()
+
+        declared_errors = list(errors or [])
         if multiple:
-            errors = self.multiple_errors
+            errors = self.multiple_errors + declared_errors
             if not extended:
                 pattern = EMAIL_LIST_EXPR
             else:
                 raise ValueError("argument 'extended' cannot be True when argument"
                     " 'multiple' is True")
         else:
-            errors = self.single_errors
+            errors = self.single_errors + declared_errors
             if extended:
                 pattern = EXTENDED_EMAIL_ADDRESS_EXPR
             else:
-- 
2.43.0


From 04faa0061c9f11620708d743ecc9da8e5859521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 003/101] fix: surrogates get their identity on Python 3

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From efb7959700fb22ce62e72f5dec5f6f846e8492af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 004/101] fix: the surrogate field checks its valid surrogates

---
 scheme/fields/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..61daf55 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -15,7 +15,7 @@ class Surrogate(Field):
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a surrogate'),
-        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogate)s'),
+        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogates)s'),
     ]
 
     def __init__(self, valid_surrogates=None, **params):
@@ -62,6 +62,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From 7c70d5daf90d659e726760726063810867b231a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 005/101] fix: malformed serialized surrogates are reported as
 invalid values

---
 scheme/fields/surrogate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 61daf55..94bd1b0 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -51,7 +51,13 @@ class Surrogate(Field):
 
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
+            try:
+                return surrogate.unserialize(value, ancestry)
+            except (StructuralError, UndefinedFieldError):
+                raise
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
         elif isinstance(value, surrogate):
             return value
         else:
-- 
2.43.0


From 76790f7ce31f30044b21f5a736a681f5a1621893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 006/101] fix: malformed base64 is reported as an invalid value
 by Binary

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..d77d4a4 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except Exception:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From 46f4334edecb0a9a9fb22b64148f680086c70815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 007/101] fix: sequences of unhashable items can be required to
 be unique

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..92f9d32 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -224,6 +224,12 @@ class Sequence(Field):
     def _define_undefined_field(self, field):
         self.item = field
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(item in sequence[:i] for i, item in enumerate(sequence))
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
-- 
2.43.0


From 6a0589a74fa6a47f41f581da68b9ed1737301084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 008/101] fix: dates before the year 1000 are serialized so
 that they can be read back

---
 scheme/fields/date.py     | 6 +++---
 scheme/fields/datetime.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..4025efa 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -56,14 +56,14 @@ class Date(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, date):
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..74e76da 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -81,7 +81,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
-- 
2.43.0


From 2bc531d0320ce4d3f45516f36a1b9591207972c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 009/101] fix: DateTime describes its bounds in UTC, as its
 pattern says

---
 scheme/fields/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 74e76da..4097fff 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -62,9 +62,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
-- 
2.43.0


From d1e7266f92c98c98f5c8434d863e5e84b6659682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 010/101] fix: Date compares datetime values by their date
 instead of raising TypeError

---
 scheme/fields/date.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 4025efa..2a36715 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -62,6 +62,9 @@ class Date(Field):
 
         return super(Date, self).describe(parameters, verbose, **params)
 
+    def _normalize_value(self, value):
+        return date(value.year, value.month, value.day)
+
     def _serialize_value(self, value):
         return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
@@ -79,11 +82,11 @@ class Date(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and self._normalize_value(value) < self._normalize_value(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum.strftime(self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and self._normalize_value(value) > self._normalize_value(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum.strftime(self.pattern))
-- 
2.43.0


From bd4c93cfcccae27c62d7f16a775f8805e3227b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 011/101] fix: Time compares aware values with naive bounds
 instead of raising TypeError

---
 scheme/fields/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/time.py b/scheme/fields/time.py
index fe6e0bb..387f34d 100644
--- a/scheme/fields/time.py
+++ b/scheme/fields/time.py
@@ -77,11 +77,11 @@ class Time(Field):
                 value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and value.replace(tzinfo=minimum.tzinfo) < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct('minimum',
                 minimum=minimum.strftime(self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and value.replace(tzinfo=maximum.tzinfo) > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct('maximum',
                 maximum=maximum.strftime(self.pattern))
-- 
2.43.0


From b550de3ef3a4fc724d3e67798e97db4b2d2498c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 012/101] fix: DateTime reports values outside the
 representable range as overflow

---
 scheme/fields/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 4097fff..804318b 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -95,7 +95,10 @@ class DateTime(Field):
 
     def _validate_value(self, value, ancestry):
         if isinstance(value, datetime):
-            value = self._normalize_value(value)
+            try:
+                value = self._normalize_value(value)
+            except (OverflowError, ValueError):
+                raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
         else:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-- 
2.43.0


From 4fdcf6f954ff6af3424a3c9251ca79cb29bcde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 013/101] fix: not-a-number does not satisfy numeric bounds

---
 scheme/fields/decimal.py | 4 ++--
 scheme/fields/float.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..dd4b2b7 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -89,11 +89,11 @@ class Decimal(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and (value.is_nan() or value < minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and (value.is_nan() or value > maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 2d7d075..072ae91 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -54,11 +54,11 @@ class Float(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and not value >= minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and not value <= maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
-- 
2.43.0


From 418c42a7432ef3393a9dcc3d16924e0f2cd25594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 014/101] fix: token, uuid and email patterns do not accept a
 trailing newline

---
 scheme/fields/email.py | 6 +++---
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 85f0826..2e9d7db 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -12,10 +12,10 @@ EMAIL_EXPR = (
     r'|"([\001-\010\013\014\016-\037!#-\[\]-\177]|\\[\001-\011\013\014\016-\177])*"'
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
-EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
-EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
+EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
 SEPARATOR_EXPR = re.compile(r'[\s,;:]+')
 SEPARATORS = whitespace + ',;:'
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..ff9c97c 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,7 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From a38a612c0a9c55d0620ea0d12d0a1a1b42aae46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 015/101] fix: fields can be serialized to and unserialized
 from urlencoded text

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..dc8f419 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From a5a1a6407a2d98bec46ba047d9216aee0c6ca368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 016/101] fix: empty values survive structured text and url
 encoding

---
 scheme/formats/structuredtext.py | 2 +-
 scheme/formats/urlencoded.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..4499f14 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -23,7 +23,7 @@ class StructuredText(Format):
     def unserialize(cls, value, schema=None, parse_numbers=False):
         if not isinstance(value, string):
             raise ValueError(value)
-        if value[0] in ('{', '['):
+        if value[:1] in ('{', '['):
             return cls._unserialize_structured_value(value, parse_numbers)
         else:
             return cls._unserialize_simple_value(value, parse_numbers)
diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index dc8f419..58f476a 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -34,8 +34,8 @@ class UrlEncoded(StructuredText):
             raise ValueError(content)
 
         data = {}
-        for name, value in parse_qsl(content):
-            if value[0] in ('{', '['):
+        for name, value in parse_qsl(content, keep_blank_values=True):
+            if value[:1] in ('{', '['):
                 value = cls._unserialize_structured_value(value)
             else:
                 value = cls._unserialize_simple_value(value)
-- 
2.43.0


From aaf7a03f8fe6ebda19874983bc212cc3780a815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 017/101] fix: malformed structured text raises ValueError
 instead of KeyError

---
 scheme/formats/structuredtext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 4499f14..f065b2e 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -97,6 +97,8 @@ class StructuredText(Format):
         while True:
             text, count = expr.subn(replace, text)
             if count == 0:
+                if text not in structures:
+                    raise ValueError(text)
                 return structures[text]
 
     @classmethod
-- 
2.43.0


From 139714cf4b3d035d2f3fd76c350ec98024e2fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 018/101] fix: strings, keys and floats written as YAML are
 read back as the same values

---
 README.rst             |  2 +-
 scheme/formats/yaml.py | 86 +++++++++++++++++++++++++++++++-----------
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/README.rst b/README.rst
index 5493e9f..b7c6447 100644
--- a/README.rst
+++ b/README.rst
@@ -39,7 +39,7 @@ Scheme can be used wherever incoming and outgoing structured data needs to be we
 
     >>> print(account.serialize(suzy, 'yaml'))
     active: false
-    birthday: 1985-12-02
+    birthday: '1985-12-02'
     email: suzy.queue@something.com
     logins: 324
     name: Suzy Queue
diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..6ab2eee 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -28,7 +28,9 @@ class Yaml(Format):
     mimetype = 'application/x-yaml'
     name = 'yaml'
     requires_escape = (': ', ' #')
-    requires_quotes = ('null', '~', 'true', 'false')
+    requires_double_quotes = re.compile(
+        u'[\x00-\x08\x0b-\x1f\x7f-\xa0\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]')
+    requires_quotes = ('null', '~', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n', '=')
     whitespace = re.compile(r'^\s*$')
 
     @classmethod
@@ -56,6 +58,18 @@ class Yaml(Format):
         else:
             return False
 
+    @classmethod
+    def _is_block_text(cls, value, level):
+        """Whether ``value`` can be read back exactly from a block with no final line break."""
+
+        if not level or value[0] in ' \t\n' or value[-1] == '\n':
+            return False
+        for line in value.split('\n'):
+            if line and cls.whitespace.match(line):
+                return False
+        else:
+            return True
+
     @classmethod
     def _is_simple_sequence(cls, value):
         for item in value:
@@ -66,7 +80,9 @@ class Yaml(Format):
 
     @classmethod
     def _requires_escaping(cls, value):
-        if value[0] in cls.indicators:
+        if value[0] in cls.indicators or value[0] in '+.<0123456789':
+            return True
+        if value[-1] == ':' or value.strip(' ') != value or '\t' in value:
             return True
 
         for token in cls.requires_escape:
@@ -75,6 +91,31 @@ class Yaml(Format):
         else:
             return False
 
+    @classmethod
+    def _serialize_escaped_string(cls, value):
+        def escape(match):
+            return '\\u%04x' % ord(match.group(0))
+
+        value = value.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+        return '"%s"' % cls.requires_double_quotes.sub(escape, value)
+
+    @classmethod
+    def _serialize_float(cls, value):
+        content = repr(value)
+        if content in ('inf', '-inf', 'nan'):
+            return content.replace('inf', '.inf').replace('nan', '.nan')
+        elif '.' not in content and 'e' in content:
+            return content.replace('e', '.0e')
+        else:
+            return content
+
+    @classmethod
+    def _serialize_key(cls, key):
+        if isinstance(key, string):
+            return cls._serialize_string(key, None)
+        else:
+            return cls._serialize_value(key, None)
+
     @classmethod
     def _serialize_sequence(cls, value, level):
         if not value:
@@ -108,7 +149,7 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, k)
+            key = '%s%s:' % (cls.indent * level, cls._serialize_key(k))
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
@@ -134,32 +175,33 @@ class Yaml(Format):
         elif length <= 5 and value.lower() in cls.requires_quotes:
             return "'%s'" % value
 
-        indent = cls.indent * level
+        if cls.requires_double_quotes.search(value):
+            return cls._serialize_escaped_string(value)
+
+        indent = cls.indent * (level or 0)
         if '\n' in value:
-            lines = ['|']
+            if not cls._is_block_text(value, level):
+                return cls._serialize_escaped_string(value)
+
+            lines = ['|-']
             for line in value.split('\n'):
                 if line:
                     lines.append(indent + line)
                 else:
                     lines.append('')
             return lines
-        elif length + len(indent) <= cls.line_width:
-            if cls._requires_escaping(value):
-                return "'%s'" % value.replace("'", "''")
-            else:
-                return value
-        else:
-            if cls._requires_escaping(value):
-                value = "'%s'" % value.replace("'", "''")
 
-            wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
-                subsequent_indent=indent, break_long_words=False,
-                replace_whitespace=False, drop_whitespace=False)
+        wrapped = level and length + len(indent) > cls.line_width and '  ' not in value
+        if cls._requires_escaping(value):
+            wrapped = wrapped and value.strip(' ') == value and '\t' not in value
+            value = "'%s'" % value.replace("'", "''")
+        if not wrapped:
+            return value
 
-            lines = []
-            for line in value.splitlines():
-                lines.extend(wrapper.wrap(line))
-            return lines
+        wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
+            subsequent_indent=indent, break_long_words=False, break_on_hyphens=False,
+            replace_whitespace=False)
+        return wrapper.wrap(value)
 
     @classmethod
     def _serialize_value(cls, value, level):
@@ -180,7 +222,9 @@ class Yaml(Format):
             return value.strftime('%Y-%m-%d %H:%M:%S')
         elif isinstance(value, date):
             return value.strftime('%Y-%m-%d')
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, float):
+            return cls._serialize_float(value)
+        elif isinstance(value, int):
             return str(value)
         else:
             raise ValueError(value)
-- 
2.43.0


From e80dea4f343438c4f61b487fd6cc234ada7a85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 019/101] fix: empty text survives XML

---
 scheme/formats/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..64b565a 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -79,7 +79,7 @@ class Xml(Format):
         if element.get('null', False):
             return attr, None
         elif field.type == 'boolean':
-            return attr, (element.text.lower() == 'true')
+            return attr, ((element.text or '').lower() == 'true')
         elif field.type == 'float':
             return attr, float(element.text)
         elif field.type == 'integer':
@@ -97,4 +97,4 @@ class Xml(Format):
         elif field.type == 'union':
             raise NotImplementedError()
         else:
-            return attr, element.text
+            return attr, element.text or ''
-- 
2.43.0


From 239be04ec5f9f9a5c57bc60ebe2a1bd62e59b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 020/101] fix: polymorphic structures and undeclared elements
 are handled by XML

---
 scheme/formats/xml.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 64b565a..a049d6d 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import xml.etree.cElementTree as etree
 
+from scheme.exceptions import StructuralError
 from scheme.field import Field
 from scheme.format import Format
 
@@ -38,6 +39,19 @@ class Xml(Format):
         attr, value = cls._unserialize_element(root, schema)
         return value
 
+    @classmethod
+    def _get_definition(cls, field, content):
+        polymorphic_on = field.polymorphic_on
+        if not polymorphic_on:
+            return field.structure
+
+        try:
+            identity = polymorphic_on.unserialize(content.get(polymorphic_on.name))
+        except StructuralError:
+            return {}
+        else:
+            return field.structure.get(identity, {})
+
     @classmethod
     def _serialize_content(cls, content, element, field):
         if content is None:
@@ -49,9 +63,10 @@ class Xml(Format):
                 element.text = 'false'
         elif field.type == 'structure':
             if content:
+                definition = cls._get_definition(field, content)
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
-                    cls._serialize_content(value, subelement, field.structure[key])
+                    cls._serialize_content(value, subelement, definition[key])
         elif field.type == 'map':
             if content:
                 for key, value in sorted(content.items()):
@@ -89,10 +104,17 @@ class Xml(Format):
         elif field.type == 'sequence':
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
         elif field.type == 'structure':
-            return attr, dict(cls._unserialize_element(v, field.structure[v.tag])
+            discriminator = {}
+            if field.polymorphic_on:
+                discriminator = dict(cls._unserialize_element(v, field.polymorphic_on)
+                    for v in element if v.tag == field.polymorphic_on.name)
+
+            definition = cls._get_definition(field, discriminator)
+            return attr, dict(cls._unserialize_element(v, definition.get(v.tag) or Field())
                 for v in element)
         elif field.type == 'tuple':
-            return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
+            values = field.values
+            return attr, tuple(cls._unserialize_element(v, values[i] if i < len(values) else Field())[1]
                 for i, v in enumerate(element))
         elif field.type == 'union':
             raise NotImplementedError()
-- 
2.43.0


From 1f746b7421ada244cdd5b0a0e2e35a16e59cca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 021/101] fix: polymorphic identities may be falsy values

---
 scheme/fields/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..dae702d 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -543,9 +543,8 @@ class Structure(Field):
         return default
 
     def _get_definition(self, value, getter=getitem):
-        identity = self._get_polymorphic_identity(value, getter)
-        if identity:
-            return self.structure[identity]
+        if self.polymorphic_on:
+            return self.structure[self._get_polymorphic_identity(value, getter)]
         else:
             return self.structure
 
-- 
2.43.0


From 09d37fd02e2a22ac18da2fa9c8cf2db7efe9ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 022/101] fix: polymorphic identities are matched before they
 are serialized

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index dae702d..7d1f6d2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -386,7 +386,7 @@ class Structure(Field):
                 raise ValidationError(identity=ancestry, field=self).construct('required',
                     name=polymorphic_on.name)
 
-            identity = polymorphic_on.process(identity, phase, serialized,
+            identity = polymorphic_on.process(identity, phase, (serialized and phase == INBOUND),
                 ancestry + ['.' + polymorphic_on.name])
 
             definition = self.structure.get(identity)
-- 
2.43.0


From 8d9111989ac794903b444549e4f682a3b3a65114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 023/101] fix: polymorphic structures can be transformed

---
 scheme/fields/structure.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7d1f6d2..6ca4b73 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -488,13 +488,14 @@ class Structure(Field):
         transformed = False
         candidates = {}
 
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
-                transformed = True
-            else:
-                candidates[name] = field
+        if self.polymorphic_on:
+            for identity, structure in self.structure.items():
+                candidates[identity] = self._transform_structure(structure, transformer)
+                if candidates[identity] is not structure:
+                    transformed = True
+        else:
+            candidates = self._transform_structure(self.structure, transformer)
+            transformed = candidates is not self.structure
 
         if transformed:
             return self.clone(structure=candidates)
@@ -571,6 +572,18 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            candidate = field.transform(transformer)
+            if candidate is not field:
+                transformed = True
+            candidates[name] = candidate
+
+        return candidates if transformed else structure
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From f6a7fc64b8a8665510efb4753f0a55ea77f5117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 024/101] fix: key_order neither drops nor requires keys, and
 works on polymorphic structures

---
 scheme/fields/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 6ca4b73..07ac46c 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -396,10 +396,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
-                key_order = self.key_order[identity]
-            else:
-                key_order = self.key_order
+            key_order = [name for name in self.key_order if name in definition]
+            key_order += [name for name in definition if name not in self.key_order]
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From c079585e96308dcb537f0dc8ebd7d21baff59d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 025/101] fix: an absent member which is still undefined is
 reported as undefined

---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 07ac46c..bde744e 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -409,6 +409,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
             elif field.required:
-- 
2.43.0


From e7d4ad6365c5cf34005c7f1565bcad587d72fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 026/101] fix: a null for a field ignoring nulls counts as an
 absent value

---
 scheme/fields/structure.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index bde744e..7711b78 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -404,9 +404,15 @@ class Structure(Field):
 
         for name in key_order:
             field = definition[name]
-            if name in names:
+            present = name in names
+            if present:
                 names.remove(name)
                 field_value = value[name]
+                if field_value is None and not isinstance(field, Undefined):
+                    present = not field.ignore_null
+
+            if present:
+                pass
             elif partial:
                 continue
             elif isinstance(field, Undefined):
@@ -422,11 +428,8 @@ class Structure(Field):
                 continue
 
             try:
-                if not (field.ignore_null and field_value is None):
-                   structure[name] = field.process(field_value, phase, serialized,
-                        ancestry + ['.' + name])
-                else:
-                    continue
+                structure[name] = field.process(field_value, phase, serialized,
+                    ancestry + ['.' + name])
             except StructuralError as exception:
                 valid = False
                 structure[name] = exception
-- 
2.43.0


From 630d1660bdb8be9eafd1e481c86eb3d4998b75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 027/101] fix: Union.interpolate does not fail on a misspelt
 name

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From ec72973cf1a18a70a435102668cae73a66565603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 028/101] fix: purely structural errors can be unserialized

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..c29abc2 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -128,7 +128,7 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        return cls(*(errors or ()), **{'structure': structure})
 
     def _format_errors(self, errors):
         field = self.field
-- 
2.43.0


From f2f1833db4e887bfd6dda3ffa497e5822af5a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 029/101] fix: unserialized errors serialize to what they came
 from, also after JSON

---
 scheme/exceptions.py   | 4 +++-
 scheme/fields/error.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index c29abc2..ac4a9f3 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -128,7 +128,9 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*(errors or ()), **{'structure': structure})
+        error = cls(*(errors or ()), **{'structure': structure})
+        error._serialized_errors = (errors, structure)
+        return error
 
     def _format_errors(self, errors):
         field = self.field
diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..842fa43 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -18,8 +18,12 @@ class Error(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, StructuralError):
             return value
-        elif isinstance(value, tuple) and len(value) == 2:
-            return StructuralError.unserialize(value)
+        elif isinstance(value, (list, tuple)) and len(value) == 2:
+            try:
+                return StructuralError.unserialize(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
-- 
2.43.0


From b5220ebcb561e106bbd01b854b5ed75d7e0927fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 030/101] fix: structures may contain themselves, and clones
 keep their undefined members

---
 scheme/field.py            | 3 +++
 scheme/fields/structure.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 76cde10..5d84a98 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -628,6 +628,9 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        return self
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7711b78..780b43d 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -506,11 +506,15 @@ class Structure(Field):
             return self
 
     def _define_undefined_field(self, field, name):
+        # a deep copy, as by clone(), would never end for a structure containing itself
         identity, name = name
+        candidate = object.__new__(type(field))
+        candidate.__dict__.update(field.__dict__, name=name)
+
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = candidate
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = candidate
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From ecd53cf80292e981b70552317d12668f413fd116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 031/101] fix: merging a structure does not stop at the first
 member already present

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 780b43d..d7d7683 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 7d14009e35a6690f85d7fd417b1fba94a2085932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 032/101] fix: filtering members of structures and maps
 respects the 'all' argument

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/structure.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..b24a831 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d7d7683..ec670e6 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -528,7 +528,7 @@ class Structure(Field):
         candidates = {}
 
         for name, field in structure.items():
-            candidate = field.filter(all, **params)
+            candidate = field.filter(exclusive, **params)
             if candidate:
                 candidates[name] = candidate
                 if candidate is not field:
-- 
2.43.0


From 17a9b1769cdc0b6a2ca6d622014d5021eef6074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 033/101] fix: filtering a structure drops its members also
 when none of them match

---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index ec670e6..c6b8320 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -233,14 +233,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
                     structure[identity] = substructure
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
-- 
2.43.0


From e6738c701df80894d9090d4d59b1ff638dde8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 034/101] fix: elements do not share mutable defaults

---
 scheme/element.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..a08d8fe 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from scheme.fields import *
 from scheme.util import with_metaclass
 
@@ -77,7 +79,10 @@ class Element(object):
             defaults = self.__attrs__
 
         for attr, default in defaults.items():
-            setattr(self, attr, params.get(attr, default))
+            if attr in params:
+                setattr(self, attr, params[attr])
+            else:
+                setattr(self, attr, deepcopy(default))
 
     def __repr__(self):
         aspects = []
-- 
2.43.0


From e2785542bf45752dbe3d91b8716d8258d1fa3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 035/101] fix: interpolation keeps a trailing newline

---
 scheme/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 522396a..8ac95d5 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -24,7 +24,8 @@ class Interpolator(object):
     def __init__(self, filters=None, globals=None):
         self.environment = jinja2.Environment(
             variable_start_string='${',
-            variable_end_string='}')
+            variable_end_string='}',
+            keep_trailing_newline=True)
 
         for filter in self.standard_filters:
             self.environment.filters[filter.__name__] = filter
-- 
2.43.0


From 172dffdb1b59af0ed5f635bcbfd8bbd12bf730fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 036/101] fix: reading CSV does not print its cells

---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..3bbe736 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From a8aeaf27d65f0625c2d48de89fdd9fa54c333671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 037/101] fix: line breaks within CSV cells survive

---
 scheme/formats/csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 3bbe736..dca020e 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,8 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        lines = [line + '\n' for line in value.strip('\r\n').split('\n')]
+        reader = Reader(lines, cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From e27b279006213ea411252660a609c3f81f2d61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 038/101] fix: reading a file does not translate line breaks

---
 scheme/format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..aec877e 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -1,3 +1,4 @@
+import io
 import os
 
 from scheme.util import with_metaclass
@@ -54,7 +55,7 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with open(path) as openfile:
+        with io.open(path, newline='') as openfile:
             return format.unserialize(openfile.read(), schema, **params)
 
     @classmethod
-- 
2.43.0


From ff1a4e8e0cc2929966ef16b528559a5ba4fb103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 039/101] fix: a file is not truncated when serializing its new
 content fails

---
 scheme/format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index aec877e..f80d90d 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -82,5 +82,6 @@ class Format(object):
             else:
                 raise ValueError(format)
 
+        content = format.serialize(value, schema, **params)
         with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+            openfile.write(content)
-- 
2.43.0


From bbfec26a09c5a5b1dd3cf51b806cd7b7f50c5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 040/101] fix: unsuitable subjects are refused by extraction
 and interpolation of tuples, unions and polymorphic structures

---
 scheme/fields/structure.py | 14 ++++++++++++--
 scheme/fields/tuple.py     |  4 ++++
 scheme/fields/union.py     |  5 ++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index c6b8320..45d529d 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -201,7 +201,12 @@ class Structure(Field):
         else:
             raise CannotExtractError('extraction candidate must be a dict value')
 
-        definition = self._get_definition(subject, getter)
+        try:
+            definition = self._get_definition(subject, getter)
+        except (AttributeError, KeyError, TypeError):
+            raise CannotExtractError('extraction candidate must specify a recognized'
+                ' polymorphic identity')
+
         extraction = {}
 
         for name, field in definition.items():
@@ -316,7 +321,12 @@ class Structure(Field):
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
 
-        definition = self._get_definition(subject)
+        try:
+            definition = self._get_definition(subject)
+        except (KeyError, TypeError):
+            raise CannotInterpolateError('interpolation candidate must specify a recognized'
+                ' polymorphic identity')
+
         interpolation = {}
 
         for name, field in definition.items():
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..21f3de1 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -80,6 +80,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate has too few values')
 
         extraction = []
         for i, definition in enumerate(self.values):
@@ -147,6 +149,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
+        if len(subject) < len(self.values):
+            raise CannotInterpolateError('interpolation candidate has too few values')
 
         interpolation = []
         for i, definition in enumerate(self.values):
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..a953551 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -58,7 +58,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From a8d693ad8f36fe079c83ac90bb740481185aa6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 041/101] fix: a failing preprocessor of a sequence, map or
 tuple makes the value invalid

---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index b24a831..7ebb2eb 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 92f9d32..adc4628 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 21f3de1..83ad422 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -173,7 +173,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From b2034d7452f4b140fc2956c72315ab4996255b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 042/101] fix: maps accept tuple keys

---
 scheme/fields/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 7ebb2eb..d4f2b79 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -200,14 +200,14 @@ class Map(Field):
         for name, subvalue in value.items():
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
                 except StructuralError as exception:
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 77713a64b4b067ffc326e74d9b3765bd53ce4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 043/101] fix: descriptions keep token segments, ignored
 values, key orders and empty or nested defaults

---
 scheme/field.py              | 9 +++++++++
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/map.py         | 4 ++--
 scheme/fields/sequence.py    | 4 ++--
 scheme/fields/structure.py   | 6 +++---
 scheme/fields/token.py       | 1 +
 scheme/fields/tuple.py       | 4 ++--
 7 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 5d84a98..4aeeb4d 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -558,6 +558,15 @@ class Field(object):
         else:
             return parameter
 
+    def _describe_default(self, value):
+        """Serializes ``value``, part of a container's default. The default of a reconstructed
+        container is serialized already."""
+
+        try:
+            return self.process(value, OUTBOUND, True)
+        except StructuralError:
+            return value
+
     def _describe_parameter(self, parameter):
         if isinstance(parameter, dict):
             return dict((k, self._describe_parameter(v)) for k, v in parameter.items())
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..325cb9b 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -9,7 +9,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index d4f2b79..a39d778 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -76,10 +76,10 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
-                default[key] = self.value.process(value, OUTBOUND, True)
+                default[key] = self.value._describe_default(value)
 
         params = {'value': self.value.describe(parameters, verbose), 'default': default}
         if self.key:
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index adc4628..ce14581 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -72,8 +72,8 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
-            default = [self.item.process(value, OUTBOUND, True) for value in self.default]
+        if self.default is not None:
+            default = [self.item._describe_default(value) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
             item=self.item.describe(parameters, verbose), default=default)
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 45d529d..cadf219 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -50,7 +50,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'strict': True, 'key_order': None}
     structural = True
 
     errors = [
@@ -159,10 +159,10 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                default[name] = default_structure[name]._describe_default(value)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ff9c97c..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 83ad422..8ca8a3b 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -56,10 +56,10 @@ class Tuple(Field):
             values.append(value.describe(parameters, verbose))
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = []
             for field, value in zip(self.values, self.default):
-                default.append(field.process(value, OUTBOUND, True))
+                default.append(field._describe_default(value))
             default = tuple(default)
 
         return super(Tuple, self).describe(parameters, verbose,
-- 
2.43.0


From 100b4443ce958d159ee42387b89cd04b9e787562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 044/101] fix: an enumeration refuses a value that is not its
 constant

---
 scheme/field.py              | 8 +++++---
 scheme/fields/enumeration.py | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 4aeeb4d..cb147e4 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -459,11 +459,10 @@ class Field(object):
             try:
                 value = self.preprocessor(value)
             except Exception:
-                raise InvalidTypeError(identity=ancestry, field=self,
-                    value=value).construct('invalid').capture()
+                raise self._construct_invalid(value, ancestry).capture()
 
         if self.constant is not None and value != self.constant:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+            raise self._construct_invalid(value, ancestry)
 
         candidate = self._validate_value(value, ancestry)
         if candidate is not None:
@@ -558,6 +557,9 @@ class Field(object):
         else:
             return parameter
 
+    def _construct_invalid(self, value, ancestry):
+        return InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+
     def _describe_default(self, value):
         """Serializes ``value``, part of a container's default. The default of a reconstructed
         container is serialized already."""
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 325cb9b..dd8806f 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -66,6 +66,10 @@ class Enumeration(Field):
         self.enumeration = list(set(baseline + enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
+    def _construct_invalid(self, value, ancestry):
+        return InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
+            values=self.representation)
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
         if ignored_values and value in ignored_values:
-- 
2.43.0


From 08012ae032504edf730abbc3dfb022aa6b6caf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 045/101] fix: a falsy constant is shown

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index cb147e4..8f14f00 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -220,7 +220,7 @@ class Field(object):
             aspects.append('name=%r' % self.name)
         if params:
             aspects.extend(params)
-        if self.constant:
+        if self.constant is not None:
             aspects.append('constant=True')
         if self.default is not None:
             aspects.append('default=%r' % self.default)
-- 
2.43.0


From 80b3ba045668d8cb7d3a3da61f383682360df3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 046/101] fix: processed defaults are not shared with the
 schema

---
 scheme/element.py          |  6 ++----
 scheme/fields/structure.py |  4 ++--
 scheme/util.py             | 11 +++++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index a08d8fe..2e6c127 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,7 +1,5 @@
-from copy import deepcopy
-
 from scheme.fields import *
-from scheme.util import with_metaclass
+from scheme.util import copy_default, with_metaclass
 
 __all__ = ('Element',)
 
@@ -82,7 +80,7 @@ class Element(object):
             if attr in params:
                 setattr(self, attr, params[attr])
             else:
-                setattr(self, attr, deepcopy(default))
+                setattr(self, attr, copy_default(default))
 
     def __repr__(self):
         aspects = []
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index cadf219..bc20b24 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import getitem, string
+from scheme.util import copy_default, getitem, string
 
 __all__ = ('Structure',)
 
@@ -428,7 +428,7 @@ class Structure(Field):
             elif isinstance(field, Undefined):
                 raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
-                field_value = field.default
+                field_value = copy_default(field.default)
             elif field.required:
                 valid = False
                 structure[name] = ValidationError(identity=ancestry, field=self).construct(
diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..dd9db95 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -1,5 +1,6 @@
 import re
 import sys
+from copy import deepcopy
 from inspect import getmodule
 from types import ModuleType
 
@@ -43,6 +44,16 @@ def getitem(obj, key, default=NODEFAULT):
     else:
         return obj[key]
 
+def copy_default(value):
+    """Copies a default which can be altered, so that none of its uses affects another."""
+
+    if isinstance(value, (dict, list, tuple)):
+        try:
+            return deepcopy(value)
+        except TypeError:
+            pass
+    return value
+
 def identify_object(obj, cache={}):
     if isinstance(obj, ModuleType):
         return obj.__name__
-- 
2.43.0


From 9811f370660e695082f70e16bfe5ed58bc0a0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 047/101] fix: a clone does not share its default with the
 original

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 8f14f00..27edfd2 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -256,7 +256,7 @@ class Field(object):
         a value that cannot be deep-copied are silently ignored."""
 
         if 'default' not in params:
-            params['default'] = self.default
+            params['default'] = copy_default(self.default)
 
         for key, value in self.__dict__.items():
             if key not in params:
-- 
2.43.0


From be0fb091fab0d28942feddf7eec48d7b074f2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 048/101] fix: reports show tuple values

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index ac4a9f3..4d8ebc7 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -146,7 +146,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From 20e16a01ec3b674c4f94f26c020df43e05c37db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 049/101] fix: every schema can be shown, with tuple defaults
 or key orders and mixed required keys

---
 scheme/field.py            | 2 +-
 scheme/fields/map.py       | 2 +-
 scheme/fields/structure.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 27edfd2..e4e1f2b 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -223,7 +223,7 @@ class Field(object):
         if self.constant is not None:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index a39d778..0cd33fb 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -70,7 +70,7 @@ class Map(Field):
 
         aspects.append('value=%r' % self.value)
         if self.required_keys:
-            aspects.append('required_keys=%r' % sorted(self.required_keys))
+            aspects.append('required_keys=%r' % sorted(self.required_keys, key=repr))
         
         return super(Map, self).__repr__(aspects)
 
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index bc20b24..7462bd1 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -119,7 +119,7 @@ class Structure(Field):
         if not self.strict:
             aspects.append('strict=False')
         if self.key_order:
-            aspects.append('key_order=%r' % self.key_order)
+            aspects.append('key_order=%r' % (self.key_order,))
         return super(Structure, self).__repr__(aspects)
 
     @property
-- 
2.43.0


From 2987a8b00b8c2084ccf9a0437ca918865e4f8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 050/101] fix: non-ASCII names give well-formed XML

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index a049d6d..847256c 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -24,7 +24,7 @@ class Xml(Format):
         element = etree.Element(schema.name or cls.default_root)
         cls._serialize_content(value, element, schema)
 
-        serialized = etree.tostring(element).decode('us-ascii')
+        serialized = etree.tostring(element, 'utf-8').decode('utf-8')
         if preamble:
             serialized = cls.preamble + serialized
 
-- 
2.43.0


From ae3e72c9aa7a98196c85011c434d2d4da709c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 051/101] fix: structured text unescapes brackets when parsing
 numbers

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index f065b2e..9548472 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -122,4 +122,4 @@ class StructuredText(Format):
         try:
             return int(value)
         except (TypeError, ValueError):
-            return value
+            return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
-- 
2.43.0


From 802f813af2dc6bb8bbd6883023c36ddb6fe27506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 052/101] fix: structured text parses numbers in scientific
 notation

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 9548472..56c2eb6 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -113,7 +113,7 @@ class StructuredText(Format):
         elif not parse_numbers:
             return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
 
-        if '.' in value:
+        if '.' in value or 'e' in value:
             try:
                 return float(value)
             except (TypeError, ValueError):
-- 
2.43.0


From 2f73cf4765dd154e9bd11fb283ad7602226be6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 053/101] fix: escaped brackets in structured text never open a
 structure

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 56c2eb6..d4ea522 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -10,7 +10,7 @@ class StructuredText(Format):
     name = 'structuredtext'
 
     STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
+        r'(?<!\\)(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\}|\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
     )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
-- 
2.43.0


From e01746cd94db42e8ff48b6d6a2ef4d83394e7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 054/101] fix: YAML keys keep leading non-ASCII spaces inside
 sequences

---
 scheme/formats/yaml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 6ab2eee..1abb51d 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -130,7 +130,7 @@ class Yaml(Format):
         for v in value:
             content = cls._serialize_value(v, level + 1)
             if isinstance(content, list):
-                lines.append('%s %s' % (prefix, content[0].lstrip()))
+                lines.append('%s %s' % (prefix, content[0].lstrip(' ')))
                 lines.extend(content[1:])
             else:
                 lines.append('%s %s' % (prefix, content))
@@ -153,7 +153,7 @@ class Yaml(Format):
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
-                    lines.append('%s %s' % (key, content[0].lstrip()))
+                    lines.append('%s %s' % (key, content[0].lstrip(' ')))
                     lines.extend(content[1:])
                 else:
                     lines.append('%s %s' % (key, content))
-- 
2.43.0


From c736517169de30906b8fca00118b52a1139883eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 055/101] fix: extended email addresses are matched in linear
 time

---
 scheme/fields/email.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 2e9d7db..b10015a 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -13,7 +13,7 @@ EMAIL_EXPR = (
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
 EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
 EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
-- 
2.43.0


From e2da00d33ae8556556fcd360864f4b8854a49e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 056/101] fix: malformed error reports are refused when
 unserialized

---
 scheme/exceptions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 4d8ebc7..47bb2d4 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -128,6 +128,11 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
+        if not (errors is None or isinstance(errors, (list, tuple))):
+            raise ValueError(value)
+        if not (structure is None or isinstance(structure, (dict, list, tuple))):
+            raise ValueError(value)
+
         error = cls(*(errors or ()), **{'structure': structure})
         error._serialized_errors = (errors, structure)
         return error
-- 
2.43.0


From 4410f54069e08f6055fb14c9c39c61bec6042387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 057/101] fix: generated defaults do not share the members'
 defaults

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7462bd1..6dfd445 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -556,7 +556,7 @@ class Structure(Field):
             if value is None:
                 value = field.constant
             if not sparse or value is not None:
-                default[name] = value
+                default[name] = copy_default(value)
 
         return default
 
-- 
2.43.0


From 5c97cf4c8675a8e1af020a47db710aad58b38a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 058/101] fix: keys of a map's default are described in
 serialized form

---
 scheme/field.py      | 3 ++-
 scheme/fields/map.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index e4e1f2b..28a487d 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -571,7 +571,8 @@ class Field(object):
 
     def _describe_parameter(self, parameter):
         if isinstance(parameter, dict):
-            return dict((k, self._describe_parameter(v)) for k, v in parameter.items())
+            return dict((self._describe_parameter(k), self._describe_parameter(v))
+                for k, v in parameter.items())
         elif isinstance(parameter, (list, tuple)):
             description = [self._describe_parameter(item) for item in parameter]
             if isinstance(parameter, list):
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 0cd33fb..6d80372 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -79,6 +79,8 @@ class Map(Field):
         if self.default is not None:
             default = {}
             for key, value in self.default.items():
+                if self.key:
+                    key = self.key._describe_default(key)
                 default[key] = self.value._describe_default(value)
 
         params = {'value': self.value.describe(parameters, verbose), 'default': default}
-- 
2.43.0


From 04037b5e73dc1d2843acca30cdb26026469c8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 059/101] fix: extend and replace do not rename the caller's
 fields

---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 6dfd445..b92640b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -176,7 +176,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if field.name != name:
-                field.name = name
+                field = field.clone(name=name)
             extension.structure[name] = field
 
         return extension
@@ -485,7 +485,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError(field)
             if field.name != name:
-                field.name = name
+                field = field.clone(name=name)
             if name in replacement.structure:
                 replacement.structure[name] = field
 
-- 
2.43.0


From 569db80e954af53740bef9176979500a96ab6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 060/101] fix: a text referring into an undefined parameter
 raises the undefined-parameter error

---
 scheme/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 8ac95d5..ed23894 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -56,7 +56,10 @@ class Interpolator(object):
 
     def interpolate(self, subject, parameters):
         template = self.environment.from_string(subject)
-        return template.render(parameters)
+        try:
+            return template.render(parameters)
+        except jinja2.UndefinedError:
+            raise UndefinedParameterError()
 
 def interpolate_parameters(subject, parameters, simple=False, interpolator=None):
     """Interpolates ``subject``, a template string, using ``parameters``. If ``subject`` is empty,
-- 
2.43.0


From 53f901cca1306baf5b4160bc3c5e2707929c7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 061/101] fix: elements with a falsy polymorphic identity are
 variants of their base

---
 scheme/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index 2e6c127..a6b15f8 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -6,7 +6,7 @@ __all__ = ('Element',)
 class ElementMeta(type):
     def __new__(metatype, name, bases, namespace):
         element = type.__new__(metatype, name, bases, namespace)
-        if element.polymorphic_identity:
+        if element.polymorphic_identity is not None:
             base = bases[0]
             if getattr(base, '__polymorphic_on__', None):
                 base.__polymorphic_impl__[element.polymorphic_identity] = element
-- 
2.43.0


From 0fb23b8b6251342903c9b265fb590b84f691f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 062/101] fix: placeholders within the definition of a
 structure's placeholder can be defined later

---
 scheme/field.py            | 5 +++++
 scheme/fields/structure.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 28a487d..72f35e9 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -650,3 +650,8 @@ class Undefined(object):
 
     def register(self, callback, *args):
         self.callbacks.append((callback, args))
+
+    def register_copy(self, field, copy):
+        for callback, args in list(self.callbacks):
+            if callback.__self__ is field:
+                self.register(getattr(copy, callback.__name__), *args)
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b92640b..da68361 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -521,6 +521,11 @@ class Structure(Field):
         candidate = object.__new__(type(field))
         candidate.__dict__.update(field.__dict__, name=name)
 
+        for value in field.__dict__.values():
+            for placeholder in (value if isinstance(value, tuple) else (value,)):
+                if isinstance(placeholder, Undefined):
+                    placeholder.register_copy(field, candidate)
+
         if self.polymorphic_on:
             self.structure[identity][name] = candidate
         else:
-- 
2.43.0


From 6c59b4f8de876fb1e027137f8d3502c695c99df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 063/101] fix: recursive schemas, and the reports which mention
 them, can be shown

---
 scheme/fields/map.py       |  3 ++-
 scheme/fields/sequence.py  |  3 ++-
 scheme/fields/structure.py |  3 ++-
 scheme/fields/tuple.py     |  3 ++-
 scheme/fields/union.py     |  3 ++-
 scheme/util.py             | 22 ++++++++++++++++++++++
 6 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 6d80372..b26d925 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Map',)
 
@@ -63,6 +63,7 @@ class Map(Field):
         self.required_keys = required_keys
         self.value = value
 
+    @recursive_repr
     def __repr__(self):
         aspects = []
         if self.key:
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index ce14581..ce2baf2 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import pluralize, string
+from scheme.util import pluralize, recursive_repr, string
 
 __all__ = ('Sequence',)
 
@@ -60,6 +60,7 @@ class Sequence(Field):
         self.min_length = min_length
         self.unique = unique
 
+    @recursive_repr
     def __repr__(self):
         aspects = ['item=%r' % self.item]
         if self.min_length is not None:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index da68361..5e93c5f 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import copy_default, getitem, string
+from scheme.util import copy_default, getitem, recursive_repr, string
 
 __all__ = ('Structure',)
 
@@ -112,6 +112,7 @@ class Structure(Field):
             else:
                 raise ValueError('generate_default must be boolean')
 
+    @recursive_repr
     def __repr__(self):
         aspects = ['structure=%r' % self.structure]
         if self.polymorphic_on:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 8ca8a3b..d129caa 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Tuple',)
 
@@ -47,6 +47,7 @@ class Tuple(Field):
 
         self.values = tuple(stack)
 
+    @recursive_repr
     def __repr__(self):
         return super(Tuple, self).__repr__(['values=%r' % (self.values,)])
 
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index a953551..e5a0a70 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 class Union(Field):
     """A field composed of a union of two or more other fields, which attempts to process values
@@ -41,6 +41,7 @@ class Union(Field):
 
         self.fields = tuple(stack)
 
+    @recursive_repr
     def __repr__(self):
         return super(Union, self).__repr__(['fields=%r' % (self.fields,)])
 
diff --git a/scheme/util.py b/scheme/util.py
index dd9db95..4bea6e3 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -4,6 +4,11 @@ from copy import deepcopy
 from inspect import getmodule
 from types import ModuleType
 
+try:
+    from threading import get_ident
+except ImportError:
+    from thread import get_ident
+
 try:
     integers = (int, long)
 except NameError:
@@ -159,6 +164,23 @@ def recursive_merge(original, addition):
         original[key] = value
     return original
 
+def recursive_repr(method):
+    """Decorates a ``__repr__`` method, so that an object which contains itself can be shown."""
+
+    running = set()
+    def wrapper(self):
+        key = (id(self), get_ident())
+        if key in running:
+            return '%s(...)' % type(self).__name__
+
+        running.add(key)
+        try:
+            return method(self)
+        finally:
+            running.discard(key)
+
+    return wrapper
+
 class StructureFormatter(object):
     def __init__(self, abbreviate=False, masks=None, indent=4):
         self.abbreviate = abbreviate
-- 
2.43.0


From f368eab9f3f820122da401e5d826f9bc8766c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 064/101] fix: a surrogate which is already one is not read
 again as a mapping

---
 scheme/fields/surrogate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 94bd1b0..9b605b3 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -50,7 +50,9 @@ class Surrogate(Field):
         return value.serialize()
 
     def _unserialize_value(self, value, ancestry):
-        if isinstance(value, dict):
+        if isinstance(value, surrogate):
+            return value
+        elif isinstance(value, dict):
             try:
                 return surrogate.unserialize(value, ancestry)
             except (StructuralError, UndefinedFieldError):
@@ -58,8 +60,6 @@ class Surrogate(Field):
             except Exception:
                 raise InvalidTypeError(identity=ancestry, field=self,
                     value=value).construct('invalid').capture()
-        elif isinstance(value, surrogate):
-            return value
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
-- 
2.43.0


From 4e06f4ea2146c53a42938d4bf46541ed9f227303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 065/101] fix: objects are identified by paths which lead to
 them

---
 scheme/util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 4bea6e3..11bf56c 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -65,12 +65,14 @@ def identify_object(obj, cache={}):
     elif isinstance(obj, object) and isinstance(obj, type):
         if obj.__module__ == '__main__':
             return obj.__name__
-        return '%s.%s' % (obj.__module__, obj.__name__)
+        name = getattr(obj, '__qualname__', obj.__name__)
+        if '<locals>' in name:
+            name = obj.__name__
+        return '%s.%s' % (obj.__module__, name)
 
-    try:
-        return cache[obj]
-    except KeyError:
-        pass
+    # objects which are equal are nevertheless distinct objects with identities of their own
+    if id(obj) in cache:
+        return cache[id(obj)][1]
 
     module = getmodule(obj)
     if not module:
@@ -78,7 +80,8 @@ def identify_object(obj, cache={}):
 
     for attr, value in module.__dict__.items():
         if value is obj:
-            identity = cache[obj] = '%s.%s' % (module.__name__, attr)
+            identity = '%s.%s' % (module.__name__, attr)
+            cache[id(obj)] = (obj, identity)
             return identity
     else:
         raise TypeError(obj)
-- 
2.43.0


From 0f7cfe6b5fd226cb4f06660d4e1094cb623000b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 066/101] fix: strings can be abbreviated

---
 scheme/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 11bf56c..38649c9 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -31,14 +31,14 @@ def abbreviate_string(value, maxlength=0):
     if len(value) <= maxlength:
         return value
 
-    half = (maxlength - 3) / 2
+    half = (maxlength - 3) // 2
 
     left = value[:half]
-    while not left[-1].isalnum():
+    while left and not left[-1].isalnum():
         left = left[:-1]
 
-    right = value[-half:]
-    while not right[0].isalnum():
+    right = value[len(value) - half:]
+    while right and not right[0].isalnum():
         right = right[1:]
 
     return '%s...%s' % (left, right)
-- 
2.43.0


From c3d77820906f7b2b874561e66c80f18c7221e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 067/101] fix: tuples of one item are formatted as tuples

---
 scheme/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 38649c9..2b33a93 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -235,7 +235,10 @@ class StructureFormatter(object):
                 lines.append('%s%s,' % (inner_indent, description))
 
         if single_line:
-            single_line = tokens[0] + ', '.join(l.strip().rstrip(',') for l in lines) + tokens[1]
+            single_line = ', '.join(l.strip().rstrip(',') for l in lines)
+            if tokens == '()' and len(lines) == 1:
+                single_line += ','
+            single_line = tokens[0] + single_line + tokens[1]
             if len(single_line) <= 60:
                 return single_line
 
-- 
2.43.0


From 22481db15faf8fbfe0c30c53ed7fda97e5555b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 068/101] fix: local times have the offset which applied at
 their time

---
 scheme/timezone.py | 54 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..74f2097 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -1,3 +1,4 @@
+from calendar import timegm
 from datetime import datetime, timedelta, tzinfo
 import time
 
@@ -51,6 +52,18 @@ class LocalTimezone(tzinfo):
     def __repr__(self):
         return 'LocalTimezone()'
 
+    def fromutc(self, value):
+        timestamp = timegm(value.replace(tzinfo=None).timetuple())
+        local = datetime(*time.localtime(timestamp)[:6])
+        local = local.replace(microsecond=value.microsecond, tzinfo=self)
+
+        if self._timestamp(local) != timestamp:
+            try:
+                local = local.replace(fold=1)
+            except TypeError:
+                pass
+        return local
+
     def dst(self, value):
         if self._isdst(value):
             return DST_DIFF
@@ -61,15 +74,40 @@ class LocalTimezone(tzinfo):
         return time.tzname[self._isdst(value)]
 
     def utcoffset(self, value):
-        if self._isdst(value):
-            return DST_OFFSET
+        local = timegm(value.replace(tzinfo=None).timetuple())
+        return timedelta(seconds=local - self._timestamp(value))
+
+    def _isdst(self, value):
+        return (time.localtime(self._timestamp(value)).tm_isdst > 0)
+
+    def _timestamp(self, value):
+        """Returns the timestamp of a local time, using the offset which applied at that time;
+        of the two timestamps of a repeated local time, ``fold`` selects one."""
+
+        local = timegm(value.replace(tzinfo=None).timetuple())
+
+        candidates = []
+        for nearby in (local - 86400, local + 86400):
+            try:
+                offset = timegm(time.localtime(nearby)) - nearby
+            except (OverflowError, ValueError):
+                continue
+            candidates.append(local - offset)
+
+        matches = []
+        for timestamp in candidates:
+            try:
+                if timegm(time.localtime(timestamp)) == local:
+                    matches.append(timestamp)
+            except (OverflowError, ValueError):
+                continue
+
+        if not matches:
+            return candidates[0]
+        elif getattr(value, 'fold', 0):
+            return max(matches)
         else:
-            return STD_OFFSET
-
-    def _isdst(self, v):
-        timestamp = time.mktime((v.year, v.month, v.day, v.hour, v.minute,
-            v.second, v.weekday(), 0, -1))
-        return (time.localtime(timestamp).tm_isdst > 0)
+            return min(matches)
 
 LOCAL = LocalTimezone()
 UTC = FixedOffsetTimezone(0, 'UTC')
-- 
2.43.0


From 75b29fb5ec414c01bcc088cbed3f4f6b33cca241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 069/101] fix: datetimes are compared with bounds as instants,
 also when local times repeat

---
 scheme/fields/datetime.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 804318b..ebed4ff 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -68,6 +68,10 @@ class DateTime(Field):
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
+    def _instant(self, value):
+        # values in the same timezone would be compared by their local times, which can repeat
+        return (value.replace(tzinfo=None) - datetime.min) - value.utcoffset()
+
     def _normalize_value(self, value):
         timezone = self.timezone
         if value.tzinfo is not None:
@@ -103,12 +107,12 @@ class DateTime(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and self._instant(value) < self._instant(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum.strftime(self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and self._instant(value) > self._instant(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum.strftime(self.pattern))
 
-- 
2.43.0


From 4a6994a170c86c569839ad0a56b863f24445648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 070/101] fix: reports show the bounds of datetimes in UTC, as
 their notation says

---
 scheme/fields/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index ebed4ff..2c04863 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -109,11 +109,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and self._instant(value) < self._instant(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and self._instant(value) > self._instant(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
 
         return value
-- 
2.43.0


From 7dab30384152feba30cc8018efc6e395a721014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 071/101] fix: fields given the same aspects do not share them

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 72f35e9..ec006d0 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -187,7 +187,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects) if aspects else {}
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From aed77fb8ab6a8ed1afc14a099300fb0a541d9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 072/101] fix: patterns of texts which are no regular
 expressions are refused

---
 scheme/fields/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/text.py b/scheme/fields/text.py
index d15fb99..5ba1726 100644
--- a/scheme/fields/text.py
+++ b/scheme/fields/text.py
@@ -34,6 +34,9 @@ class Text(Field):
         super(Text, self).__init__(**params)
         if isinstance(pattern, string):
             pattern = re.compile(pattern)
+        if not (pattern is None or hasattr(pattern, 'match')):
+            raise TypeError("argument 'pattern' must be either None, a string containing a regular"
+                " expression, or a compiled regular expression")
 
         if not (min_length is None or (isinstance(min_length, int) and min_length >= 0)):
             raise TypeError("argument 'min_length' must be either None or an integer >= 0")
-- 
2.43.0


From 4f967fa130edc11e48505557c7d5239b746ecf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 073/101] fix: blank rows of csv documents are skipped

---
 scheme/formats/csv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index dca020e..120b994 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -110,6 +110,9 @@ class Csv(Format):
 
         content = []
         for row in reader:
+            if not row:
+                continue
+
             candidate = {}
             for i, column, converter in cells:
                 value = row[i]
-- 
2.43.0


From 9d4cf645f43c2dc02b35bcc19380b3a164009b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 074/101] fix: rows of csv documents shorter than the header
 are refused with a value error

---
 scheme/formats/csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 120b994..0b8ec0e 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -112,6 +112,8 @@ class Csv(Format):
         for row in reader:
             if not row:
                 continue
+            elif len(row) < len(columns):
+                raise ValueError(row)
 
             candidate = {}
             for i, column, converter in cells:
-- 
2.43.0


From a2c753f3fc903d8e824b0f542a9ed4c15fcbf437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 075/101] fix: yaml documents name no python objects, and are
 read without a warning

---
 scheme/formats/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 1abb51d..ec53345 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -42,7 +42,7 @@ class Yaml(Format):
 
     @classmethod
     def unserialize(cls, value, schema=None):
-        return yaml.load(value)
+        return yaml.safe_load(value)
 
     @classmethod
     def _is_literal_text(cls, value):
-- 
2.43.0


From c2b3ae72dfc3221378c9c910b2b63a8e9f7c2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:07 +0000
Subject: [PATCH 076/101] fix: empty numbers of xml documents are refused with
 a value error

---
 scheme/formats/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 847256c..8badd40 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -96,9 +96,9 @@ class Xml(Format):
         elif field.type == 'boolean':
             return attr, ((element.text or '').lower() == 'true')
         elif field.type == 'float':
-            return attr, float(element.text)
+            return attr, float(element.text or '')
         elif field.type == 'integer':
-            return attr, int(element.text)
+            return attr, int(element.text or '')
         elif field.type == 'map':
             return attr, dict(cls._unserialize_element(v, field.value) for v in element)
         elif field.type == 'sequence':
-- 
2.43.0


From 3964642418677dc537c276d9bb9edece6fc2150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 077/101] fix: errors of tokens the field does not declare can
 be shown

---
 scheme/exceptions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 47bb2d4..40e2b8b 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,13 +144,17 @@ class StructuralError(SchemeError):
 
         identity = ''.join(self.identity)
         for error in self.errors:
-            definition = field.errors[error['token']]
-            lines = ['%s error at %s: %s' % (error['title'].capitalize(), identity,
-                error['message'])]
+            if not isinstance(error, dict):
+                error = {'message': error}
 
-            if definition.show_field:
+            title = error.get('title') or 'validation'
+            lines = ['%s error at %s: %s' % (title.capitalize(), identity,
+                error.get('message', ''))]
+
+            definition = field.errors.get(error.get('token'))
+            if definition and definition.show_field:
                 lines.append('Field: %r' % field)
-            if definition.show_value and self.value is not None:
+            if definition and definition.show_value and self.value is not None:
                 lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
-- 
2.43.0


From 52a878c447361473515812bf6e9d9121f3f24ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 078/101] fix: the value of an invalid integer is shown

---
 scheme/fields/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..9465781 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -45,7 +45,7 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return int(value)
-- 
2.43.0


From c0ad4867726eeca12362fb43ac5b92b047c9aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:56 +0000
Subject: [PATCH 079/101] fix: unions can be documented

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index d74d412..be65a5d 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -196,7 +196,7 @@ class DocumentationGenerator(object):
     def _describe_union(self, field, block, role):
         fields = field.get('fields')
         if fields:
-            for i, subfield in enumerat,e(fields):
+            for i, subfield in enumerate(fields):
                 block.append(self._document_field('', subfield, role))
 
     def _document_field(self, name, field, role=None, sectional=False, key=None):
-- 
2.43.0


From 852be63dfc7e42f1afaf15d7bac96813b5130c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 080/101] fix: the maximum of a decimal is documented as such

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index be65a5d..6973914 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -92,7 +92,7 @@ class DocumentationGenerator(object):
         if field.get('minimum') is not None:
             constraints.append('min=%r' % field['minimum'])
         if field.get('maximum') is not None:
-            constraints.append('min=%r' % field['maximum'])
+            constraints.append('max=%r' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
 
-- 
2.43.0


From 10a7e7d77424b72c3088d6767b3b4ad6e0ca813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 081/101] fix: enumerations of values other than text can be
 documented

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 6973914..8b54999 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -98,7 +98,7 @@ class DocumentationGenerator(object):
 
     def _describe_enumeration(self, field, block, role):
         if field.get('constant') is None:
-            block.set('values', ' '.join(sorted(field['enumeration'])))
+            block.set('values', ' '.join(sorted(str(value) for value in field['enumeration'])))
 
     def _describe_float(self, field, block, role):
         constraints = []
-- 
2.43.0


From df28c635075b76daa7541a714ed21102b6bb8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 082/101] fix: the bounds of dates and times, which
 descriptions give as text, are documented

---
 scheme/doc/generator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 8b54999..3a4f30a 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -1,6 +1,5 @@
 import os
 import textwrap
-from datetime import date, datetime, time
 
 from scheme import *
 from scheme.util import numbers, string
@@ -69,18 +68,18 @@ class DocumentationGenerator(object):
 
     def _describe_date(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), date):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), date):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
 
     def _describe_datetime(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), datetime):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), datetime):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if field.get('utc', False):
             constraints.append('utc=True')
@@ -180,9 +179,9 @@ class DocumentationGenerator(object):
 
     def _describe_time(self, field, block, role):
         constraints = []
-        if isinstance(field.get('minimum'), time):
+        if field.get('minimum') is not None:
             constraints.append('min=%s' % field['minimum'])
-        if isinstance(field.get('maximum'), time):
+        if field.get('maximum') is not None:
             constraints.append('max=%s' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
-- 
2.43.0


From b73cd25532fa67ccb5fd4479d1eef27679ee4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 083/101] fix: structures can be documented

---
 scheme/doc/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 3a4f30a..051bf59 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -66,6 +66,9 @@ class DocumentationGenerator(object):
         'required': ['schema'],
     }
 
+    def _collate_fields(self, fields, ignored=()):
+        return sorted((name, field) for name, field in fields.items() if name not in ignored)
+
     def _describe_date(self, field, block, role):
         constraints = []
         if field.get('minimum') is not None:
@@ -157,7 +160,7 @@ class DocumentationGenerator(object):
                 for value, substructure in sorted(structure.items()):
                     subblock = directive('field', '%s=%r' % (field_name, value))
                     subblock.set('polymorphic_discriminator', '')
-                    for name, subfield in self._collate_fields(substructure, ('type',)):
+                    for name, subfield in self._collate_fields(substructure, (field_name,)):
                         subblock.append(self._document_field(name, subfield, role))
                     block.append(subblock)
             else:
-- 
2.43.0


From a3b5c751703b5aff04c4c44b07d21196458e777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 084/101] fix: identities and required keys of several types
 can be documented

---
 scheme/doc/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 051bf59..8554f8e 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -6,6 +6,9 @@ from scheme.util import numbers, string
 
 __all__ = ('DocumentationGenerator', 'directive')
 
+def mixed_order(value):
+    return (type(value).__name__, value)
+
 class directive(object):
     def __init__(self, directive, *args):
         self.args = list(args)
@@ -122,7 +125,7 @@ class DocumentationGenerator(object):
 
     def _describe_map(self, field, block, role):
         if field.get('required_keys'):
-            block.set('required_keys', repr(sorted(field['required_keys'])))
+            block.set('required_keys', repr(sorted(field['required_keys'], key=mixed_order)))
 
         key = field.get('key')
         if key:
@@ -157,7 +160,7 @@ class DocumentationGenerator(object):
             if polymorphic_on:
                 block.set('polymorphic', '')
                 field_name = polymorphic_on['name']
-                for value, substructure in sorted(structure.items()):
+                for value, substructure in sorted(structure.items(), key=lambda item: mixed_order(item[0])):
                     subblock = directive('field', '%s=%r' % (field_name, value))
                     subblock.set('polymorphic_discriminator', '')
                     for name, subfield in self._collate_fields(substructure, (field_name,)):
-- 
2.43.0


From ecbc9ea3d54ba7a317b6ad014db77013471df50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 085/101] fix: write dates and datetimes in YAML without losing
 padding, microseconds and time zone

---
 scheme/formats/yaml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index ec53345..86f9ebb 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -219,9 +219,9 @@ class Yaml(Format):
             else:
                 return 'false'
         elif isinstance(value, datetime):
-            return value.strftime('%Y-%m-%d %H:%M:%S')
+            return value.isoformat(' ')
         elif isinstance(value, date):
-            return value.strftime('%Y-%m-%d')
+            return value.isoformat()
         elif isinstance(value, float):
             return cls._serialize_float(value)
         elif isinstance(value, int):
-- 
2.43.0


From 31c1a76f09cd0353a629e4875a1dca4aeeaacbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:15 +0000
Subject: [PATCH 086/101] fix: name timezones at negative and odd offsets by
 their offset

---
 scheme/timezone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 74f2097..226d10e 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -36,14 +36,14 @@ class FixedOffsetTimezone(tzinfo):
         if self.name is not None:
             return self.name
 
-        seconds = self.offset.seconds + (self.offset.days * 86400)
-        hours, seconds = divmod(seconds, 3600)
+        minutes = self.offset.days * 1440 + self.offset.seconds // 60
+        sign = '-' if minutes < 0 else '+'
 
-        minutes = seconds / 60
+        hours, minutes = divmod(abs(minutes), 60)
         if minutes:
-            return '%+03d:%d' % (hours, minutes)
+            return '%s%02d:%02d' % (sign, hours, minutes)
         else:
-            return '%+03d' % hours
+            return '%s%02d' % (sign, hours)
 
     def utcoffset(self, value=None):
         return self.offset
-- 
2.43.0


From d11a8a2153e910b01a2daf1fd427817926a3690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:16 +0000
Subject: [PATCH 087/101] fix: refuse surrogate versions below one, which
 selected the latest schemas

---
 scheme/surrogate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..2524229 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -72,7 +72,7 @@ class surrogate(dict):
             if version is None:
                 version = len(impl.schemas)
             try:
-                effective_schema = impl.schemas[version - 1]
+                effective_schema = impl._get_schema(version)
             except IndexError:
                 raise Exception('invalid surrogate version')
 
@@ -157,6 +157,13 @@ class surrogate(dict):
         cls.cache[token] = impl
         return impl
 
+    @classmethod
+    def _get_schema(cls, version):
+        if version < 1:
+            raise IndexError(version)
+
+        return cls.schemas[version - 1]
+
     @classmethod
     def _interpolate_dynamic_surrogate(cls, value, parameters, interpolator):
         schema = scheme.Field.reconstruct(deepcopy(value.pop('__schema__')))
@@ -174,7 +181,7 @@ class surrogate(dict):
             version = len(cls.schemas)
 
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
@@ -199,7 +206,7 @@ class surrogate(dict):
     def _unserialize_versioned_surrogate(cls, value, ancestry=None):
         version = value.pop('__version__', 1)
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
-- 
2.43.0


From eefa885536cb66f5937ffd007d5eb4097333b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:36 +0000
Subject: [PATCH 088/101] fix: encode a file's content before opening the file,
 and as UTF-8 in every locale

---
 scheme/format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheme/format.py b/scheme/format.py
index f80d90d..9fad6f4 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -55,7 +55,7 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with io.open(path, newline='') as openfile:
+        with io.open(path, encoding='utf-8', newline='') as openfile:
             return format.unserialize(openfile.read(), schema, **params)
 
     @classmethod
@@ -83,5 +83,7 @@ class Format(object):
                 raise ValueError(format)
 
         content = format.serialize(value, schema, **params)
-        with open(path, 'w+') as openfile:
+        if not isinstance(content, bytes):
+            content = content.encode('utf-8')
+        with open(path, 'wb') as openfile:
             openfile.write(content)
-- 
2.43.0


From ac79e39e16352c7b0225d4df645fc6792e459eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 089/101] fix: report errors of serialized surrogates at their
 place

---
 scheme/fields/surrogate.py | 12 ++++++++++--
 scheme/surrogate.py        |  6 +++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 9b605b3..6e405b6 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -46,8 +46,16 @@ class Surrogate(Field):
         else:
             raise ValueError(subject)
 
-    def _serialize_value(self, value):
-        return value.serialize()
+    def process(self, value, phase=INBOUND, serialized=False, ancestry=None):
+        if not ancestry:
+            ancestry = [self.guaranteed_name]
+        if not serialized or phase == INBOUND:
+            return super(Surrogate, self).process(value, phase, serialized, ancestry)
+
+        value = super(Surrogate, self).process(value, phase, False, ancestry)
+        if value is not None:
+            value = value.serialize(ancestry)
+        return value
 
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, surrogate):
diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index 2524229..333d93a 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -111,15 +111,15 @@ class surrogate(dict):
         else:
             raise ValueError(value)
 
-    def serialize(self):
+    def serialize(self, ancestry=None):
         """Serializes this surrogate."""
 
         value = dict(self)
         if self.schema:
-            value = self.schema.serialize(value)
+            value = self.schema.serialize(value, ancestry=ancestry)
             value['__schema__'] = self.schema.describe()
         elif self.schemas:
-            value = self.schemas[self.version - 1].serialize(value)
+            value = self.schemas[self.version - 1].serialize(value, ancestry=ancestry)
             if self.version > 1:
                 value['__version__'] = self.version
 
-- 
2.43.0


From 8d5c0dd5084a458e1754fdb3db59d40263d7ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 090/101] fix: read back structured text which spells the mark
 of a structure

---
 scheme/formats/structuredtext.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index d4ea522..18b0420 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -88,8 +88,13 @@ class StructuredText(Format):
         expr = cls.STRUCTURE_EXPR
         structures = {}
 
+        # the tokens standing for nested structures must not occur within the text itself
+        prefix = 0
+        while '|%d|' % prefix in text:
+            prefix += 1
+
         def replace(match):
-            token = '||%d||' % len(structures)
+            token = '|%d|%d|' % (prefix, len(structures))
             structures[token] = cls._unserialize_structure(match.group(0),
                 structures, parse_numbers)
             return token
-- 
2.43.0


From eea041bc46b046371f3016b220334c42d4dc9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:12 +0000
Subject: [PATCH 091/101] fix: report objects which cannot be identified at
 their place

---
 scheme/fields/object.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/object.py b/scheme/fields/object.py
index 8bf153d..474de78 100644
--- a/scheme/fields/object.py
+++ b/scheme/fields/object.py
@@ -14,14 +14,26 @@ class Object(Field):
         FieldError('import', 'object import', 'cannot import %(value)r'),
     ]
 
-    def _serialize_value(self, value):
+    def process(self, value, phase=INBOUND, serialized=False, ancestry=None):
+        if not ancestry:
+            ancestry = [self.guaranteed_name]
+        if not serialized or phase == INBOUND:
+            return super(Object, self).process(value, phase, serialized, ancestry)
+
+        value = super(Object, self).process(value, phase, False, ancestry)
+        if value is not None:
+            value = self._serialize_value(value, ancestry)
+        return value
+
+    def _serialize_value(self, value, ancestry=None):
         if isinstance(value, string):
             return value
 
         try:
             return identify_object(value)
         except TypeError:
-            raise InvalidTypeError(field=self, value=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry or [self.guaranteed_name], field=self,
+                value=value).construct('invalid')
 
     def _unserialize_value(self, value, ancestry):
         if not isinstance(value, string):
-- 
2.43.0


From b9aa1507cc77ff2016ff148577014b9ad42f123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:17 +0000
Subject: [PATCH 092/101] fix: print fixed offsets as they are constructed

---
 scheme/timezone.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 226d10e..2a77185 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -27,7 +27,7 @@ class FixedOffsetTimezone(tzinfo):
     def __repr__(self):
         if self.name:
             return self.name
-        return 'FixedOffsetTimezone(%r)' % self.offset.seconds
+        return 'FixedOffsetTimezone(%r)' % self._minutes
 
     def dst(self, value):
         return ZERO
@@ -36,7 +36,7 @@ class FixedOffsetTimezone(tzinfo):
         if self.name is not None:
             return self.name
 
-        minutes = self.offset.days * 1440 + self.offset.seconds // 60
+        minutes = self._minutes
         sign = '-' if minutes < 0 else '+'
 
         hours, minutes = divmod(abs(minutes), 60)
@@ -48,6 +48,10 @@ class FixedOffsetTimezone(tzinfo):
     def utcoffset(self, value=None):
         return self.offset
 
+    @property
+    def _minutes(self):
+        return self.offset.days * 1440 + self.offset.seconds // 60
+
 class LocalTimezone(tzinfo):
     def __repr__(self):
         return 'LocalTimezone()'
-- 
2.43.0


From 590aff89c74d58845ee965ccdcc519b16ede0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 093/101] fix: reconstruct the identities of polymorphic
 structures

Descriptions hold the identities in serialized form (dates, decimals, and
through JSON integers as well), but reconstruction kept that form, so the
reconstructed structure recognized no identity at all.
---
 scheme/fields/structure.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5e93c5f..a912495 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -142,13 +142,26 @@ class Structure(Field):
 
         return (self.polymorphic_on is not None)
 
+    @classmethod
+    def construct(cls, **specification):
+        params = cls._construct_parameter(specification)
+        polymorphic_on = params.get('polymorphic_on')
+        structure = params.get('structure')
+        if isinstance(polymorphic_on, Field) and isinstance(structure, dict):
+            params['structure'] = dict((cls._unserialize_identity(polymorphic_on, identity), candidate)
+                for identity, candidate in structure.items())
+        return cls(**params)
+
     def describe(self, parameters=None, verbose=False):
         default_structure = self.structure
         
         polymorphic_on = self.polymorphic_on
         if polymorphic_on:
             if self.default:
-                default_structure = self.structure[self.default[polymorphic_on.name]]
+                identity = self.default[polymorphic_on.name]
+                if identity not in self.structure:
+                    identity = self._unserialize_identity(polymorphic_on, identity)
+                default_structure = self.structure[identity]
 
             structure = {}
             for identity, candidate in self.structure.items():
@@ -607,6 +620,15 @@ class Structure(Field):
 
         return candidates if transformed else structure
 
+    @classmethod
+    def _unserialize_identity(cls, polymorphic_on, identity):
+        """Converts ``identity``, which a description has in serialized form, to its native form."""
+
+        try:
+            return polymorphic_on._unserialize_value(identity, [polymorphic_on.guaranteed_name])
+        except StructuralError:
+            return identity
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From afabf51d4785a051a1f29e9a67a3596e2120f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:28 +0000
Subject: [PATCH 094/101] fix: reconstruct structures with a member or variant
 named fieldtype

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index ec006d0..bcd5e41 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -544,7 +544,7 @@ class Field(object):
     @classmethod
     def _construct_parameter(cls, parameter):
         if isinstance(parameter, dict):
-            if 'fieldtype' in parameter:
+            if isinstance(parameter.get('fieldtype'), string):
                 return Field.reconstruct(parameter)
             else:
                 return dict((k, cls._construct_parameter(v)) for k, v in parameter.items())
-- 
2.43.0


From 20ce88548916c2946e30c44f1ea1cea9956c589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 095/101] fix: format structures whose keys are of several
 types

---
 scheme/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 2b33a93..90c6803 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -201,7 +201,12 @@ class StructureFormatter(object):
         inner_indent = self.indent * (level + 1)
         singles, multiples = [], []
 
-        for k, v in sorted(value.items()):
+        try:
+            items = sorted(value.items(), key=lambda item: item[0])
+        except TypeError:
+            items = sorted(value.items(), key=lambda item: repr(item[0]))
+
+        for k, v in items:
             try:
                 k = str(k)
             except Exception:
-- 
2.43.0


From d3745fd4a7a4af7cc153cdb828564b70a5db2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:40 +0000
Subject: [PATCH 096/101] fix: append to enumerations which are tuples

---
 scheme/fields/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index dd8806f..d945c08 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -63,7 +63,7 @@ class Enumeration(Field):
         else:
             raise ValueError("argument 'strategy' must be either 'append' or 'replace'")
 
-        self.enumeration = list(set(baseline + enumeration))
+        self.enumeration = list(set(baseline).union(enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
     def _construct_invalid(self, value, ancestry):
-- 
2.43.0


From 2d5c0ece3a3ec699712dede14bfd26e955d01fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:00 +0000
Subject: [PATCH 097/101] fix: write YAML keys too long for a simple key so
 that they can be read

---
 scheme/formats/yaml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 86f9ebb..80c68e2 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -31,6 +31,7 @@ class Yaml(Format):
     requires_double_quotes = re.compile(
         u'[\x00-\x08\x0b-\x1f\x7f-\xa0\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]')
     requires_quotes = ('null', '~', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n', '=')
+    simple_key_limit = 1024
     whitespace = re.compile(r'^\s*$')
 
     @classmethod
@@ -149,7 +150,13 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, cls._serialize_key(k))
+            key = cls._serialize_key(k)
+            indent = cls.indent * level
+            if len(key) < cls.simple_key_limit:
+                key = '%s%s:' % (indent, key)
+            else:
+                key = '%s? %s\n%s:' % (indent, key, indent)
+
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
-- 
2.43.0


From 68d103d6af016854bc799a2eb8642c7ff5fcfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:30 +0000
Subject: [PATCH 098/101] fix: structures do not alter or share the mappings
 they are built from

---
 scheme/fields/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index a912495..176a4af 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -67,7 +67,12 @@ class Structure(Field):
         if not isinstance(structure, dict):
             raise TypeError("argument 'structure' must be a dict value")
 
+        # the mappings given, which may be used more than once, are not altered
+        structure = structure.copy()
         if polymorphic_on:
+            for identity, candidate in structure.items():
+                if isinstance(candidate, dict):
+                    structure[identity] = candidate.copy()
             if '*' in structure:
                 common = structure.pop('*')
                 for value in structure.values():
-- 
2.43.0


From f600ec3b229192826ed1602b4798de5cf659cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:46 +0000
Subject: [PATCH 099/101] fix: write mappings with keys of several types

---
 scheme/formats/structuredtext.py |  4 ++--
 scheme/formats/yaml.py           |  4 ++--
 scheme/util.py                   | 15 +++++++++------
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 18b0420..8132cd9 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -1,7 +1,7 @@
 import re
 
 from scheme.format import Format
-from scheme.util import string
+from scheme.util import sorted_items, string
 
 __all__ = ('StructuredText',)
 
@@ -32,7 +32,7 @@ class StructuredText(Format):
     def _serialize_content(cls, content):
         if isinstance(content, dict):
             tokens = []
-            for key, value in sorted(content.items()):
+            for key, value in sorted_items(content):
                 tokens.append('%s:%s' % (key, cls._serialize_content(value)))
             return '{%s}' % ','.join(tokens)
         elif isinstance(content, (list, tuple)):
diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 80c68e2..ee3d5b7 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -16,7 +16,7 @@ except ImportError:
     yaml = None
 
 from scheme.format import *
-from scheme.util import string
+from scheme.util import sorted_items, string
 
 __all__ = ('Yaml',)
 
@@ -146,7 +146,7 @@ class Yaml(Format):
         if isinstance(value, OrderedDict):
             items = value.items()
         else:
-            items = sorted(value.items())
+            items = sorted_items(value)
 
         lines = []
         for k, v in items:
diff --git a/scheme/util.py b/scheme/util.py
index 90c6803..cb93808 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -201,12 +201,7 @@ class StructureFormatter(object):
         inner_indent = self.indent * (level + 1)
         singles, multiples = [], []
 
-        try:
-            items = sorted(value.items(), key=lambda item: item[0])
-        except TypeError:
-            items = sorted(value.items(), key=lambda item: repr(item[0]))
-
-        for k, v in items:
+        for k, v in sorted_items(value):
             try:
                 k = str(k)
             except Exception:
@@ -293,6 +288,14 @@ def set_nested_value(subject, path, value):
 
     subject[last] = value
 
+def sorted_items(mapping):
+    """Returns the items of ``mapping`` in order of their keys, which may be of several types."""
+
+    try:
+        return sorted(mapping.items(), key=lambda item: item[0])
+    except TypeError:
+        return sorted(mapping.items(), key=lambda item: repr(item[0]))
+
 def traverse_to_key(value, path):
     for key in path.split('.'):
         if isinstance(value, dict):
-- 
2.43.0


From b6383afb5fb72cf714eaae5ecc610574f8eb9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:51 +0000
Subject: [PATCH 100/101] fix: print bounds of dates and datetimes as they are
 serialized

---
 scheme/fields/date.py     | 8 ++++----
 scheme/fields/datetime.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 2a36715..d25f7d2 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -48,9 +48,9 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
@@ -84,9 +84,9 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and self._normalize_value(value) < self._normalize_value(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and self._normalize_value(value) > self._normalize_value(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 2c04863..9c59570 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -51,9 +51,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
-- 
2.43.0


From 4fdbc82787b65b1617e9f80f54438cc4dd8c0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 101/101] fix: rows of csv documents longer than the header are
 refused, not cut

---
 scheme/formats/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 0b8ec0e..0cef37a 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -112,7 +112,7 @@ class Csv(Format):
         for row in reader:
             if not row:
                 continue
-            elif len(row) < len(columns):
+            elif len(row) != len(columns):
                 raise ValueError(row)
 
             candidate = {}
-- 
2.43.0

