From 0cbc351e23a4d97fc32532b9ee350fe537a3067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 01/76] fix: set error tag and message when leafref, union or
 instance-identifier refuses a value

---
 yangson/datatype.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..f778ae1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -633,7 +633,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -686,7 +690,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
@@ -1104,6 +1111,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                     return True
             except TypeError:
                 continue
+        self._set_error_info()
         return False
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-- 
2.43.0


From e279e11f2ba38eb90c0bcfc58c8fa19cc0f1bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 02/76] fix: refuse values of a wrong kind, and duplicate bits,
 without raising an exception

---
 yangson/datatype.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f778ae1..e10b7f9 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -282,10 +282,16 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
-            if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+            if not isinstance(b, str) or b not in self.bit:
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
+        if len(set(val)) < len(val):
+            self._set_error_info(error_message="duplicate bit")
+            return False
         return True
 
     def sorted_bits(self) -> list[tuple[str, int]]:
@@ -552,7 +558,7 @@ class EnumerationType(DataType[str, str]):
         self.enum: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
-        if val in self.enum:
+        if isinstance(val, str) and val in self.enum:
             return True
         self._set_error_info()
         return False
@@ -737,6 +743,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         self.bases: list[QualName] = []
 
     def __contains__(self, val: QualName) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
-- 
2.43.0


From 9eafa04aa9af1567199c363d54a6299fcee5cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 03/76] fix: decimal64 contains only finite values with at most
 fraction-digits digits

---
 yangson/datatype.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e10b7f9..316f8b6 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -876,10 +876,18 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         self._epsilon = decimal.Decimal(0)
 
     def __contains__(self, val: decimal.Decimal) -> bool:
-        if not isinstance(val, decimal.Decimal):
+        if not (isinstance(val, decimal.Decimal) and val.is_finite()):
             self._set_error_info()
             return False
-        return super().__contains__(val)
+        if not super().__contains__(val):
+            return False
+        try:
+            exact = val == val.quantize(self._epsilon)
+        except decimal.InvalidOperation:
+            exact = False
+        if not exact:
+            self._set_error_info()
+        return exact
 
     @property
     def _range(self) -> list[decimal.Decimal]:
-- 
2.43.0


From 3b213bbd3c7172a69a3857b3928a1a298bec535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 04/76] fix: canonical form of tiny decimal64 values has no
 exponent

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 316f8b6..15ee6ba 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -933,7 +933,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = format(val.quantize(self._epsilon), "f").rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
-- 
2.43.0


From 9579cd44c8114e56eccdfa24d3ec0be3548574c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 05/76] fix: malformed binary and instance-identifier input
 never raises an undocumented exception

---
 yangson/datatype.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 15ee6ba..ff5dfdb 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -523,7 +522,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -533,7 +532,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
+        except (TypeError, ValueError):
             return None
 
     def to_raw(self, val: bytes) -> Optional[str]:
@@ -706,6 +705,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
-- 
2.43.0


From eac9157b8fc301454898a43e01ed40987dae8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 06/76] fix: decode bits values in canonical order so that
 equal values compare equal

---
 yangson/datatype.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ff5dfdb..d902edb 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -299,18 +299,16 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            names = raw.split()
         except AttributeError:
             return None
+        return tuple(sorted(names, key=lambda b: self.bit.get(b, -1)))
 
     def parse_value(self, text: str) -> Optional[tuple[str, ...]]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From bcfa640150bd816f5e7623e58de22b2a581c0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 07/76] fix: an empty XML element is an empty string, binary or
 bits value

---
 yangson/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index d902edb..f6ac08f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -308,7 +308,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -480,7 +480,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -529,7 +529,7 @@ class BinaryType(LinearType[bytes]):
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
         try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
+            return base64.b64decode(xml.text or "", validate=True)
         except (TypeError, ValueError):
             return None
 
-- 
2.43.0


From 5cc92aa7045a5848c147721324159dd37fe5a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 08/76] fix: an enum or bit without explicit number gets one
 more than the highest so far

---
 yangson/datatype.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f6ac08f..177af59 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -337,7 +337,7 @@ class BitsType(DataType[tuple[str, ...], str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **bit** statements."""
-        nextpos = 0
+        nextpos: Optional[int] = None
         for bst in stmt.find_all("bit"):
             if not sctx.schema_data.if_features(bst, sctx.text_mid):
                 continue
@@ -345,12 +345,11 @@ class BitsType(DataType[tuple[str, ...], str]):
             pst = bst.find1("position")
             if pst:
                 pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
             else:
-                self.bit[label] = nextpos
-            nextpos += 1
+                pos = 0 if nextpos is None else nextpos
+            self.bit[label] = pos
+            if nextpos is None or pos >= nextpos:
+                nextpos = pos + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -579,7 +578,7 @@ class EnumerationType(DataType[str, str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
-        nextval = 0
+        nextval: Optional[int] = None
         for est in stmt.find_all("enum"):
             if not sctx.schema_data.if_features(est, sctx.text_mid):
                 continue
@@ -587,12 +586,11 @@ class EnumerationType(DataType[str, str]):
             vst = est.find1("value")
             if vst:
                 val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
             else:
-                self.enum[label] = nextval
-            nextval += 1
+                val = 0 if nextval is None else nextval
+            self.enum[label] = val
+            if nextval is None or val >= nextval:
+                nextval = val + 1
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From 1ec2e59a10d84390a4514e1e9f29e62c6663e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 09/76] fix: accept min and max in every part of a range or
 length expression

---
 yangson/constraint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..77fd71b 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -91,6 +91,10 @@ class Intervals(Constraint, Generic[N]):
             InvalidArgument: If parsing of `expr` fails.
         """
         def parse(x: str) -> N:
+            if x == "min":
+                return self.intervals[0][0]
+            if x == "max":
+                return self.intervals[-1][-1]
             res = self.parser(x)
             if res is None:
                 raise InvalidArgument(expr)
-- 
2.43.0


From 1bc8bb87b4bec3904057f3bbd4e76d3e3ea9dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 10/76] fix: compare structured values by content rather than
 by hash

---
 yangson/instvalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..a614f8b 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and super().__eq__(val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver isn't equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-- 
2.43.0


From ab143b8ac9e5ca2dac927568f39ea585ef9550eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/76] fix: insert_after gives the new entry the index it
 really has

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..1b94988 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -941,7 +941,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From 15d4c591666b747f073d63bc5ab3632231320002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 12/76] fix: merge leaves the original value intact

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1b94988..fc6265d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -320,7 +320,7 @@ class InstanceNode:
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
             inst.value += [
                 en for en in value if en in set(value) - set(self.value)]
@@ -338,7 +338,7 @@ class InstanceNode:
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
             if k in self.value:
-- 
2.43.0


From 854a52f630e8628a3c8c4088a9ecdfd81cbdddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 13/76] fix: merge keeps all entries of lists without keys

---
 yangson/instance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fc6265d..a784499 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -321,9 +321,9 @@ class InstanceNode:
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
-        if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
+        if (isinstance(self.schema_node, LeafListNode) or
+                not self.schema_node.keys):
+            inst.value += [en for en in value if en not in self.value]
             return inst
         keys = self.schema_node._key_members
         mki = {}
-- 
2.43.0


From e29675313e195b2c271647b4ee22e31d2550795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 14/76] fix: merge of metadata, anyxml and leaf-list entries,
 and of raw list entries

---
 yangson/instance.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a784499..3d1b1cf 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,7 +310,8 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, AnyContentNode) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
         newval = self.schema_node.from_raw(
@@ -341,7 +342,7 @@ class InstanceNode:
         inst = self._copy(self.value.copy())
         rest = []
         for k in value:
-            if k in self.value:
+            if k in self.value and not k.startswith("@"):
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
@@ -876,6 +877,14 @@ class ArrayEntry(InstanceNode):
         """
         return super().update(self._cook_value(value, raw), False)
 
+    def merge(self, value: Union[RawValue, Value],
+              raw: bool = False) -> "ArrayEntry":
+        """Merge receiver's value with another value.
+
+        This method overrides the superclass method.
+        """
+        return super().merge(self._cook_value(value, raw), False)
+
     def previous(self) -> "ArrayEntry":
         """Return an instance node corresponding to the previous entry.
 
@@ -1357,9 +1366,9 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
-            InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
+            InternalNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
 from .datatype import (         # NOQA
-- 
2.43.0


From e7b8803a31c566183613ae823c88c8121336f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 15/76] fix: accept namespace-qualified names uniformly in
 put_member, delete_item and sibling

---
 yangson/instance.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3d1b1cf..f58951c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,6 +210,7 @@ class InstanceNode:
         if not isinstance(self.value, ObjectValue):
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
+        name = csn.iname()
         newval = self.value.copy()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
@@ -227,6 +228,8 @@ class InstanceNode:
         """
         if not isinstance(self.value, StructuredValue):
             raise InstanceValueError(self, "scalar value")
+        if isinstance(self.value, ObjectValue) and isinstance(key, str):
+            key = self._local_name(key)
         newval = self.value.copy()
         try:
             del newval[key]
@@ -609,10 +612,15 @@ class InstanceNode:
         if isinstance(self.value, ObjectValue):
             return [m for m in self.value if not m.startswith("@")]
 
-    def _member(self, name: InstanceName) -> "ObjectMember":
+    def _local_name(self, name: InstanceName) -> InstanceName:
+        """Remove module name if it is the same as in the receiver."""
         pts = name.partition(":")
-        if pts[1] and pts[0] == self.namespace:
-            name = pts[2]
+        return pts[2] if pts[1] and pts[0] == self.namespace else name
+
+    def _member(self, name: InstanceName) -> "ObjectMember":
+        if not isinstance(name, str):
+            raise NonexistentInstance(self, f"member '{name}'")
+        name = self._local_name(name)
         sibs = self.value.copy()
         try:
             return ObjectMember(
@@ -797,6 +805,7 @@ class ObjectMember(InstanceNode):
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
         ssn = self.parinst._member_schema_node(name)
+        name = ssn.iname()
         try:
             sibs = self.siblings.copy()
             newval = sibs.pop(name)
-- 
2.43.0


From c94fa220842691a8deb3e0c692da2e5a7e61677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 16/76] fix: print key and leaf-list values in instance
 identifiers literally

---
 yangson/instance.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f58951c..49d5340 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -987,7 +986,9 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            if self.value in self.before:
+                return EntryIndex(self._key)
+            return EntryValue(str(self))
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
@@ -1132,6 +1133,11 @@ class EntryIndex:
         return inst[self.index]
 
 
+def _quoted(value: str) -> str:
+    """Enclose `value` in quotes that do not appear in it, if possible."""
+    return f"'{value}'" if '"' in value else f'"{value}"'
+
+
 class EntryValue:
     """Value-based selectors of an array entry.
 
@@ -1147,7 +1153,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return self.value == other.value
@@ -1196,7 +1202,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From f209a989a8e39ae199660ecc949a4a81b5be1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 17/76] fix: selectors not matching the kind of node fail with
 documented errors in goto and peek

---
 yangson/instance.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 49d5340..bdc5e79 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -248,7 +248,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
@@ -1075,11 +1076,11 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ObjectValue) or not isinstance(
+                sn, InternalNode):
+            return (None, sn)
         cn = sn.get_data_child(self.name, self.namespace)
-        try:
-            return (val[cn.iname()], cn)
-        except (IndexError, KeyError, TypeError):
-            return (None, cn)
+        return (None if cn is None else val.get(cn.iname()), cn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         return inst[self.iname()]
@@ -1124,9 +1125,11 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+        except (IndexError, TypeError):
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
@@ -1167,12 +1170,18 @@ class EntryValue:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
+        if not isinstance(val, ArrayValue) or not isinstance(
+                sn, LeafListNode):
+            return None, sn
         try:
             return (val[val.index(self.parse_value(sn))], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ArrayValue) or not isinstance(
+                inst.schema_node, LeafListNode):
+            raise InstanceValueError(inst, "lookup on non-leaf-list")
         try:
             return inst._entry(
                 inst.value.index(self.parse_value(inst.schema_node)))
@@ -1219,6 +1228,8 @@ class EntryKeys:
             knod = sn.get_data_child(*k)
             if knod is None:
                 raise NonexistentSchemaNode(sn.qual_name, *k)
+            if not isinstance(knod, TerminalNode):
+                raise BadSchemaNodeType(knod.qual_name, "leaf")
             kval = knod.type.parse_value(self.keys[k])
             if kval is None:
                 raise InvalidKeyValue(self.keys[k])
@@ -1233,6 +1244,8 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not isinstance(val, ArrayValue) or not isinstance(sn, ListNode):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
             flag = True
@@ -1253,6 +1266,8 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
+        if not isinstance(inst.schema_node, ListNode):
+            raise InstanceValueError(inst, "lookup on non-list")
         return inst.look_up(**self.parse_keys(inst.schema_node))
 
 
-- 
2.43.0


From 180e87287b29cc0568f4d7342966426f148882b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 18/76] fix: resource identifiers that continue below a leaf or
 after an action name are rejected

---
 yangson/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index bdc5e79..93e2c04 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1295,12 +1295,16 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
                     if (isinstance(cn, RpcActionNode) and cn.name == name and
                             (ns is None or cn.ns == ns)):
                         res.append(ActionName(name, ns))
+                        if not self.at_end():
+                            raise UnexpectedInput(self, "end of input")
                         return InstanceRoute(res)
                 raise NonexistentSchemaNode(sn.qual_name, name, ns)
             res.append(MemberName(name, ns))
-- 
2.43.0


From fa3084931ae7d505bf4cfabff9c4de0afb865143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 19/76] fix: instance route items of different kinds are
 unequal, equal ones hash equally

---
 yangson/instance.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 93e2c04..f2ab1ca 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1065,7 +1065,11 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (isinstance(other, MemberName) and self.name == other.name
+                and self.namespace == other.namespace)
+
+    def __hash__(self) -> int:
+        return hash((self.name, self.namespace))
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1118,7 +1122,10 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
+
+    def __hash__(self) -> int:
+        return hash(self.index)
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1159,7 +1166,10 @@ class EntryValue:
         return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
+
+    def __hash__(self) -> int:
+        return hash(self.value)
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1215,7 +1225,10 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
+
+    def __hash__(self) -> int:
+        return hash(frozenset(self.keys.items()))
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
-- 
2.43.0


From f1d10bbe96e136db994b817d7ae5c58c18736b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 20/76] fix: XPath node tests and parent axis work at the root
 node

---
 yangson/instance.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index f2ab1ca..9caa639 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -739,6 +739,11 @@ class RootNode(InstanceNode):
         """Override the superclass property."""
         return None
 
+    @property
+    def qual_name(self) -> None:
+        """The root node has no name."""
+        return None
+
     def up(self) -> None:
         """Override the superclass method.
 
@@ -763,6 +768,10 @@ class RootNode(InstanceNode):
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
 
+    def _parent(self) -> list[InstanceNode]:
+        """XPath - the root node has no parent."""
+        return []
+
     def _ancestors_or_self(
             self: "RootNode",
             qname: Union[QualName, bool] = None) -> list["RootNode"]:
-- 
2.43.0


From 7416065c6b55659747bd255e9fcc783758d7e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 21/76] fix: XPath child axis ignores metadata members

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 9caa639..64681f1 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -687,7 +687,7 @@ class InstanceNode:
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
-- 
2.43.0


From ceefa79a1e1fcd0d4b1aaf2d67bfcabbc4960a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 22/76] fix: keep metadata of list entries and empty list
 entries in raw values

---
 yangson/instance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 64681f1..a4dfc9a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -499,8 +499,8 @@ class InstanceNode:
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = en.value['@']
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
@@ -508,7 +508,7 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {} or not en._member_names())):
                     if e_attr:
                         member_value['@'] = e_attr
                     value.append(member_value)
-- 
2.43.0


From 495246173c9425d709385e50959206778e7bcde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 23/76] fix: equal instance routes have equal hashes

---
 yangson/instroute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instroute.py b/yangson/instroute.py
index 3545de2..02071fb 100644
--- a/yangson/instroute.py
+++ b/yangson/instroute.py
@@ -70,4 +70,4 @@ class InstanceRoute(tuple[InstanceRouteItem, ...]):
 
     def __hash__(self) -> int:
         """Return the hash value of the receiver."""
-        return self.__str__().__hash__()
+        return super().__hash__()
-- 
2.43.0


From d0b112b12cec3d3f995415e10ec103559b30f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 24/76] fix: member access below anydata fails with the
 documented error

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index a4dfc9a..2062277 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -651,6 +651,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not self.is_internal():
+            raise InstanceValueError(self, "member without schema node")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
-- 
2.43.0


From 78c2376d1cb82e282b4eeb717bcd4d4dfff6d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 25/76] fix: report malformed metadata and members after
 metadata with the right raw-data error

---
 yangson/schemanode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..d04fd4f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -543,8 +543,10 @@ class InternalNode(SchemaNode):
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                    apath = jptr + '/' + tgt
+                else:
+                    apath = jptr
+                res[qn] = self._process_metadata(rval[qn], apath)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
@@ -609,6 +611,8 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
-- 
2.43.0


From 8b2b154a8b9bd7f93cb0ac0c3d4782701882f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 26/76] fix: name the missing members when a mandatory choice
 is absent

---
 yangson/schpattern.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..d2576ad 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -56,6 +56,10 @@ class SchemaPattern:
             self, ctype: ContentType) -> Optional[list[InstanceName]]:
         return None
 
+    def _members(self, ctype: ContentType) -> list[InstanceName]:
+        """Return names of all members that the receiver allows."""
+        return []
+
 
 class Empty(SchemaPattern, metaclass=_Singleton):
     """Singleton class representing the empty pattern."""
@@ -182,6 +186,9 @@ class ConditionalPattern(Conditional):
         if self._active(ctype):
             return self.pattern._mandatory_members(ctype)
 
+    def _members(self, ctype: ContentType) -> list[InstanceName]:
+        return self.pattern._members(ctype) if self._active(ctype) else []
+
 
 class Member(Typeable, Conditional):
 
@@ -216,6 +223,9 @@ class Member(Typeable, Conditional):
         if self._active(ctype):
             return [self.name]
 
+    def _members(self, ctype: ContentType) -> list[InstanceName]:
+        return [self.name] if self._active(ctype) else []
+
 
 class Alternative(SchemaPattern):
 
@@ -259,6 +269,9 @@ class Alternative(SchemaPattern):
         if lm is not None and rm is not None:
             return lm + rm
 
+    def _members(self, ctype: ContentType) -> list[InstanceName]:
+        return self.left._members(ctype) + self.right._members(ctype)
+
 
 class ChoicePattern(Alternative, Typeable):
 
@@ -283,6 +296,12 @@ class ChoicePattern(Alternative, Typeable):
     def _members(self, ctype: ContentType) -> list[InstanceName]:
         return super()._members(ctype) if self._active(ctype) else []
 
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        if self._active(ctype):
+            res = super()._mandatory_members(ctype)
+            return self._members(ctype) if res is None else res
+
 
 class Pair(SchemaPattern):
 
@@ -333,3 +352,6 @@ class Pair(SchemaPattern):
         else:
             return (self.left._mandatory_members(ctype) +
                     self.right._mandatory_members(ctype))
+
+    def _members(self, ctype: ContentType) -> list[InstanceName]:
+        return self.left._members(ctype) + self.right._members(ctype)
-- 
2.43.0


From 63855a682dddd50ed0389c5719fb643f7d15504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 27/76] fix: defaults in groups and cases are used only if
 their when condition holds

---
 yangson/schemanode.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d04fd4f..0441f34 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -892,6 +892,12 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        if self.when and not self.when.evaluate(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
@@ -1540,6 +1546,12 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        if self.when and not self.when.evaluate(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
-- 
2.43.0


From 6ddc65165ce56eb5ba91c3bf5e34db40fbb4b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 28/76] fix: cases added by a conditional augment are exclusive
 alternatives

---
 yangson/schemanode.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0441f34..e9d1369 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1490,17 +1490,29 @@ class ChoiceNode(InternalNode):
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        for c in self._cases():
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
 
+    def _cases(self) -> list["CaseNode"]:
+        """Return all cases, including those in conditional groups."""
+        res = []
+        for c in self.children:
+            res.extend(c.children if isinstance(c, GroupNode) else [c])
+        return res
+
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        pats = []
+        for c in self._cases():
+            pat = c._schema_pattern()
+            pats.append(ConditionalPattern(pat, c.parent.when)
+                        if c.parent is not self else pat)
+        if not pats:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        prev = pats[0]
+        for p in pats[1:]:
+            prev = ChoicePattern(p, prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
-- 
2.43.0


From 5a5669b55915f05f707e3e74b73af7184cc50c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 29/76] fix: enforce mandatory choices that have only one case

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e9d1369..b88fab0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1511,7 +1511,7 @@ class ChoiceNode(InternalNode):
         if not pats:
             return Empty()
         prev = pats[0]
-        for p in pats[1:]:
+        for p in pats[1:] or [NotAllowed()]:
             prev = ChoicePattern(p, prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
-- 
2.43.0


From 486614ae5516ca4d1c168ebf8ca78864658fc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 30/76] fix: propagate mandatory configuration to ancestors
 irrespective of the order of children

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b88fab0..ced219b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1143,9 +1143,10 @@ class ContainerNode(DataNode, InternalNode):
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
+        before = (self.mandatory, self.mandatory_config)
         super()._add_mandatory_child(node)
-        if propagate:
+        if not self.presence and before != (
+                self.mandatory, self.mandatory_config):
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
-- 
2.43.0


From f79a5e50c3c1dacbf244cfcc2597cc4102359844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 31/76] fix: deleting a leaf-list default by a deviation

---
 yangson/schemanode.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ced219b..3d98310 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1651,11 +1651,10 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
-                    return
+            if self._default and stmt.argument in self._default:
+                self._default.remove(stmt.argument)
+                if not self._default:
+                    self._default = None
 
     def _post_process(self) -> None:
         super()._post_process()
-- 
2.43.0


From 7e68d7b96b429a86d28268ebe8119a4fb3e30854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 32/76] fix: XPath child axis shows the defaults of the
 selected case

---
 yangson/instance.py   |  7 ++++---
 yangson/schemanode.py | 11 +++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2062277..ef2e4c9 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -683,9 +683,10 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                if cn.when and not cn.when.evaluate(self):
+                    return []
+                if isinstance(cn, CaseNode) and cn is not cn._choice(
+                        )._case_in_use(self.value):
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3d98310..dd0cc42 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1496,6 +1496,12 @@ class ChoiceNode(InternalNode):
                 if cc.iname() in value:
                     return c
 
+    def _case_in_use(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return the active case or, if there is none, the default case."""
+        ac = self._active_case(value)
+        return (self.get_child(*self.default_case)
+                if ac is None and self.default_case else ac)
+
     def _cases(self) -> list["CaseNode"]:
         """Return all cases, including those in conditional groups."""
         res = []
@@ -1559,6 +1565,11 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    def _choice(self) -> ChoiceNode:
+        """Return the choice to which the receiver belongs."""
+        return (self.parent if isinstance(self.parent, ChoiceNode)
+                else self.parent.parent)
+
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         if self.when and not self.when.evaluate(inst):
-- 
2.43.0


From 9327eaf83c952dafa38cbdd5d7de2706041b002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 33/76] fix: members of notifications, rpcs and actions are not
 data children of their parent

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index dd0cc42..c785513 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -499,6 +499,8 @@ class InternalNode(SchemaNode):
         ns = ns if ns else self.ns
         todo = []
         for child in self.children:
+            if isinstance(child, SchemaTreeNode):
+                continue
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-- 
2.43.0


From db449b2d7d6980c288632c0b35879b28b9b8e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 34/76] fix: decode XML list entries that have no namespace of
 their own

---
 yangson/schemanode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c785513..ed02ae6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1305,8 +1305,7 @@ class SequenceNode(DataNode):
             ns = module.yang_id[0]
             qn = ns + ':' + name
         else:
-            name = qn = xmlchild.tag
-            ns = self.ns
+            qn = self.ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
             child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
             res.append(child)
-- 
2.43.0


From a2dc457a46327119851ad610663476c5829be9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 35/76] fix: looking up derived identities does not change the
 identity graph

---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..23e2d24 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,7 +472,7 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            res = self.identity_adjs[identity].derivs.copy()
         except KeyError:
             return set()
         for id in res.copy():
-- 
2.43.0


From 238baed92b0fc9769148cfbe06590e49a3e6f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 36/76] fix: parse feature names starting with "not", nested
 negations and missing separators in if-feature

---
 yangson/schemadata.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 23e2d24..9ee42f2 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -25,6 +25,7 @@ This module implements the following classes:
 * SchemaData: Repository of YANG schema structures and methods.
 * FeatureExprParser: Parser for if-feature expressions.
 """
+import re
 from collections.abc import MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
@@ -516,6 +517,9 @@ class SchemaData:
 class FeatureExprParser(Parser):
     """Parser and evaluator for if-feature expressions."""
 
+    not_re = re.compile(r"not[ \n\t\r]+")
+    """Regular expression for the negation operator."""
+
     def __init__(self, text: str, schema_data: SchemaData,
                  mid: ModuleId) -> None:
         """Initialize the parser instance.
@@ -547,27 +551,30 @@ class FeatureExprParser(Parser):
             raise InvalidFeatureExpression(self)
         return res
 
+    def _operator(self, keyword: str) -> bool:
+        """Parse a binary operator enclosed in whitespace, if it is next."""
+        prev = self.input[self.offset - 1]
+        if not self.test_string(keyword):
+            return False
+        if not self.ws_re.fullmatch(prev) or not self.skip_ws():
+            raise InvalidFeatureExpression(self)
+        return True
+
     def _feature_disj(self) -> bool:
         x = self._feature_conj()
-        if self.test_string("or"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self._operator("or"):
             return self._feature_disj() or x
         return x
 
     def _feature_conj(self) -> bool:
         x = self._feature_term()
-        if self.test_string("and"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self._operator("and"):
             return self._feature_conj() and x
         return x
 
     def _feature_term(self) -> bool:
-        if self.test_string("not"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+        if self.match_regex(self.not_re):
+            return not self._feature_term()
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
-- 
2.43.0


From 51cdd9bc9966bbf49906f9ca3b7e2742075efd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 37/76] fix: data paths through leaves and the root data path
 do not resolve to a data node

---
 yangson/datamodel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..dc03a28 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -184,12 +184,11 @@ class DataModel:
         """
         addr = self.schema_data.path2route(path)
         node: InternalNode = self.schema
+        child = None
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
+            child = node = node.get_data_child(*p)
         return child
 
     def ascii_tree(self, no_types: bool = False,
-- 
2.43.0


From 8d703c8b21d9eb531122a5f1d30b905717afc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 38/76] fix: raise the documented error when from_xml gets a
 wrong subschema

---
 yangson/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index dc03a28..a9d4355 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
-- 
2.43.0


From 34c98789104fb1758b1f4306e54475e82386cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 39/76] fix: empty schema node identifier

---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 9ee42f2..947e83b 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -388,7 +388,7 @@ class SchemaData:
         """
         nlist = sni.split("/")
         res = []
-        for qn in (nlist[1:] if sni[0] == "/" else nlist):
+        for qn in (nlist[1:] if sni.startswith("/") else nlist):
             res.append(self.translate_node_id(qn, sctx))
         return res
 
-- 
2.43.0


From ac61c55b79ece67b1fe165feb629c98ba5f78653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 40/76] fix: unescape long double-quoted strings without
 recursion

---
 yangson/statement.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..e9c58e1 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,7 +22,8 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
-from typing import Final, Optional
+import re
+from typing import Final, Optional, Pattern
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
     ModuleNameMismatch, ModuleRevisionMismatch)
@@ -124,6 +125,9 @@ class Statement:
 class ModuleParser(Parser):
     """Parse YANG modules."""
 
+    escape_re: Final[Pattern] = re.compile(r"\\(.?)", re.DOTALL)
+    """Regular expression for an escape sequence."""
+
     unescape_map: Final[dict[str, str]] = {"n": "\n", "t": "\t", '"': '"',
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
@@ -180,11 +184,8 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
+            return cls.escape_re.sub(lambda m: cls.unescape_map[m[1]], text)
         except KeyError:
             raise InvalidArgument(text) from None
 
-- 
2.43.0


From 1392467bc953865d34e28f6c4ddfa40cb084e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 41/76] fix: an unquoted argument ends at a delimiter that
 follows a slash, and at a closing brace

---
 yangson/statement.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index e9c58e1..2166e86 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -177,6 +177,10 @@ class ModuleParser(Parser):
         self.offset -= 1
         return -1
 
+    def _reread(self) -> int:
+        self.offset -= 1
+        return 0
+
     @classmethod
     def unescape(cls, text: str) -> str:
         """Replace escape sequence with corresponding characters.
@@ -365,10 +369,11 @@ class ModuleParser(Parser):
                 "\r": lambda: -1,
                 "\n": lambda: -1,
                 "{": lambda: -1,
+                "}": lambda: -1,
                 '/': lambda: 1
             },
             {  # state 1: comment?
-                "": lambda: 0,
+                "": self._reread,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From 4f0ced0447643c3673ebd9cfd206bc524eeb5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 42/76] fix: only a quoted string may follow an empty quoted
 string and "+"

---
 yangson/statement.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 2166e86..f6d62af 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -288,9 +288,12 @@ class ModuleParser(Parser):
                 sub.superstmt = res
         return res
 
-    def argument(self) -> bool:
+    def argument(self, first: bool = True) -> bool:
         """Parse statement argument.
 
+        Args:
+            first: Is this the first part of the argument?
+
         Return ``True`` if the argument is followed by block of substatements.
         """
         next = self.peek()
@@ -300,7 +303,7 @@ class ModuleParser(Parser):
         elif next == '"':
             quoted = True
             self.dq_argument()
-        elif self._arg == "":
+        elif first:
             quoted = False
             self.unq_argument()
         else:
@@ -314,7 +317,7 @@ class ModuleParser(Parser):
         elif quoted and next == "+":
             self.offset += 1
             self.opt_separator()
-            return self.argument()
+            return self.argument(False)
         else:
             raise UnexpectedInput(self, "';', '{'" +
                                   (" or '+'" if quoted else ""))
-- 
2.43.0


From 5a94799e5972d759f7486b4748388f0a4f93004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 43/76] fix: reject unterminated comments at the end of a
 module

---
 yangson/statement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yangson/statement.py b/yangson/statement.py
index f6d62af..d70d7f7 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -125,6 +125,9 @@ class Statement:
 class ModuleParser(Parser):
     """Parse YANG modules."""
 
+    comment_re: Final[Pattern] = re.compile(r"//[^\n]*|/\*.*?\*/", re.DOTALL)
+    """Regular expression for a complete comment."""
+
     escape_re: Final[Pattern] = re.compile(r"\\(.?)", re.DOTALL)
     """Regular expression for an escape sequence."""
 
@@ -167,9 +170,12 @@ class ModuleParser(Parser):
         modrev = revst.argument if revst else ""
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
+        end = self.offset
         try:
             self.opt_separator()
         except EndOfInput:
+            if self.comment_re.sub("", self.input[end:]).strip():
+                raise
             return res
         raise UnexpectedInput(self, "end of input")
 
-- 
2.43.0


From 7e55e6be77340fdc09aa701fc37ac1998ebfb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 44/76] fix: trim multi-line double-quoted strings as RFC 7950
 prescribes

---
 yangson/statement.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index d70d7f7..5edaf9c 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -358,10 +358,30 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        text = self._trim(self.input[start:self.offset], start)
+        self._arg += self.unescape(text) if self._escape else text
         self.offset += 1
 
+    def _trim(self, text: str, start: int) -> str:
+        """Strip indentation and trailing whitespace in a multi-line string.
+
+        Args:
+            text: Text between double quotes, with escape sequences.
+            start: Offset of the first character of `text`.
+        """
+        lines = text.split("\n")
+        if len(lines) == 1:
+            return text
+        bol = self.input.rfind("\n", 0, start) + 1
+        indent = len(self.input[bol:start].expandtabs(8))
+        res = []
+        for ln in lines[1:]:
+            body = ln.lstrip(" \t")
+            margin = ln[:len(ln) - len(body)].expandtabs(8)
+            res.append(margin[indent:] + body)
+        res.insert(0, lines[0])
+        return "\n".join([ln.rstrip(" \t\r") for ln in res[:-1]] + res[-1:])
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From a7b718ac06b5d0e0670a9b733b32dcd3ee1b983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 45/76] fix: convert node-sets to numbers and compare them as
 XPath 1.0 prescribes

---
 yangson/nodeset.py  | 84 ++++++++++++++++++++++-----------------------
 yangson/xpathast.py | 18 +++-------
 2 files changed, 46 insertions(+), 56 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..ada3bc9 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,8 +16,8 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+import re
 from typing import Callable, Union
-from numbers import Number
 from .instance import InstanceNode
 
 # Type aliases
@@ -25,6 +25,26 @@ from .instance import InstanceNode
 NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
+number_re = re.compile(
+    r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*")
+"""Regular expression for a string that XPath 1.0 converts to a number."""
+
+
+def to_number(val: XPathValue) -> float:
+    """Convert a value to number as XPath 1.0 function ``number`` does."""
+    if isinstance(val, NodeSet):
+        return node_number(val[0]) if val else float("nan")
+    if not isinstance(val, str):
+        return float(val)
+    mo = number_re.fullmatch(val)
+    return float(mo[1]) if mo else float("nan")
+
+
+def node_number(node: InstanceNode) -> float:
+    """Convert a node to number, boolean values being 0 or 1."""
+    return to_number(
+        node.value if isinstance(node.value, bool) else str(node))
+
 
 def comparison(meth):
     def wrap(self, arg):
@@ -35,6 +55,8 @@ def comparison(meth):
                 if meth(self, str(n)):
                     return True
             return False
+        if isinstance(arg, bool):
+            return getattr(bool(self), meth.__name__)(arg)
         return meth(self, arg)
     return wrap
 
@@ -50,7 +72,7 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return to_number(self)
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
@@ -63,10 +85,7 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) == val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
-                    return True
-            elif n.value == val:
+            elif node_number(n) == val:
                 return True
         return False
 
@@ -78,65 +97,46 @@ class NodeSet(list):
             if isinstance(val, str):
                 if str(n) != val:
                     return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
-                    return True
-            elif n.value != val:
+            elif node_number(n) != val:
                 return True
         return False
 
     @comparison
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = to_number(val)
         for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if node_number(n) > val:
+                return True
         return False
 
     @comparison
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = to_number(val)
         for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if node_number(n) < val:
+                return True
         return False
 
     @comparison
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = to_number(val)
         for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if node_number(n) >= val:
+                return True
         return False
 
     @comparison
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
+        val = to_number(val)
         for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
+            if n.is_internal():
                 continue
+            if node_number(n) <= val:
+                return True
         return False
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..d1e4ad8 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -35,7 +35,7 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import NodeExpr, NodeSet, XPathValue, node_number, to_number
 from .typealiases import QualName
 
 
@@ -75,11 +75,7 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return to_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
@@ -721,10 +717,7 @@ class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return node_number(xctx.cnode)
         return self.expr._eval_float(xctx)
 
 
@@ -836,10 +829,7 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return float(sum([node_number(n) for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From 63a313f98e06817c7e53fc2b7b293a08dec42ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 46/76] fix: XPath boolean operators and comparisons convert
 their operands

---
 yangson/nodeset.py  |  5 +++++
 yangson/xpathast.py | 28 +++++++++++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index ada3bc9..d6d7b29 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -30,6 +30,11 @@ number_re = re.compile(
 """Regular expression for a string that XPath 1.0 converts to a number."""
 
 
+def to_boolean(val: XPathValue) -> bool:
+    """Convert a value to boolean as XPath 1.0 function ``boolean`` does."""
+    return bool(val) and val == val if isinstance(val, float) else bool(val)
+
+
 def to_number(val: XPathValue) -> float:
     """Convert a value to number as XPath 1.0 function ``number`` does."""
     if isinstance(val, NodeSet):
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index d1e4ad8..6626614 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +35,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue, node_number, to_number
+from .nodeset import (
+    NodeExpr, NodeSet, XPathValue, node_number, to_boolean, to_number)
 from .typealiases import QualName
 
 
@@ -74,6 +75,9 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def _eval_boolean(self, xctx: XPathContext) -> bool:
+        return to_boolean(self._eval(xctx))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return to_number(self._eval(xctx))
 
@@ -209,7 +213,8 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return (self.left._eval_boolean(xctx) or
+                self.right._eval_boolean(xctx))
 
 
 class AndExpr(BinaryExpr):
@@ -220,7 +225,8 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return (self.left._eval_boolean(xctx) and
+                self.right._eval_boolean(xctx))
 
 
 class EqualityExpr(BinaryExpr):
@@ -242,6 +248,11 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not isinstance(lres, NodeSet) and not isinstance(rres, NodeSet):
+            if isinstance(lres, bool) or isinstance(rres, bool):
+                lres, rres = to_boolean(lres), to_boolean(rres)
+            elif isinstance(lres, float) or isinstance(rres, float):
+                lres, rres = to_number(lres), to_number(rres)
         return lres != rres if self.negate else lres == rres
 
 
@@ -267,6 +278,8 @@ class RelationalExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not isinstance(lres, NodeSet) and not isinstance(rres, NodeSet):
+            lres, rres = to_number(lres), to_number(rres)
         if self.less:
             return lres <= rres if self.equal else lres < rres
         return lres >= rres if self.equal else lres > rres
@@ -538,10 +551,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return self.expr._eval_boolean(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -710,7 +720,7 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_boolean(xctx)
 
 
 class FuncNumber(UnaryExpr):
-- 
2.43.0


From ac593d3fd1d8175bfbb67a86253840a9a6fd97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 47/76] fix: XPath numeric predicates select the node at that
 position only

---
 yangson/xpathast.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 6626614..ae790d6 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -134,18 +134,15 @@ class Expr:
 
     def _apply_predicates(self, ns: XPathValue,
                           xctx: XPathContext) -> XPathValue:
+        if self.predicates and not isinstance(ns, NodeSet):
+            raise XPathTypeError(str(ns))
         for p in self.predicates:
             res = NodeSet([])
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else to_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -737,7 +734,7 @@ class FuncPosition(Expr):
         return "position()"
 
     def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
-- 
2.43.0


From 917f64a950017afb7949b96636d631eff8b2bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 48/76] fix: evaluate XPath predicates for each context node of
 a location path

---
 yangson/xpathast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index ae790d6..2948f81 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -435,8 +435,8 @@ class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(
+            lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
-- 
2.43.0


From 380239d8616431aa33cb0572ed65b9f6c9753147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 49/76] fix: signs and NaN in XPath division, truncating mod

---
 yangson/xpathast.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 2948f81..5610c39 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor
+from math import ceil, copysign, floor, fmod, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -329,11 +329,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return (float("nan") if lres == 0.0 or isnan(lres) else
+                        copysign(float('inf'), lres) * copysign(1.0, rres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
-- 
2.43.0


From bed17af587caf80f0ce1e29e53a49714571be858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 50/76] fix: XPath floor and ceiling of NaN, infinities and
 negative zero

---
 yangson/xpathast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 5610c39..a91f35f 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, fmod, isnan
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -554,7 +554,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(ceil(val), val) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -663,7 +664,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(floor(val), val) if isfinite(val) else val
 
 
 class FuncLast(Expr):
-- 
2.43.0


From a5aa24c21ab63994ee9792065cb7326e53ccb210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 51/76] fix: XPath substring rounds its arguments and handles
 special values

---
 yangson/xpathast.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index a91f35f..9ae6901 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -40,6 +40,16 @@ from .nodeset import (
 from .typealiases import QualName
 
 
+def xpath_round(val: float) -> float:
+    """Round as XPath 1.0 function ``round`` does."""
+    dec = decimal.Decimal(val)
+    try:
+        return float(dec.to_integral_value(
+            decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
+    except decimal.InvalidOperation:
+        return float('nan')
+
+
 class XPathContext:
 
     def __init__(self, cnode: InstanceNode, origin: InstanceNode,
@@ -754,12 +764,7 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
-        try:
-            return float(dec.to_integral_value(
-                decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
-        except decimal.InvalidOperation:
-            return float('nan')
+        return xpath_round(self.expr._eval_float(xctx))
 
 
 class FuncStartsWith(BinaryExpr):
@@ -801,19 +806,11 @@ class FuncSubstring(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = xpath_round(self.right._eval_float(xctx))
+        end = (float("inf") if self.length is None else
+               start + xpath_round(self.length._eval_float(xctx)))
+        return "".join([c for i, c in enumerate(string, 1)
+                        if start <= i < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
-- 
2.43.0


From ae550a4fa06246841e10ac6a38b90512ea6121cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 52/76] fix: XPath translate uses the first occurrence of a
 repeated character

---
 yangson/xpathast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 9ae6901..c485ed6 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -853,8 +853,10 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        new = self.nchars._eval_string(xctx)
+        ttab = {}
+        for i, c in enumerate(old):
+            ttab.setdefault(ord(c), new[i] if i < len(new) else None)
         return string.translate(ttab)
 
 
-- 
2.43.0


From 69394ffc68f962355f0eb6ab976bd05d42cff580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 53/76] fix: XPath numbers convert to strings without exponent

---
 yangson/xpathast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index c485ed6..12b734e 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -95,8 +95,8 @@ class Expr:
         val = self._eval(xctx)
         if isinstance(val, float):
             try:
-                if int(val) == val:
-                    return str(int(val))
+                return (str(int(val)) if int(val) == val
+                        else format(decimal.Decimal(repr(val)), "f"))
             except OverflowError:
                 return "Infinity" if val > 0 else "-Infinity"
             except ValueError:
-- 
2.43.0


From 4f6ebed2b439283f8efd9d056b742efc08468282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 54/76] fix: XPath normalize-space handles XML whitespace only

---
 yangson/xpathast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 12b734e..a1f5757 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -723,7 +723,7 @@ class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        return " ".join(re.findall(r"[^ \t\r\n]+", string))
 
 
 class FuncNot(UnaryExpr):
-- 
2.43.0


From d270e1f83425056336dc6fd593096e7cfbf01816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 55/76] fix: XPath node-set functions handle empty, foreign and
 missing nodes

---
 yangson/datatype.py |  9 ++++++---
 yangson/xpathast.py | 18 +++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 177af59..7bd20ed 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -53,8 +53,8 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InstanceException, InvalidArgument, ParserException, ModuleNotRegistered,
+    InvalidLeafrefPath, MissingModuleNamespace, UnknownPrefix, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -728,7 +728,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except InstanceException:
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index a1f5757..7847491 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -375,6 +375,8 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        if not isinstance(lres, NodeSet) or not isinstance(rres, NodeSet):
+            raise XPathTypeError(f"{lres} | {rres}")
         return lres.union(rres)
 
 
@@ -550,8 +552,8 @@ class FuncBitIsSet(BinaryExpr):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
         try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+            return isinstance(ns[0].value, tuple) and bit in ns[0].value
+        except IndexError:
             return False
 
 
@@ -614,8 +616,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns[0]._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -641,7 +642,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -705,12 +706,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From 2d23d7c80afe3b9f5a3da357d10c142d6fc542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 56/76] fix: XPath parent axis with a node name

---
 yangson/xpathast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 7847491..e27950f 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -530,8 +530,8 @@ class Step(Expr):
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
             Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+                lambda n, qn=self.qname: [p for p in n._parent()
+                                          if not qn or qn == p.qual_name]),
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
-- 
2.43.0


From 182d8aebce4e91d4dc52b57a771642f9e6f28c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 57/76] fix: a "//" after a filter expression does not start at
 the root

---
 yangson/xpathparser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..0632762 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -197,7 +197,8 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            self.skip_ws()
+            return PathExpr(fexpr, self._relative_path())
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -232,9 +233,11 @@ class XPathParser(Parser):
             self.skip_ws()
             if self.at_end():
                 return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
+            return self._relative_path(LocationPath(Root(), self._step()))
+        return self._relative_path()
+
+    def _relative_path(self, op1: Optional[Expr] = None) -> LocationPath:
+        op1 = op1 or self._step()
         while self.test_string("/"):
             self.skip_ws()
             op2 = self._step()
-- 
2.43.0


From d97706922a24cccb980ca8fef7e09c9db97e67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 58/76] fix: a type derived from one with require-instance
 false can require instances again

---
 yangson/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7bd20ed..21fcfc1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -619,8 +619,9 @@ class LinkType(DataType[S, RS]):
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-        if stmt.find1("require-instance", "false"):
-            self.require_instance = False
+        ri = stmt.find1("require-instance")
+        if ri:
+            self.require_instance = ri.argument == "true"
 
 
 class LeafrefType(LinkType[ScalarValue, RawScalar]):
-- 
2.43.0


From baf46728a72b033fd84a85013f82798a7d42a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 59/76] fix: names without a module do not resolve at the root,
 nor names with an empty one anywhere

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ed02ae6..51d01e9 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -463,7 +463,7 @@ class InternalNode(SchemaNode):
             name: Child's name.
             ns: Child's namespace (= `self.ns` if absent).
         """
-        ns = ns if ns else self.ns
+        ns = self.ns if ns is None else ns
         todo = []
         for child in self.children:
             if child.name is None:
@@ -496,7 +496,9 @@ class InternalNode(SchemaNode):
     def get_data_child(self, name: YangIdentifier,
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
-        ns = ns if ns else self.ns
+        ns = self.ns if ns is None else ns
+        if ns is None:          # no default at the root
+            return None
         todo = []
         for child in self.children:
             if isinstance(child, SchemaTreeNode):
-- 
2.43.0


From 73b966e67826fe166d8c79bf3ed4dee1da98776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 60/76] fix: add_defaults of an object holding only metadata
 stays at that object

---
 yangson/instance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index ef2e4c9..00310ea 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -416,8 +416,9 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
-                for mn in self._member_names():
+            names = self._member_names()
+            if names:
+                for mn in names:
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
                 res = res.up()
-- 
2.43.0


From be0e511498bde19ebc054587daa6bc7b7400f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 61/76] fix: tagging added defaults does not change metadata of
 other instances

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 00310ea..30f521b 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -449,11 +449,11 @@ class InstanceNode:
         for key, value in list(objvalue.items()):
             if key not in self.value:
                 if isinstance(value, ObjectValue):
-                    metadata = objvalue[key].get('@', {})
+                    metadata = objvalue[key].get('@', {}).copy()
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue[key]['@'] = metadata
                 else:
-                    metadata = objvalue.get('@'+key, {})
+                    metadata = objvalue.get('@'+key, {}).copy()
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue['@'+key] = metadata
 
-- 
2.43.0


From 544e9b8d26d437fb3dc39bd8001172d1da0c59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 62/76] fix: an identityref with an unknown prefix in XML is a
 raw type error and leaves other union members a chance

---
 yangson/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 21fcfc1..4153225 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,7 +54,7 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InstanceException, InvalidArgument, ParserException, ModuleNotRegistered,
-    InvalidLeafrefPath, MissingModuleNamespace, UnknownPrefix, XPathTypeError)
+    InvalidLeafrefPath, UnknownPrefix, XPathTypeError)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -781,10 +781,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         # the following code has issues (Issue #79)
         ns_url = xml.attrib.get('xmlns:'+i1)
         if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+            return None
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
-            raise MissingModuleNamespace(ns_url)
+            return None
         return (i2, module.main_module[0])
 
     def to_raw(self, val: QualName) -> YangIdentifier:
-- 
2.43.0


From 322a9756211d6a57d0973a571da0f940aa936495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 63/76] fix: to_xml declares the namespace of identities in
 unions and leafrefs

---
 yangson/datatype.py | 16 ++++++++++++++++
 yangson/instance.py | 11 ++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4153225..bb38d20 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -125,6 +125,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def _xml_prefix(self, val: S) -> Optional[YangIdentifier]:
+        """Return the prefix (module name) used in the XML form of `val`."""
+        return None
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -661,6 +665,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def _xml_prefix(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        return self.ref_type._xml_prefix(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -793,6 +800,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def _xml_prefix(self, val: QualName) -> Optional[YangIdentifier]:
+        return val[1]
+
     def from_yang(self, text: YangIdentifier) -> QualName:
         """Override the superclass method."""
         try:
@@ -1144,6 +1154,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def _xml_prefix(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        for t in self.types:
+            if val in t:
+                return t._xml_prefix(val)
+        return None
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index 30f521b..5fb87a5 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -592,13 +592,12 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                prefix = sn.type._xml_prefix(self.value)
+                if prefix is not None:
+                    module = self.schema_data.modules_by_name.get(prefix)
                     if not module:
                         raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                    element.attrib['xmlns:' + prefix] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         if elem is not None:
@@ -1431,5 +1430,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
-- 
2.43.0


From 623d28ef147d9e36330bc6b182670166e9c2b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 64/76] fix: a notification is encoded in XML with all its
 content

---
 yangson/instance.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5fb87a5..3d7743a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -760,11 +760,18 @@ class RootNode(InstanceNode):
             tag: str = "content-data",
             urn: str = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"):
         """put receiver's value into a XML element"""
+        sn = self.schema_node
+        if isinstance(sn, NotificationNode):
+            tag = sn.name
+            module = self.schema_data.modules_by_name.get(sn.ns)
+            if not module:
+                raise MissingModuleNamespace(sn.ns)
+            urn = module.xml_namespace
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
-            return et[0]
+        if isinstance(sn, RpcActionNode):
+            return et[0] if len(et) > 0 else None
         return et
 
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
-- 
2.43.0


From 902fadaf1247d9c0387c62b8b4a0185583f0fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 65/76] fix: a top-level XML element without namespace is a raw
 member error

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 51d01e9..6386135 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -591,7 +591,7 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
-            fqn = ns + ':' + name
+            fqn = ns + ':' + name if ns else name
         qn = fqn if ns != self.ns else name
 
         ch = self.get_data_child(name, ns)
-- 
2.43.0


From 8226c75a2e54d791031280e49171ef05bd6e004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 66/76] fix: members of a notification decoded from XML have
 the same names as decoded from JSON

---
 yangson/schemanode.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6386135..09eea9a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -603,10 +603,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
-            iname = ch.name
-        else:
-            iname = '{1}:{0}'.format(*ch.qual_name)
+        iname = ch.iname()
         if isinstance(ch, SequenceNode):
             if iname not in res:
                 res[iname] = ch.from_xml(rval, npath, fqn)
-- 
2.43.0


From d44324dad9edab6220c230241520916c73e8b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 67/76] fix: refuse instance identifiers with two predicates
 for the same key

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3d7743a..e33b763 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1424,6 +1424,8 @@ class InstanceIdParser(Parser):
         sel = {}
         while True:
             kn = self.prefixed_name()
+            if kn in sel:
+                raise UnexpectedInput(self, "predicate for another key")
             sel[kn] = self._get_value()
             if not self.test_string("["):
                 break
-- 
2.43.0


From ee9c084212fc3df334e99eb5c9bfb3fcfa3a2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 68/76] fix: report a parser error for integers with too many
 digits

---
 yangson/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..21ab983 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -203,7 +203,11 @@ class Parser:
 
     def unsigned_integer(self) -> int:
         """Parse and return an unsigned integer."""
-        return int(self.match_regex(self.uint_re, True, "unsigned integer"))
+        digits = self.match_regex(self.uint_re, True, "unsigned integer")
+        try:
+            return int(digits)
+        except ValueError:      # too many digits
+            raise UnexpectedInput(self, "unsigned integer") from None
 
     def unsigned_float(self) -> float:
         """Parse and return unsigned floating-point number."""
-- 
2.43.0


From a7b414ba04272935410bec8d2069487f317163bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 69/76] fix: peeking along a route with an action below a leaf
 gives nothing

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index e33b763..553aa97 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1118,6 +1118,8 @@ class ActionName(MemberName):
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[None, "DataNode"]:
         """Fail because there is no action instance."""
+        if not isinstance(sn, InternalNode):
+            return (None, sn)
         cn = sn.get_child(self.name, self.namespace)
         return (None, cn)
 
-- 
2.43.0


From 95a0ac8c6a5dd07c958a1b27031e9c9d0435a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 70/76] fix: instance routes use positions of entries whose
 canonical value or key means another value

---
 yangson/instance.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 553aa97..e5ecb6d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -457,6 +457,10 @@ class InstanceNode:
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue['@'+key] = metadata
 
+    def _parses_back(self) -> bool:
+        """Is the receiver's value recovered from its canonical form?"""
+        return self.schema_node.type.parse_value(str(self)) == self.value
+
     def _get_attributes(self) -> dict:
         # collect attributes
         attr = {}
@@ -1006,7 +1010,7 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            if self.value in self.before:
+            if self.value in self.before or not self._parses_back():
                 return EntryIndex(self._key)
             return EntryValue(str(self))
         if not sn.keys:
@@ -1015,11 +1019,14 @@ class ArrayEntry(InstanceNode):
         for k in sn.keys:
             try:
                 if k[1] == sn.ns:
-                    kdict[(k[0], None)] = str(self[k[0]])
+                    kn, kinst = (k[0], None), self[k[0]]
                 else:
-                    kdict[k] = str(self[f"{k[1]}:{k[0]}"])
+                    kn, kinst = k, self[f"{k[1]}:{k[0]}"]
             except NonexistentInstance:
                 return EntryIndex(self._key)
+            if not kinst._parses_back():
+                return EntryIndex(self._key)
+            kdict[kn] = str(kinst)
         return EntryKeys(kdict)
 
     def _ancestors_or_self(
-- 
2.43.0


From a0f76d74a113d2fe3873db4e692fe40caa822a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 71/76] fix: a prefixed top-level keyword is neither module nor
 submodule

---
 yangson/statement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 5edaf9c..e09e59b 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -161,7 +161,8 @@ class ModuleParser(Parser):
         self.opt_separator()
         start = self.offset
         res = self.statement()
-        if res.keyword not in ["module", "submodule"]:
+        if res.prefix is not None or res.keyword not in [
+                "module", "submodule"]:
             self.offset = start
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
-- 
2.43.0


From 5d3975a98846e9364d456114ccabbab0739bac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 72/76] fix: tabs past the column of the quote stay in a
 multi-line string

---
 yangson/statement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index e09e59b..ab51398 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -377,9 +377,11 @@ class ModuleParser(Parser):
         indent = len(self.input[bol:start].expandtabs(8))
         res = []
         for ln in lines[1:]:
-            body = ln.lstrip(" \t")
-            margin = ln[:len(ln) - len(body)].expandtabs(8)
-            res.append(margin[indent:] + body)
+            width = pos = 0
+            while width < indent and ln[pos:pos + 1] in (" ", "\t"):
+                width += 8 if ln[pos] == "\t" else 1
+                pos += 1
+            res.append(" " * (width - indent) + ln[pos:])
         res.insert(0, lines[0])
         return "\n".join([ln.rstrip(" \t\r") for ln in res[:-1]] + res[-1:])
 
-- 
2.43.0


From 7c541dc18c8eff8a95db4c937c9d21a7ac915bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 73/76] fix: XPath numbers may end with the decimal point

---
 yangson/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index 21ab983..1fc09c6 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.({_uint})?)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
-- 
2.43.0


From 0a43288963ad5bec4f75f36689ad172c5171b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 74/76] fix: nodes of reverse axes are delivered in document
 order

---
 yangson/xpathast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index e27950f..b3602cc 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -541,7 +541,11 @@ class Step(Expr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         ns = NodeSet(self._node_trans()(xctx.cnode))
-        return self._apply_predicates(ns, xctx)
+        res = self._apply_predicates(ns, xctx)
+        if self.axis in (Axis.ancestor, Axis.ancestor_or_self,
+                         Axis.preceding_sibling):
+            res.reverse()       # from proximity to document order
+        return res
 
 
 class FuncBitIsSet(BinaryExpr):
-- 
2.43.0


From 4b3656ca480b20024f8f7fce1906f9fcf76f1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 75/76] fix: refined defaults of a leaf-list replace those of
 the grouping

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 09eea9a..ad6031c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -765,6 +765,8 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None      # replaced by the refined defaults
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From fd41078ab17c7dc916f7681e6c3efc5fb5070c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 76/76] fix: a deviation can delete a unique statement

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index ad6031c..53ce4d7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1437,9 +1437,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [str(u) for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(u) for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
-- 
2.43.0

