From fbb44715a0ff0d562f4f6534386cc22c87b7b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 01/98] fix: normalize qualified member names in put_member

---
 yangson/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..1651933 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,6 +210,7 @@ class InstanceNode:
         if not isinstance(self.value, ObjectValue):
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
+        name = csn.iname()
         newval = self.value.copy()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
-- 
2.43.0


From 71cfa826c5479cb8a09777499791226c1f80cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 02/98] fix: set correct index of an entry created by
 insert_after

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1651933..e750174 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -942,7 +942,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From 2205143703a3238254bb210cb1ae8cbb3a5ef80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 03/98] fix: do not modify the receiver's value in merge

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index e750174..cf1206d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -321,7 +321,7 @@ class InstanceNode:
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
             inst.value += [
                 en for en in value if en in set(value) - set(self.value)]
@@ -339,7 +339,7 @@ class InstanceNode:
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
             if k in self.value:
-- 
2.43.0


From a45b8e3f269a21f5e01c410a3058dc06231f2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 04/98] fix: compare structured values by content rather than
 by hash

---
 docs/instvalue.rst   | 4 ++--
 yangson/instvalue.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/instvalue.rst b/docs/instvalue.rst
index ce7e6cd..820fb5f 100644
--- a/docs/instvalue.rst
+++ b/docs/instvalue.rst
@@ -72,8 +72,8 @@ data structures with additional attributs and methods:
 
    .. method:: __eq__(val: StructuredValue) -> bool
 
-      Return ``True`` if the receiver is equal to *val*. The equality
-      test is based on their hash values.
+      Return ``True`` if the receiver is equal to *val*, i.e. if both
+      are of the same class and have the same content.
 
    .. automethod:: __hash__
 
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..5264c51 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,7 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and super().__eq__(val)
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-- 
2.43.0


From 9545a9264135b6a9e838263dea418cc8f937ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 05/98] fix: support merge on leaf-list entries, raw merge on
 list entries, and anyxml

---
 yangson/instance.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index cf1206d..1ba4b87 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -296,9 +296,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
-        return self._copy(newval)
+        return self._copy(self._cook_value(value, raw))
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -311,15 +309,19 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, AnyContentNode) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+        newval = self._cook_value(value, raw)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(
+            value, self.json_pointer()) if raw else value
+
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
@@ -1358,7 +1360,7 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
-- 
2.43.0


From a8d55104b05f54cec05a6774642abab79845699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 06/98] fix: append list entries without keys in merge

---
 yangson/instance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1ba4b87..c9a8cf6 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -329,11 +329,16 @@ class InstanceNode:
                 en for en in value if en in set(value) - set(self.value)]
             return inst
         keys = self.schema_node._key_members
+
+        def key_values(en: ObjectValue) -> Optional[tuple]:
+            if keys and all(k in en for k in keys):
+                return tuple([en[k] for k in keys])
+
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            mki[key_values(value[i]) or i] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = key_values(self.value[i])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
-- 
2.43.0


From 8a7270a6a201f96d085935eda60389dbd5f72fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 07/98] fix: update() sets the timestamp to the time of
 modification

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c9a8cf6..e1834c0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -296,7 +296,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        return self._copy(self._cook_value(value, raw))
+        return self._copy(self._cook_value(value, raw), datetime.now())
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
-- 
2.43.0


From 638c35ee007863451d01c4f73e5159383603d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 08/98] fix: accept 'min' and 'max' as any boundary of a range
 or length

---
 yangson/constraint.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..e1373ea 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -90,7 +90,14 @@ class Intervals(Constraint, Generic[N]):
         Raises:
             InvalidArgument: If parsing of `expr` fails.
         """
+        lo = self.intervals[0][0]
+        hi = self.intervals[-1][-1]
+
         def parse(x: str) -> N:
+            if x == "min":
+                return lo
+            if x == "max":
+                return hi
             res = self.parser(x)
             if res is None:
                 raise InvalidArgument(expr)
@@ -99,24 +106,13 @@ class Intervals(Constraint, Generic[N]):
         def simpl(rng: list[N]) -> list[N]:
             return ([rng[0]] if rng[0] == rng[1] else rng)
 
-        def to_num(xs): return [parse(x) for x in xs]
-        lo = self.intervals[0][0]
-        hi = self.intervals[-1][-1]
         ran = []
         for p in [p.strip() for p in expr.split("|")]:
             r = [i.strip() for i in p.split("..")]
             if len(r) > 2:
                 raise InvalidArgument(expr)
             ran.append(r)
-        if ran[0][0] != "min":
-            lo = parse(ran[0][0])
-        if ran[-1][-1] != "max":
-            hi = parse(ran[-1][-1])
-        self.intervals = (
-            [simpl([lo, hi])] if len(ran) == 1 else (
-                [simpl([lo, parse(ran[0][-1])])] +
-                [to_num(r) for r in ran[1:-1]] +
-                [simpl([parse(ran[-1][0]), hi])]))
+        self.intervals = [simpl([parse(r[0]), parse(r[-1])]) for r in ran]
         if error_tag:
             self.error_tag = error_tag
         if error_message:
-- 
2.43.0


From 8163076f0d6efcb161b30c76cfeffa56b6b2024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 09/98] fix: accept only YANG lexical representations of
 integers

---
 yangson/datatype.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..873eb20 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -924,6 +924,9 @@ class IntegralType(NumericType[int, RN]):
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
+    intlex = re.compile("[-+]?[0-9]+")
+    """Regular expression for the lexical representation of integers."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -935,6 +938,8 @@ class IntegralType(NumericType[int, RN]):
 
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
+        if not self.intlex.fullmatch(text):
+            return None
         try:
             return int(text)
         except ValueError:
@@ -949,10 +954,8 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
@@ -1004,22 +1007,15 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1065,22 +1061,15 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw) if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return (self.parse_value(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From 1aaa97375561a100c1f66da3d157fd6b391c1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 10/98] fix: accept only YANG lexical representations of
 decimal64

---
 yangson/datatype.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 873eb20..0852f8a 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -854,6 +854,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    declex = re.compile(r"[-+]?[0-9]+(\.[0-9]+)?")
+    """Regular expression for the lexical representation of decimal64."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -882,9 +885,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not (isinstance(raw, str) and self.declex.fullmatch(raw)):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
 
@@ -892,11 +896,8 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return (self.from_raw(xml.text.strip())
+                if isinstance(xml.text, str) else None)
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
-- 
2.43.0


From 8678a09fa93b12d5442077736185389a94bdfe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 11/98] fix: never use exponents in the canonical form of
 decimal64

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0852f8a..0b8677b 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -910,7 +910,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = f"{val.quantize(self._epsilon):f}".rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
-- 
2.43.0


From 24975c357c177e962a21a215aa204d455cc8fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 12/98] fix: reject malformed base64 text of binary values

---
 yangson/datatype.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0b8677b..7a49cb3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -517,7 +517,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -525,10 +525,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
-            return None
+        return self.from_raw("".join((xml.text or "").split()))
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From 100b88fb3b00b766fc76fb6d842884988bdfe9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 13/98] fix: accept empty XML elements as empty strings

---
 yangson/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7a49cb3..c78edab 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -477,7 +477,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -558,7 +558,7 @@ class EnumerationType(DataType[str, str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
-- 
2.43.0


From 906bde476ee5997a22c1be879434b0c381957e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 14/98] fix: reject duplicate bits and keep bits in the order
 of positions

---
 yangson/datatype.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index c78edab..a544e69 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -282,10 +282,16 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
+        if len(set(val)) < len(val):
+            self._set_error_info(error_message="duplicate bit")
+            return False
         return True
 
     def sorted_bits(self) -> list[tuple[str, int]]:
@@ -294,18 +300,16 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            bits = raw.split()
         except AttributeError:
             return None
+        return tuple(sorted(bits, key=lambda b: self.bit.get(b, -1)))
 
     def parse_value(self, text: str) -> Optional[tuple[str, ...]]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From 5288a69572743b722e8844f9cc9a7d611dc0c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 15/98] fix: assign implicit enum values and bit positions as
 RFC 7950 requires

---
 yangson/datatype.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a544e69..39f9f7c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -340,18 +340,11 @@ class BitsType(DataType[tuple[str, ...], str]):
         """Handle **bit** statements."""
         nextpos = 0
         for bst in stmt.find_all("bit"):
-            if not sctx.schema_data.if_features(bst, sctx.text_mid):
-                continue
-            label = cast(str, bst.argument)
             pst = bst.find1("position")
-            if pst:
-                pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
-            else:
-                self.bit[label] = nextpos
-            nextpos += 1
+            pos = int(cast(str, pst.argument)) if pst else nextpos
+            nextpos = max(nextpos, pos + 1)
+            if sctx.schema_data.if_features(bst, sctx.text_mid):
+                self.bit[cast(str, bst.argument)] = pos
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -577,20 +570,13 @@ class EnumerationType(DataType[str, str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
-        nextval = 0
+        nextval = None
         for est in stmt.find_all("enum"):
-            if not sctx.schema_data.if_features(est, sctx.text_mid):
-                continue
-            label = cast(str, est.argument)
             vst = est.find1("value")
-            if vst:
-                val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
-            else:
-                self.enum[label] = nextval
-            nextval += 1
+            val = int(cast(str, vst.argument)) if vst else (nextval or 0)
+            nextval = val + 1 if nextval is None else max(nextval, val + 1)
+            if sctx.schema_data.if_features(est, sctx.text_mid):
+                self.enum[cast(str, est.argument)] = val
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From 79d001741d421d0b22a5bcf7057b95d225f515e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 16/98] fix: try the remaining member types when one cannot
 hold a value

---
 yangson/datatype.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 39f9f7c..b4ab204 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -546,7 +546,7 @@ class EnumerationType(DataType[str, str]):
         self.enum: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
-        if val in self.enum:
+        if isinstance(val, str) and val in self.enum:
             return True
         self._set_error_info()
         return False
@@ -1081,6 +1081,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                     return True
             except TypeError:
                 continue
+        self._set_error_info()
         return False
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
@@ -1117,7 +1118,10 @@ class UnionType(DataType[ScalarValue, RawScalar]):
 
     def from_xml(self, xml: ET.Element) -> Optional[ScalarValue]:
         for t in self.types:
-            val = t.from_xml(xml)
+            try:
+                val = t.from_xml(xml)
+            except MissingModuleNamespace:
+                continue
             if val is not None and val in t:
                 return val
         return None
-- 
2.43.0


From 04da30b37be1151ae578544bff2e61abf7608863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 17/98] fix: report error tag and message of the type a leafref
 refers to

---
 yangson/datatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index b4ab204..61f5ec4 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -620,7 +620,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
-- 
2.43.0


From 245084315f58e38b7677689fbd9aa9ebbdba19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 18/98] fix: accept empty key values in resource identifiers

---
 yangson/instance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index e1834c0..ac5f032 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1290,8 +1290,6 @@ class ResourceIdParser(Parser):
             keys = self.up_to("/")
         except EndOfInput:
             keys = self.remaining()
-        if not keys:
-            raise UnexpectedInput(self, "entry value or keys")
         if isinstance(sn, LeafListNode):
             return EntryValue(unquote(keys))
         ks = keys.split(",")
-- 
2.43.0


From 27fdd5cfe03c7d3de7886d3da8ac634502fb26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 19/98] fix: follow instance routes only through values of the
 proper kind

---
 yangson/instance.py | 81 +++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index ac5f032..80e2e38 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1035,6 +1035,11 @@ class ArrayEntry(InstanceNode):
         return [self.up().up()]
 
 
+def _same_scalar(val1: ScalarValue, val2: ScalarValue) -> bool:
+    """Return ``True`` if both cooked scalars represent the same YANG value."""
+    return type(val1) is type(val2) and val1 == val2
+
+
 class MemberName:
     """Selectors of object members.
 
@@ -1064,13 +1069,15 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
-        cn = sn.get_data_child(self.name, self.namespace)
-        try:
-            return (val[cn.iname()], cn)
-        except (IndexError, KeyError, TypeError):
+        cn = (sn.get_data_child(self.name, self.namespace)
+              if isinstance(sn, InternalNode) else None)
+        if cn is None or not isinstance(val, ObjectValue):
             return (None, cn)
+        return (val.get(cn.iname()), cn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ObjectValue):
+            raise InstanceValueError(inst, "member of non-object")
         return inst[self.iname()]
 
 
@@ -1113,12 +1120,16 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+        except IndexError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "entry of non-array")
         return inst[self.index]
 
 
@@ -1149,20 +1160,29 @@ class EntryValue:
             raise InvalidKeyValue(self.value)
         return res
 
+    def _find(self, val: ArrayValue, sn: "DataNode") -> Optional[int]:
+        """Return index of the entry addressed by the receiver."""
+        value = self.parse_value(sn)
+        for i, en in enumerate(val):
+            if _same_scalar(en, value):
+                return i
+        return None
+
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Value, "DataNode"]:
-        try:
-            return (val[val.index(self.parse_value(sn))], sn)
-        except ValueError:
+        if not (isinstance(sn, LeafListNode) and isinstance(val, ArrayValue)):
             return None, sn
+        i = self._find(val, sn)
+        return (None if i is None else val[i]), sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
-        try:
-            return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
-        except ValueError:
-            raise NonexistentInstance(
-                inst, f"entry '{self.value!s}'") from None
+        if not (isinstance(inst.schema_node, LeafListNode) and
+                isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "entry value of non-leaf-list")
+        i = self._find(inst.value, inst.schema_node)
+        if i is None:
+            raise NonexistentInstance(inst, f"entry '{self.value!s}'")
+        return inst._entry(i)
 
 
 class EntryKeys:
@@ -1209,6 +1229,14 @@ class EntryKeys:
             res[knod.iname()] = kval
         return res
 
+    def _find(self, val: ArrayValue, sn: "DataNode") -> Optional[int]:
+        """Return index of the entry addressed by the receiver."""
+        keys = self.parse_keys(sn)
+        for i, en in enumerate(val):
+            if all(k in en and _same_scalar(en[k], keys[k]) for k in keys):
+                return i
+        return None
+
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[ObjectValue], "DataNode"]:
         """Return the entry addressed by the receiver + its schema node.
@@ -1217,19 +1245,10 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
-        keys = self.parse_keys(sn)
-        for en in val:
-            flag = True
-            try:
-                for k in keys:
-                    if en[k] != keys[k]:
-                        flag = False
-                        break
-            except KeyError:
-                continue
-            if flag:
-                return (en, sn)
-        return (None, sn)
+        if not (isinstance(sn, ListNode) and isinstance(val, ArrayValue)):
+            return (None, sn)
+        i = self._find(val, sn)
+        return (None if i is None else val[i], sn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         """Return member instance of `inst` addressed by the receiver.
@@ -1237,7 +1256,13 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
-        return inst.look_up(**self.parse_keys(inst.schema_node))
+        if not (isinstance(inst.schema_node, ListNode) and
+                isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "lookup on non-list")
+        i = self._find(inst.value, inst.schema_node)
+        if i is None:
+            raise NonexistentInstance(inst, "entry lookup failed")
+        return inst._entry(i)
 
 
 class ResourceIdParser(Parser):
-- 
2.43.0


From 7ada1b6c03bb053b1a6973f993b232ec1043495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 20/98] fix: evaluate the default of a derived type in the
 context of its definition

---
 yangson/datatype.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 61f5ec4..f559d07 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -78,6 +78,7 @@ class DataType(ABC, Generic[S, RS]):
         """Initialize the class instance."""
         self.sctx = sctx
         self.default: Optional[S] = None
+        self._default_def: Optional[tuple[str, SchemaContext]] = None
         self.name = name
         self.error_tag: Optional[str] = None
         self.error_message: Optional[str] = None
@@ -147,13 +148,16 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Schema context in which prefixes are to be resolved
+                (receiver's context by default).
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -176,9 +180,10 @@ class DataType(ABC, Generic[S, RS]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
 
-        By default do nothing.
+        By default just evaluate the default value of a derived type.
         """
-        pass
+        if self._default_def is not None:
+            self.default = self.from_yang(*self._default_def)
 
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
@@ -217,10 +222,7 @@ class DataType(ABC, Generic[S, RS]):
                 res.units = ust.argument
             dfst = tdef.find1("default")
             if dfst:
-                dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
-                if res.default is None:
-                    raise InvalidArgument(dval)
+                res._default_def = (cast(str, dfst.argument), tsc)
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -613,11 +615,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     """Class representing YANG "leafref" type."""
 
     path: Expr
-    ref_type: DataType
 
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
+        self.ref_type: Optional[DataType] = None
 
     def __contains__(self, val: ScalarValue) -> bool:
         if val in self.ref_type:
@@ -649,8 +651,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -663,6 +666,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         if ref is None:
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         self.ref_type = ref.type
+        if isinstance(ref.type, LeafrefType) and ref.type.ref_type is None:
+            ref.type._post_process(ref)
+        super()._post_process(tnode)
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
@@ -703,9 +709,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(val)
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        return XPathParser(
+            text, sctx or self.sctx).parse().as_instance_route()
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
@@ -767,11 +775,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
         try:
             return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+                text, (sctx or self.sctx).text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -949,7 +958,8 @@ class IntegralType(NumericType[int, RN]):
         return (self.parse_value(xml.text.strip())
                 if isinstance(xml.text, str) else None)
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo:
@@ -1138,6 +1148,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         for t in self.types:
             t._post_process(tnode)
+        super()._post_process(tnode)
 
 
 DataType.dtypes = {"binary": BinaryType,
-- 
2.43.0


From 7601630b50af4a8b1cf8f6b2a845e241414e3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 21/98] fix: parse default values of unions like those of their
 member types

---
 yangson/datatype.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f559d07..0b0ca54 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -55,7 +55,8 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError,
+    YangsonException)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -1140,6 +1141,18 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        """Override the superclass method."""
+        for t in self.types:
+            try:
+                val = t.from_yang(text, sctx)
+            except YangsonException:
+                continue
+            if val in t:
+                return val
+        raise InvalidArgument(text)
+
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         self.types = [self._resolve_type(ts, sctx)
-- 
2.43.0


From f29ddc62f1bea32d3665fab287f1ca34673cc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 22/98] fix: convert and compare XPath values as XPath 1.0
 prescribes

---
 yangson/nodeset.py  | 156 ++++++++++++++++++--------------------------
 yangson/xpathast.py |  63 +++++++++---------
 2 files changed, 95 insertions(+), 124 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..39055fb 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,6 +16,8 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+import operator
+import re
 from typing import Callable, Union
 from numbers import Number
 from .instance import InstanceNode
@@ -26,17 +28,57 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
-def comparison(meth):
-    def wrap(self, arg):
-        if isinstance(arg, NodeSet):
-            for n in arg:
-                if n.is_internal():
-                    continue
-                if meth(self, str(n)):
-                    return True
-            return False
-        return meth(self, arg)
-    return wrap
+_number_re = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*\Z")
+
+
+def string_to_number(val: str) -> float:
+    """Convert a string to a number as defined by XPath 1.0."""
+    return float(val) if _number_re.match(val) else float("nan")
+
+
+def to_boolean(val: XPathValue) -> bool:
+    """Convert an XPath value as if by a call to boolean()."""
+    return bool(val) and val == val if isinstance(val, float) else bool(val)
+
+
+def to_number(val: XPathValue) -> float:
+    """Convert an XPath value as if by a call to number()."""
+    return string_to_number(val) if isinstance(val, str) else float(val)
+
+
+def _node_number(node: InstanceNode) -> float:
+    """Return numeric value of a terminal node."""
+    return (float(node.value) if isinstance(node.value, Number)
+            else string_to_number(str(node)))
+
+
+def compare(op: Callable, left: XPathValue, right: XPathValue) -> bool:
+    """Compare two XPath values as defined by XPath 1.0, sec. 3.4.
+
+    Args:
+        op: One of the comparison functions from the "operator" module.
+        left: Left operand.
+        right: Right operand.
+    """
+    equality = op in (operator.eq, operator.ne)
+    if isinstance(left, NodeSet) or isinstance(right, NodeSet):
+        if isinstance(left, bool) or isinstance(right, bool):
+            return compare(op, to_boolean(left), to_boolean(right))
+        numeric = (not equality or isinstance(left, float) or
+                   isinstance(right, float))
+
+        def items(val: XPathValue) -> list[XPathValue]:
+            if not isinstance(val, NodeSet):
+                return [val]
+            return [_node_number(n) if numeric else str(n)
+                    for n in val if not n.is_internal()]
+        rvals = items(right)
+        return any(compare(op, lv, rv) for lv in items(left) for rv in rvals)
+    if equality and (isinstance(left, bool) or isinstance(right, bool)):
+        return op(to_boolean(left), to_boolean(right))
+    if equality and isinstance(left, str) and isinstance(right, str):
+        return op(left, right)
+    return op(to_number(left), to_number(right))
 
 
 class NodeSet(list):
@@ -50,93 +92,25 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return _node_number(self[0]) if self else float("nan")
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
 
-    @comparison
     def __eq__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) == val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
-                    return True
-            elif n.value == val:
-                return True
-        return False
-
-    @comparison
+        return compare(operator.eq, self, val)
+
     def __ne__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) != val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
-                    return True
-            elif n.value != val:
-                return True
-        return False
-
-    @comparison
+        return compare(operator.ne, self, val)
+
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(operator.gt, self, val)
+
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(operator.lt, self, val)
+
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(operator.ge, self, val)
+
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        return compare(operator.le, self, val)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..c424f32 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,8 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+import operator
+from math import ceil, copysign, floor
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +36,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import (NodeExpr, NodeSet, XPathValue, compare, to_boolean,
+                      to_number)
 from .typealiases import QualName
 
 
@@ -74,12 +76,16 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def holds(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver and convert the result to boolean.
+
+        Args:
+            node: Context node for XPath evaluation.
+        """
+        return to_boolean(self.evaluate(node))
+
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return to_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
@@ -139,13 +145,8 @@ class Expr:
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else to_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -213,7 +214,8 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return (to_boolean(self.left._eval(xctx)) or
+                to_boolean(self.right._eval(xctx)))
 
 
 class AndExpr(BinaryExpr):
@@ -224,7 +226,8 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return (to_boolean(self.left._eval(xctx)) and
+                to_boolean(self.right._eval(xctx)))
 
 
 class EqualityExpr(BinaryExpr):
@@ -246,7 +249,8 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
-        return lres != rres if self.negate else lres == rres
+        return compare(operator.ne if self.negate else operator.eq,
+                       lres, rres)
 
 
 class RelationalExpr(BinaryExpr):
@@ -272,8 +276,10 @@ class RelationalExpr(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
         if self.less:
-            return lres <= rres if self.equal else lres < rres
-        return lres >= rres if self.equal else lres > rres
+            op = operator.le if self.equal else operator.lt
+        else:
+            op = operator.ge if self.equal else operator.gt
+        return compare(op, lres, rres)
 
 
 class AdditiveExpr(BinaryExpr):
@@ -542,10 +548,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return to_boolean(self.expr._eval(xctx))
 
 
 class FuncCeiling(UnaryExpr):
@@ -714,17 +717,14 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not to_boolean(self.expr._eval(xctx))
 
 
 class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return float(NodeSet([xctx.cnode]))
         return self.expr._eval_float(xctx)
 
 
@@ -734,7 +734,7 @@ class FuncPosition(Expr):
         return "position()"
 
     def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
@@ -836,10 +836,7 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return sum([float(NodeSet([n])) for n in ns], 0.0)
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From 4f9f09169f7ab0c97c7b9c38de77238f1faff64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 23/98] fix: convert results of must and when expressions to
 boolean

---
 yangson/instance.py   | 2 +-
 yangson/schemanode.py | 8 ++++----
 yangson/schpattern.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 80e2e38..eee1144 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -680,7 +680,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
+                if (cn.when and not cn.when.holds(self) or
                     isinstance(cn, CaseNode) and
                         cn.qual_name != cn.parent.default_case):
                     return []
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..f49d853 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -989,7 +989,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.holds(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -997,7 +997,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.holds(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1463,7 +1463,7 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.holds(inst):
             return inst
         ac = self._active_case(inst.value)
         if ac:
@@ -1471,7 +1471,7 @@ class ChoiceNode(InternalNode):
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
             while n is not self:
-                if n.when and not n.when.evaluate(inst):
+                if n.when and not n.when.holds(inst):
                     return inst
                 n = n.parent
             return dc._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..dea4189 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -130,7 +130,7 @@ class Conditional(SchemaPattern):
         return not self.when or self._val_when
 
     def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+        self._val_when = self.when.holds(cnode)
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
-- 
2.43.0


From de195f71dbc129d6d04f805af8576eb44608da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 24/98] fix: apply XPath predicates separately for every
 context node

---
 yangson/xpathast.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index c424f32..f80247c 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -435,8 +435,7 @@ class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
-- 
2.43.0


From 35091e6c1d6ae1e2cd77eaec3150d0c7b6b5004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 25/98] fix: parse XPath operator names, abbreviated steps and
 numbers correctly

---
 yangson/parser.py      |  2 +-
 yangson/xpathparser.py | 51 +++++++++++++++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..edea781 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.({_uint})?)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..dec3d51 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -24,6 +24,7 @@ This module defines the following classes:
 The module also defines the following exceptions:
 
 """
+import re
 from typing import Optional, Union
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
@@ -44,6 +45,9 @@ from .xpathast import (
 class XPathParser(Parser):
     """Parser for XPath expressions."""
 
+    step_re = re.compile("[a-zA-Z_.*@]")
+    """Regular expression for the first character of a location step."""
+
     def __init__(self, text: str, sctx: SchemaContext) -> None:
         """Initialize the parser instance.
 
@@ -67,9 +71,17 @@ class XPathParser(Parser):
         self.skip_ws()
         return self._or_expr()
 
+    def _operator_name(self, name: str) -> bool:
+        """Test whether operator `name` comes next, and parse it."""
+        mo = self.ident_re.match(self.input, self.offset)
+        if mo and mo.group() == name:
+            self.offset = mo.end()
+            return True
+        return False
+
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
-        while self.test_string("or"):
+        while self._operator_name("or"):
             self.skip_ws()
             op2 = self._and_expr()
             op1 = OrExpr(op1, op2)
@@ -77,7 +89,7 @@ class XPathParser(Parser):
 
     def _and_expr(self) -> Expr:
         op1 = self._equality_expr()
-        while self.test_string("and"):
+        while self._operator_name("and"):
             self.skip_ws()
             op2 = self._equality_expr()
             op1 = AndExpr(op1, op2)
@@ -139,9 +151,9 @@ class XPathParser(Parser):
         while True:
             if self.test_string("*"):
                 mulop = MultiplicativeOp.multiply
-            elif self.test_string("div"):
+            elif self._operator_name("div"):
                 mulop = MultiplicativeOp.divide
-            elif self.test_string("mod"):
+            elif self._operator_name("mod"):
                 mulop = MultiplicativeOp.modulo
             else:
                 return op1
@@ -197,7 +209,7 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            return PathExpr(fexpr, self._relative_path(self._first_step()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -206,6 +218,8 @@ class XPathParser(Parser):
         else:
             mname = "_func_" + fname.replace("-", "_")
             try:
+                if "_" in fname:
+                    raise AttributeError(fname)
                 prim = getattr(self, mname)()
             except AttributeError:
                 if fname in ("id", "lang", "namespace-uri"):
@@ -229,18 +243,36 @@ class XPathParser(Parser):
 
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
+            if self.input.startswith("/", self.offset):
+                return self._relative_path(
+                    LocationPath(Root(), self._first_step()))
             self.skip_ws()
-            if self.at_end():
+            if not self.step_re.match(self.input, self.offset):
                 return Root()
             op1 = LocationPath(Root(), self._step())
         else:
             op1 = self._step()
+        return self._relative_path(op1)
+
+    def _relative_path(self, op1: Expr) -> Expr:
+        """Parse the remaining steps of a location path."""
         while self.test_string("/"):
+            if self.test_string("/"):
+                op1 = LocationPath(op1, self._any_descendant())
             self.skip_ws()
-            op2 = self._step()
-            op1 = LocationPath(op1, op2)
+            op1 = LocationPath(op1, self._step())
         return op1
 
+    def _first_step(self) -> Step:
+        """Parse the first step after a slash that was already consumed."""
+        if self.input.startswith("/", self.offset):
+            return self._any_descendant()
+        self.skip_ws()
+        return self._step()
+
+    def _any_descendant(self) -> Step:
+        return Step(Axis.descendant_or_self, None, [])
+
     def _step(self) -> Step:
         return Step(*self._axis_qname(), self._predicates())
 
@@ -249,9 +281,6 @@ class XPathParser(Parser):
         if next == "*":
             self.adv_skip_ws()
             return (Axis.child, False)
-        if next == "/":
-            self.skip_ws()
-            return (Axis.descendant_or_self, None)
         if next == ".":
             self.offset += 1
             res = (Axis.parent if self.test_string(".") else Axis.self, None)
-- 
2.43.0


From c6ea1ba22705c999180cb8bedccbbaabd83aed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 26/98] fix: treat signs, NaN and infinities in XPath
 arithmetic as IEEE 754 does

---
 yangson/xpathast.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index f80247c..6d96c40 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -25,7 +25,7 @@ class is intended to be public:
 """
 import decimal
 import operator
-from math import ceil, copysign, floor
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -329,11 +329,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return (float("nan") if lres == 0.0 or isnan(lres)
+                        else copysign(float('inf'), lres) * copysign(1, rres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -553,7 +553,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(ceil(val)) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -662,7 +663,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return float(floor(val)) if isfinite(val) else val
 
 
 class FuncLast(Expr):
-- 
2.43.0


From 6808ced05f24f805b49b156aaf6d80cf95b80aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 27/98] fix: conversion, rounding and character mapping in
 XPath string functions

---
 yangson/xpathast.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 6d96c40..578bf05 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -93,6 +93,7 @@ class Expr:
             try:
                 if int(val) == val:
                     return str(int(val))
+                return format(decimal.Decimal(repr(val)), "f")
             except OverflowError:
                 return "Infinity" if val > 0 else "-Infinity"
             except ValueError:
@@ -712,7 +713,7 @@ class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        return " ".join([w for w in re.split("[ \t\r\n]+", string) if w])
 
 
 class FuncNot(UnaryExpr):
@@ -796,23 +797,16 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = FuncRound(self.right)._eval(xctx)
+        end = (float('inf') if self.length is None
+               else start + FuncRound(self.length)._eval(xctx))
+        return "".join([c for i, c in enumerate(string, 1)
+                        if i >= start and i < end])
 
 
 class FuncSubstringAfter(BinaryExpr):
@@ -855,8 +849,10 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        new = self.nchars._eval_string(xctx)
+        ttab = {}
+        for i, c in enumerate(old):
+            ttab.setdefault(ord(c), new[i] if i < len(new) else None)
         return string.translate(ttab)
 
 
-- 
2.43.0


From c8759ea2941eac39a409d7684158de4e88c84f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 28/98] fix: raise XPathTypeError where a node-set is required

---
 yangson/xpathast.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 578bf05..86fafb5 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -87,6 +87,12 @@ class Expr:
     def _eval_float(self, xctx: XPathContext) -> float:
         return to_number(self._eval(xctx))
 
+    def _eval_nodeset(self, xctx: XPathContext) -> NodeSet:
+        val = self._eval(xctx)
+        if isinstance(val, NodeSet):
+            return val
+        raise XPathTypeError(str(val))
+
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
         if isinstance(val, float):
@@ -365,8 +371,8 @@ class UnionExpr(BinaryExpr):
         return self._as_str("|")
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
-        lres, rres = self._eval_ops(xctx)
-        return lres.union(rres)
+        return self.left._eval_nodeset(xctx).union(
+            self.right._eval_nodeset(xctx))
 
 
 class Literal(Expr):
@@ -428,7 +434,9 @@ class FilterExpr(Expr):
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        res = self.primary._eval(xctx)
+        if not self.predicates:
+            return self.primary._eval(xctx)
+        res = self.primary._eval_nodeset(xctx)
         return self._apply_predicates(res, xctx)
 
 
@@ -694,13 +702,10 @@ class FuncName(UnaryExpr):
         if self.expr is None:
             node = xctx.cnode
         else:
-            ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
-                raise XPathTypeError(str(ns))
-            except IndexError:
+            ns = self.expr._eval_nodeset(xctx)
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From 7ad750864c43c564527dd82b9019bc1dcbf439eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 29/98] fix: parent axis with a node test and at the root,
 dereferencing of an empty node-set

---
 yangson/instance.py | 23 +++++++++++++++++++----
 yangson/xpathast.py |  8 +++-----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index eee1144..34f8d9c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -713,9 +713,13 @@ class InstanceNode:
         """XPath - return the list of receiver's following-siblings."""
         return []
 
-    def _parent(self) -> list["InstanceNode"]:
+    def _parent(self,
+                qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up()]
+        pn = self.up()
+        if qname is None:
+            return [pn]
+        return ([pn] if pn.parinst and qname in (False, pn.qual_name) else [])
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
@@ -738,6 +742,11 @@ class RootNode(InstanceNode):
         """Override the superclass property."""
         return None
 
+    @property
+    def qual_name(self) -> None:
+        """The root node has no name."""
+        return None
+
     def up(self) -> None:
         """Override the superclass method.
 
@@ -758,6 +767,11 @@ class RootNode(InstanceNode):
             return et[0]
         return et
 
+    def _parent(self,
+                qname: Union[QualName, bool] = None) -> list[InstanceNode]:
+        """XPath - the root node has no parent."""
+        return []
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
@@ -1030,9 +1044,10 @@ class ArrayEntry(InstanceNode):
             res.append(en)
         return res
 
-    def _parent(self) -> list[InstanceNode]:
+    def _parent(self,
+                qname: Union[QualName, bool] = None) -> list[InstanceNode]:
         """XPath - return the receiver's parent as a singleton list."""
-        return [self.up().up()]
+        return self.up()._parent(qname)
 
 
 def _same_scalar(val1: ScalarValue, val2: ScalarValue) -> bool:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 86fafb5..004be47 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -525,9 +525,8 @@ class Step(Expr):
                 lambda n, qn=self.qname: n._descendants(qn, True),
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
-            Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+            Axis.parent:
+                lambda n, qn=self.qname: n._parent(qn),
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
@@ -612,8 +611,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns[0]._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
-- 
2.43.0


From eda9f6a756e29c6b53f2666ef56f1a901d89bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 30/98] fix: document order, deref() of missing targets and
 non-references, derived-from() on mixed node-sets, unsupported axis

---
 yangson/datatype.py    |  5 ++++-
 yangson/instance.py    |  5 +++--
 yangson/nodeset.py     | 12 ++++++++++--
 yangson/xpathast.py    | 17 +++++++++--------
 yangson/xpathparser.py | 21 +++++++++++----------
 5 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0b0ca54..919a669 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -718,7 +718,10 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        try:
+            return [node.top().goto(cast(InstanceRoute, node.value))]
+        except YangsonException:
+            return []
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index 34f8d9c..9a81ff8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -723,7 +723,8 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() else
+        return ([] if self.is_internal() or
+                not isinstance(self.schema_node.type, LinkType) else
                 self.schema_node.type._deref(self))
 
 
@@ -1409,4 +1410,4 @@ from .schemanode import (       # NOQA
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
 from .datatype import (         # NOQA
-            IdentityrefType)
+            IdentityrefType, LinkType)
diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 39055fb..65c5467 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -91,11 +91,19 @@ class NodeSet(list):
         return self.__class__(
             {m.path: m for n in self for m in trans(n)}.values())
 
+    def in_document_order(self) -> "NodeSet":
+        """Return a copy of the receiver sorted in document order."""
+        return self.__class__(sorted(self, key=lambda n: n.path))
+
+    def first(self) -> InstanceNode:
+        """Return the node that is first in document order."""
+        return min(self, key=lambda n: n.path)
+
     def __float__(self) -> float:
-        return _node_number(self[0]) if self else float("nan")
+        return _node_number(self.first()) if self else float("nan")
 
     def __str__(self) -> str:
-        return str(self[0]) if self else ""
+        return str(self.first()) if self else ""
 
     def __eq__(self, val: XPathValue) -> bool:
         return compare(operator.eq, self, val)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 004be47..e661400 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -436,7 +436,7 @@ class FilterExpr(Expr):
     def _eval(self, xctx: XPathContext) -> XPathValue:
         if not self.predicates:
             return self.primary._eval(xctx)
-        res = self.primary._eval_nodeset(xctx)
+        res = self.primary._eval_nodeset(xctx).in_document_order()
         return self._apply_predicates(res, xctx)
 
 
@@ -547,8 +547,9 @@ class FuncBitIsSet(BinaryExpr):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
         try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+            node = ns.first()
+            return bit in node.schema_node.type.bit and bit in node.value
+        except (AttributeError, ValueError):
             return False
 
 
@@ -611,7 +612,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        return NodeSet(ns[0]._deref() if ns else [])
+        return NodeSet(ns.first()._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -637,7 +638,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -652,9 +653,9 @@ class FuncEnumValue(UnaryExpr):
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
         try:
-            node = ns[0]
+            node = ns.first()
             return float(node.schema_node.type.enum[node.value])
-        except (AttributeError, IndexError, KeyError):
+        except (AttributeError, ValueError, KeyError):
             return float('nan')
 
 
@@ -703,7 +704,7 @@ class FuncName(UnaryExpr):
             ns = self.expr._eval_nodeset(xctx)
             if not ns:
                 return ""
-            node = ns[0]
+            node = ns.first()
         if node.parinst is None:
             return ""
         if self.local:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index dec3d51..62f198b 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -209,7 +209,13 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._relative_path(self._first_step()))
+            if self.test_string("/"):
+                self.skip_ws()
+                op1 = LocationPath(self._any_descendant(), self._step())
+            else:
+                self.skip_ws()
+                op1 = self._step()
+            return PathExpr(fexpr, self._relative_path(op1))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -244,8 +250,8 @@ class XPathParser(Parser):
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
             if self.input.startswith("/", self.offset):
-                return self._relative_path(
-                    LocationPath(Root(), self._first_step()))
+                self.offset -= 1
+                return self._relative_path(Root())
             self.skip_ws()
             if not self.step_re.match(self.input, self.offset):
                 return Root()
@@ -263,13 +269,6 @@ class XPathParser(Parser):
             op1 = LocationPath(op1, self._step())
         return op1
 
-    def _first_step(self) -> Step:
-        """Parse the first step after a slash that was already consumed."""
-        if self.input.startswith("/", self.offset):
-            return self._any_descendant()
-        self.skip_ws()
-        return self._step()
-
     def _any_descendant(self) -> Step:
         return Step(Axis.descendant_or_self, None, [])
 
@@ -303,6 +302,8 @@ class XPathParser(Parser):
             if next == ":":
                 self.adv_skip_ws()
                 try:
+                    if yid == "attribute" or "_" in yid:
+                        raise KeyError(yid)
                     axis = Axis[yid.replace("-", "_")]
                 except KeyError:
                     if yid in ("attribute", "following",
-- 
2.43.0


From 7dd8fe5df751c101aa19a09472ea0857f43c3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 31/98] fix: do not keep results of when expressions in shared
 schema patterns

---
 yangson/schemanode.py |  3 +--
 yangson/schpattern.py | 63 +++++++++++++++++++++----------------------
 2 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f49d853..155ed5b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -651,8 +651,7 @@ class InternalNode(SchemaNode):
 
     def _check_schema_pattern(self, inst: InstanceNode,
                               ctype: ContentType) -> None:
-        p = self.schema_pattern
-        p._eval_when(inst)
+        p = self.schema_pattern._eval_when(inst)
         for m in inst:
             newp = p.deriv(m, ctype)
             if isinstance(newp, NotAllowed):
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index dea4189..1f8547f 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -49,8 +49,12 @@ class SchemaPattern:
         """Return ``True`` if the receiver is active in the current context."""
         return True
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        return
+    def _eval_when(self, cnode: "InstanceNode") -> "SchemaPattern":
+        """Return the receiver with "when" expressions evaluated in `cnode`.
+
+        The receiver is shared by all instances and must not be modified.
+        """
+        return self
 
     def _mandatory_members(
             self, ctype: ContentType) -> Optional[list[InstanceName]]:
@@ -120,20 +124,10 @@ class Conditional(SchemaPattern):
     def __init__(self, when: Expr) -> None:
         """Initialize the class instance."""
         self.when = when
-        self._val_when: Optional[bool] = None
-
-    def empty(self) -> bool:
-        """Override the superclass method."""
-        return self.when and not self._val_when
 
-    def check_when(self) -> bool:
-        return not self.when or self._val_when
-
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = self.when.holds(cnode)
-
-    def _active(self, ctype: ContentType) -> bool:
-        return super()._active(ctype) and self.check_when()
+    def check_when(self, cnode: "InstanceNode") -> bool:
+        """Return ``True`` if the receiver's condition holds in `cnode`."""
+        return not self.when or self.when.holds(cnode)
 
 
 class Typeable(SchemaPattern):
@@ -158,18 +152,17 @@ class ConditionalPattern(Conditional):
         super().__init__(when)
         self.pattern = p
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.pattern._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return (self.pattern._eval_when(cnode) if self.check_when(cnode)
+                else Empty())
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
-        return (not self.check_when() or self.pattern.nullable(ctype))
+        return self.pattern.nullable(ctype)
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
         """Return derivative of the receiver."""
-        return (self.pattern.deriv(x, ctype) if self.check_when() else
-                NotAllowed())
+        return self.pattern.deriv(x, ctype)
 
     def tree(self, indent: int = 0):
         return (" " * indent + "Conditional\n" +
@@ -191,10 +184,11 @@ class Member(Typeable, Conditional):
         Conditional.__init__(self, when)
         self.name = name
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        if self.when:
-            dummy = cnode.put_member(self.name, (None,))
-            super()._eval_when(dummy)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        if self.when and not self.check_when(
+                cnode.put_member(self.name, (None,))):
+            return Empty()
+        return self
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -231,10 +225,9 @@ class Alternative(SchemaPattern):
         self.left = p
         self.right = q
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return self.__class__(self.left._eval_when(cnode),
+                              self.right._eval_when(cnode))
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -268,6 +261,12 @@ class ChoicePattern(Alternative, Typeable):
         self.ctype: ContentType = ContentType.all
         self.name = name
 
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        res = self.__class__(self.left._eval_when(cnode),
+                             self.right._eval_when(cnode), self.name)
+        res.ctype = self.ctype
+        return res
+
     def nullable(self, ctype: ContentType):
         return not self.match_ctype(ctype)
 
@@ -313,9 +312,9 @@ class Pair(SchemaPattern):
             Pair.combine(self.left.deriv(x, ctype), self.right),
             Pair.combine(self.right.deriv(x, ctype), self.left))
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return self.__class__(self.left._eval_when(cnode),
+                              self.right._eval_when(cnode))
 
     def tree(self, indent: int = 0):
         return (" " * indent + "Pair\n" +
-- 
2.43.0


From 1c382f1a89a23573ba53e1dfd901b51c8b5c25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 32/98] fix: check mandatory nodes in containers without
 presence in the actual context

---
 yangson/schemanode.py | 25 +++++++--------
 yangson/schpattern.py | 72 ++++++++++++++++++++++++-------------------
 2 files changed, 53 insertions(+), 44 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 155ed5b..56b672c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -60,8 +60,8 @@ from .instroute import InstanceRoute
 from .instvalue import (
     ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
-from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
-                         NotAllowed, Pair, SchemaPattern)
+from .schpattern import (ChoicePattern, ConditionalPattern, ContainerMember,
+                         Empty, Member, NotAllowed, Pair, SchemaPattern)
 from .statement import Statement
 from .typealiases import (DataPath, InstanceName, JSONPointer, QualName,
                           RawEntry, RawList, RawObject, RawScalar, RawValue,
@@ -884,6 +884,11 @@ class GroupNode(InternalNode):
             self._add_child(cn)
             cn._handle_child(node, stmt, sctx)
 
+    def _add_mandatory_child(self, node: SchemaNode) -> None:
+        super()._add_mandatory_child(node)
+        if not isinstance(self, SchemaTreeNode):
+            self.parent._add_mandatory_child(node)
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
@@ -1149,14 +1154,10 @@ class ContainerNode(DataNode, InternalNode):
         return inst if lazy else self._add_defaults(inst, ctype)
 
     def _pattern_entry(self) -> SchemaPattern:
-        m = Member(self.iname(), self.content_type(), self.when)
-        if self._status == NodeStatus.deprecated:
-            return SchemaPattern.optional(m)
-        if self.mandatory:
-            return (m if self.mandatory_config else
-                    SchemaPattern.optional_config(m))
-        else:
-            return SchemaPattern.optional(m)
+        if self.mandatory and self._status != NodeStatus.deprecated:
+            return ContainerMember(self)
+        return SchemaPattern.optional(
+            Member(self.iname(), self.content_type(), self.when))
 
     def _presence_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         self.presence = True
@@ -1487,8 +1488,8 @@ class ChoiceNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
+        prev = NotAllowed()
+        for c in self.children:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 1f8547f..7ce637e 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -18,10 +18,12 @@
 """This module defines classes for schema patterns."""
 from typing import Optional, TYPE_CHECKING
 from .enumerations import ContentType
+from .instvalue import ObjectValue
 from .typealiases import InstanceName, _Singleton, YangIdentifier
 from .xpathast import Expr
 if TYPE_CHECKING:
     from .instance import InstanceNode
+    from .schemanode import ContainerNode
 
 
 class SchemaPattern:
@@ -32,11 +34,6 @@ class SchemaPattern:
         """Make `p` an optional pattern."""
         return Alternative.combine(Empty(), p)
 
-    @staticmethod
-    def optional_config(p: "SchemaPattern") -> "SchemaPattern":
-        """Make `p` an optional in configuration."""
-        return Alternative.combine(EmptyConfig(), p)
-
     def nullable(self, ctype: ContentType) -> bool:
         """Return ``True`` the receiver is nullable."""
         return False
@@ -83,28 +80,6 @@ class Empty(SchemaPattern, metaclass=_Singleton):
         return "Empty"
 
 
-class EmptyConfig(SchemaPattern, metaclass=_Singleton):
-    """A pattern empty in configuration, not allowed otherwise."""
-
-    def nullable(self, ctype: ContentType) -> bool:
-        """Override the superclass method."""
-        return ctype == ContentType.config
-
-    def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
-        """Return derivative of the receiver."""
-        return NotAllowed()
-
-    def tree(self, indent: int = 0):
-        return " " * indent + "EmptyConfig"
-
-    def __str__(self) -> str:
-        return "EmptyConfig"
-
-    def _mandatory_members(
-            self, ctype: ContentType) -> Optional[list[InstanceName]]:
-        return [] if ctype.value & ContentType.nonconfig.value else None
-
-
 class NotAllowed(SchemaPattern, metaclass=_Singleton):
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
@@ -140,6 +115,14 @@ class Typeable(SchemaPattern):
     def match_ctype(self, ctype) -> bool:
         return self.ctype.value & ctype.value != 0
 
+    def required_in(self, ctype: ContentType) -> bool:
+        """Return ``True`` if a mandatory node is required in `ctype`.
+
+        Nodes that represent configuration aren't required in state data.
+        """
+        return self.match_ctype(ctype) and (
+            ctype != ContentType.nonconfig or self.ctype != ContentType.all)
+
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.match_ctype(ctype)
 
@@ -192,7 +175,7 @@ class Member(Typeable, Conditional):
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
-        return not (self._active(ctype))
+        return not self.required_in(ctype)
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
         """Return derivative of the receiver."""
@@ -207,10 +190,34 @@ class Member(Typeable, Conditional):
         return f"member '{self.name}'"
 
     def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
-        if self._active(ctype):
+        if not self.nullable(ctype):
             return [self.name]
 
 
+class ContainerMember(Member):
+    """Pattern for a container without presence that has mandatory content.
+
+    The container is required only if it wouldn't be valid when empty.
+    """
+
+    def __init__(self, node: "ContainerNode") -> None:
+        super().__init__(node.iname(), node.content_type(), node.when)
+        self.node = node
+        self.content: SchemaPattern = NotAllowed()
+
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        res = super()._eval_when(cnode)
+        if res is self and self.name not in cnode.value:
+            res = self.__class__(self.node)
+            res.content = self.node.schema_pattern._eval_when(
+                cnode.put_member(self.name, ObjectValue()))
+        return res
+
+    def nullable(self, ctype: ContentType) -> bool:
+        """Override the superclass method."""
+        return not self.match_ctype(ctype) or self.content.nullable(ctype)
+
+
 class Alternative(SchemaPattern):
 
     @classmethod
@@ -268,7 +275,7 @@ class ChoicePattern(Alternative, Typeable):
         return res
 
     def nullable(self, ctype: ContentType):
-        return not self.match_ctype(ctype)
+        return not self.required_in(ctype)
 
     def deriv(self, x: str, ctype: ContentType):
         return (super().deriv(x, ctype) if self.match_ctype(ctype) else
@@ -279,8 +286,9 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        if not self.nullable(ctype):
+            return super()._mandatory_members(ctype) or [self.name]
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From f747ef66258bdb0c50b45bdb0b29e2cbcff9a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 33/98] fix: treat cases added to a choice by a conditional
 augment as alternatives

---
 yangson/schemanode.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 56b672c..46de443 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -60,8 +60,9 @@ from .instroute import InstanceRoute
 from .instvalue import (
     ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
-from .schpattern import (ChoicePattern, ConditionalPattern, ContainerMember,
-                         Empty, Member, NotAllowed, Pair, SchemaPattern)
+from .schpattern import (Alternative, ChoicePattern, ConditionalPattern,
+                         ContainerMember, Empty, Member, NotAllowed, Pair,
+                         SchemaPattern)
 from .statement import Statement
 from .typealiases import (DataPath, InstanceName, JSONPointer, QualName,
                           RawEntry, RawList, RawObject, RawScalar, RawValue,
@@ -892,6 +893,15 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _schema_pattern(self) -> SchemaPattern:
+        """Override the superclass method."""
+        if not isinstance(self.parent, ChoiceNode):
+            return super()._schema_pattern()
+        prev = NotAllowed()     # the receiver contains cases
+        for c in self.children:
+            prev = Alternative.combine(c._schema_pattern(), prev)
+        return ConditionalPattern(prev, self.when) if self.when else prev
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
-- 
2.43.0


From baf9440e4ca99f90962fffa1410f1ef428fcf1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 34/98] fix: take defaults only from the effective case and
 where conditions of groups hold

---
 yangson/instance.py   | 19 +++++++------
 yangson/schemanode.py | 65 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 9a81ff8..1931e8a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -676,14 +676,17 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
-            while True:
-                cn = cn.parent
-                if cn is sn:
-                    return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.holds(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
-                    return []
+            pn = cn.parent
+            if not pn._conditions_hold(self, sn):
+                return []
+            while pn is not sn:
+                if isinstance(pn, ChoiceNode):
+                    if pn._effective_case(self.value) is not case:
+                        return []
+                elif isinstance(pn, CaseNode):
+                    case = pn
+                pn = pn.parent
+            return wd._member(iname)._node_set()
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd.value:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 46de443..3db8df0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -704,9 +704,33 @@ class InternalNode(SchemaNode):
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
-                inst = c._add_defaults(inst, ctype)
+                inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
+    def _cases(self) -> list["CaseNode"]:
+        """Return all cases of a choice, including those in groups."""
+        res = []
+        for c in self.children:
+            res.extend([c] if isinstance(c, CaseNode) else c._cases())
+        return res
+
+    def _conditions_hold(self, inst: InstanceNode,
+                         anc: "InternalNode") -> bool:
+        """Check conditions of the receiver and its ancestors up to `anc`.
+
+        The receiver is a choice, case or group, or the same as `anc`.
+
+        Args:
+            inst: Instance of the closest ancestor data node.
+            anc: Schema node whose condition isn't checked anymore.
+        """
+        sn = self
+        while sn is not anc:
+            if sn.when and not sn.when.holds(inst):
+                return False
+            sn = sn.parent
+        return True
+
     def _state_roots(self) -> list[SchemaNode]:
         if self.content_type() == ContentType.nonconfig:
             return [self]
@@ -890,6 +914,12 @@ class GroupNode(InternalNode):
         if not isinstance(self, SchemaTreeNode):
             self.parent._add_mandatory_child(node)
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        if self.when and not self.when.holds(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
@@ -1471,26 +1501,27 @@ class ChoiceNode(InternalNode):
         """Override the superclass property."""
         return self._mandatory
 
-    def _add_defaults(self, inst: InstanceNode,
-                      ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.holds(inst):
-            return inst
-        ac = self._active_case(inst.value)
-        if ac:
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.holds(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        ac = self._effective_case(inst.value)
+        if ac is None or not ac._conditions_hold(inst, self.parent):
             return inst
+        return ac._add_defaults(inst, ctype, lazy)
+
+    def _effective_case(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return receiver's case whose default values are in use.
+
+        It is the case that's active in an instance node value or, if there
+        is none, the default case.
+        """
+        ac = self._active_case(value)
+        if ac is None and self.default_case:
+            return self.get_child(*self.default_case)
+        return ac
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        for c in self._cases():
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
-- 
2.43.0


From de2256cb3b6698545fdfe610d5c0989da183132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 35/98] fix: keep empty list entries in raw_value()

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1931e8a..fad71d1 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -512,7 +512,7 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {} or not en.value)):
                     if e_attr:
                         member_value['@'] = e_attr
                     value.append(member_value)
-- 
2.43.0


From e09d607ca092e92cc4ace8ab57dd96382a901c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 36/98] fix: do not add input and output nodes as defaults of
 an RPC or action

---
 yangson/schemanode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3db8df0..3634023 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1809,6 +1809,10 @@ class InputNode(InternalNode, DataNode):
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
 
 class OutputNode(InternalNode, DataNode):
     """RPC or action output node."""
@@ -1832,6 +1836,10 @@ class OutputNode(InternalNode, DataNode):
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
 
 class NotificationNode(SchemaTreeNode):
     """Notification node."""
-- 
2.43.0


From 855fa93d0198b70dbd474d154996e05276e2661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 37/98] fix: check constraints of nodes that exist only by
 default

---
 yangson/schemanode.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3634023..f3c496b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -640,8 +640,26 @@ class InternalNode(SchemaNode):
             self._check_schema_pattern(inst, ctype)
         for m in inst:
             inst._member(m).validate(scope, ctype)
+        if scope.value & ValidationScope.semantics.value:
+            self._check_default_members(inst, ctype)
         super()._validate(inst, scope, ctype)
 
+    def _check_default_members(self, inst: InstanceNode,
+                               ctype: ContentType) -> None:
+        """Check constraints of members that exist only by default."""
+        wd = self._add_defaults(inst, ctype, lazy=True)
+        for mn in wd:
+            if mn in inst.value:
+                continue
+            m = wd._member(mn)
+            sn = m.schema_node
+            for n in m if isinstance(sn, SequenceNode) else (m,):
+                if isinstance(sn, ContainerNode):
+                    sn._check_default_members(n, ctype)
+                else:
+                    sn._check_reference(n)
+                sn._check_must(n)
+
     def _add_child(self, node: SchemaNode) -> None:
         node.parent = self
         self.children.append(node)
@@ -1123,16 +1141,19 @@ class TerminalNode(SchemaNode):
                 inst.value not in self.type):
             raise YangTypeError(inst, self.type.error_tag,
                                 self.type.error_message)
-        if (isinstance(self.type, LinkType) and        # referential integrity
-                scope.value & ValidationScope.semantics.value and
-                self.type.require_instance):
+        if scope.value & ValidationScope.semantics.value:
+            self._check_reference(inst)
+        super()._validate(inst, scope, ctype)
+
+    def _check_reference(self, inst: InstanceNode) -> None:
+        """Check referential integrity."""
+        if isinstance(self.type, LinkType) and self.type.require_instance:
             try:
                 tgt = inst._deref()
             except YangsonException:
                 tgt = []
             if not tgt:
                 raise SemanticError(inst, "instance-required")
-        super()._validate(inst, scope, ctype)
 
     def _default_value(self, inst: InstanceNode, ctype: ContentType,
                        lazy: bool) -> InstanceNode:
-- 
2.43.0


From a49ffa11689e1b0c3f3078b737159405235bae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 38/98] fix: compare keys, unique values and leaf-list values
 including their types

---
 yangson/schemanode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f3c496b..3d1c4c6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1420,11 +1420,13 @@ class ListNode(SequenceNode, InternalNode):
         for i in range(len(inst.value)):
             en = inst.value[i]
             try:
-                kval = tuple([en[k] for k in self._key_members])
+                kval = tuple([(type(en[k]), en[k])
+                              for k in self._key_members])
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
             if kval in ukeys:
+                kval = tuple([v for _, v in kval])
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
             ukeys.add(kval)
@@ -1437,7 +1439,8 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [(type(n.value), n.value)
+                        for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1668,7 +1671,7 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len({(type(v), v) for v in inst.value}) < len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-value")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 6ef56440d8580921f3e61cf8d5ac4cbafb05639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 39/98] fix: ignore choices and cases in the paths of unique
 constraints

---
 yangson/schemanode.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3d1c4c6..e6e5c2e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1460,6 +1460,24 @@ class ListNode(SequenceNode, InternalNode):
             if not kn._mandatory:
                 kn._mandatory = True
                 self._add_mandatory_child(kn)
+        self.unique = [[self._instance_path(uex) for uex in u]
+                       for u in self.unique]
+
+    def _instance_path(self, path: Expr) -> Expr:
+        """Omit choices and cases, which have no instances, from `path`."""
+        steps = []
+        while isinstance(path, LocationPath):
+            steps.append(path.right)
+            path = path.left
+        steps.append(path)
+        sn = self
+        res = None
+        for st in reversed(steps):
+            if isinstance(sn, InternalNode):
+                sn = sn.get_child(*st.qname)
+            if not isinstance(sn, (ChoiceNode, CaseNode)):
+                res = st if res is None else LocationPath(res, st)
+        return res
 
     def _key_stmt(self, stmt: Statement,
                   sctx: SchemaContext) -> None:
-- 
2.43.0


From 618ee410236442ca7bc2c784b99db73f7141b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 40/98] fix: let instance identifiers refer to nodes that exist
 by default

---
 yangson/datatype.py | 14 ++++++++++----
 yangson/instance.py |  9 ++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 919a669..09d11c4 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,9 +54,9 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
-    InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError,
-    YangsonException)
+    InvalidArgument, InvalidLeafrefPath, MissingModuleNamespace,
+    ModuleNotRegistered, NonexistentInstance, ParserException, UnknownPrefix,
+    XPathTypeError, YangsonException)
 from .schemadata import SchemaContext
 from .instance import InstanceNode, InstanceIdParser
 from .instroute import InstanceRoute
@@ -718,10 +718,16 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
+        res = node.top()
         try:
-            return [node.top().goto(cast(InstanceRoute, node.value))]
+            for sel in cast(InstanceRoute, node.value):
+                try:
+                    res = sel.goto_step(res)
+                except NonexistentInstance:     # may exist by default
+                    res = sel.goto_step(res._with_defaults())
         except YangsonException:
             return []
+        return [res]
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index fad71d1..7c08215 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -688,11 +688,18 @@ class InstanceNode:
                 pn = pn.parent
             return wd._member(iname)._node_set()
         res = []
-        wd = sn._add_defaults(self, ContentType.all, lazy=True)
+        wd = self._with_defaults()
         for mn in wd.value:
             res.extend(wd._member(mn)._node_set())
         return res
 
+    def _with_defaults(self) -> "InstanceNode":
+        """Return the receiver with members that exist only by default."""
+        if not isinstance(self.value, ObjectValue):
+            return self
+        return self.schema_node._add_defaults(
+            self, ContentType.all, lazy=True)
+
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-- 
2.43.0


From d126061d2b840608d69b69d12a10ce501779cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 41/98] fix: do not resolve an unqualified name at the top
 level inside choices

---
 yangson/schemanode.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e6e5c2e..4235229 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -464,7 +464,10 @@ class InternalNode(SchemaNode):
             name: Child's name.
             ns: Child's namespace (= `self.ns` if absent).
         """
-        ns = ns if ns else self.ns
+        if ns is None:
+            if self.ns is None:
+                return None
+            ns = self.ns
         todo = []
         for child in self.children:
             if child.name is None:
@@ -497,7 +500,10 @@ class InternalNode(SchemaNode):
     def get_data_child(self, name: YangIdentifier,
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
-        ns = ns if ns else self.ns
+        if ns is None:
+            if self.ns is None:
+                return None
+            ns = self.ns
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From ba8d5122ff10fd6ce30d106f981c713b89f7acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 42/98] fix: reject instance identifiers that are not strings
 or lack the first module name

---
 yangson/datatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 09d11c4..e72efc3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -691,10 +691,15 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
-            return InstanceIdParser(raw).parse()
+            res = InstanceIdParser(raw).parse()
         except ParserException:
             return None
+        if res and res[0].namespace is None:
+            return None
+        return res
 
     def parse_value(self, text: str) -> Optional[InstanceRoute]:
         return self.from_raw(text)
-- 
2.43.0


From 1e493aedb2a0da487c5eb0237de68e7406cbcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 43/98] fix: reject XML leaves that contain elements

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4235229..9cf62bb 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1110,7 +1110,7 @@ class TerminalNode(SchemaNode):
         return res
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        res = self.type.from_xml(rval)
+        res = self.type.from_xml(rval) if len(rval) == 0 else None
         if res is None:
             raise RawTypeError(jptr, self.type.yang_type() + " value")
         return res
-- 
2.43.0


From 9e3eeebe399fee69a2f6f3e2570bdd1476be9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 44/98] fix: handle XML elements without a namespace
 consistently

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9cf62bb..e839e89 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -592,6 +592,8 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
+            if ns is None:
+                raise RawMemberError(jptr + "/" + name)
             fqn = ns + ':' + name
         qn = fqn if ns != self.ns else name
 
@@ -1359,8 +1361,7 @@ class SequenceNode(DataNode):
             ns = module.yang_id[0]
             qn = ns + ':' + name
         else:
-            name = qn = xmlchild.tag
-            ns = self.ns
+            qn = self.ns + ':' + xmlchild.tag
         if tagname is None or qn == tagname:
             child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
             res.append(child)
-- 
2.43.0


From 426b0139bb5a7fb45891e07a71542b9a6eadb096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 45/98] fix: qualify top-level members of notifications read
 from XML

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e839e89..89c2bbd 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -606,7 +606,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
+        if jptr != "" and self.ns == ch.ns:
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From 660bf7fe8b9467a925c73416e489ca99851bbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 46/98] fix: write all members of a notification, and an RPC
 without content, as XML

---
 yangson/instance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7c08215..bdcf47d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -771,11 +771,15 @@ class RootNode(InstanceNode):
             tag: str = "content-data",
             urn: str = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"):
         """put receiver's value into a XML element"""
+        sn = self.schema_node
+        if isinstance(sn, NotificationNode):
+            tag = sn.name
+            urn = self.schema_data.modules_by_name[sn.ns].xml_namespace
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
-            return et[0]
+        if isinstance(sn, RpcActionNode):
+            return et[0] if len(et) else None
         return et
 
     def _parent(self,
-- 
2.43.0


From c66d2c6640c9c1e3f541cc6283df45bcd117e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 47/98] fix: reject XML data for a schema node that is not an
 operation or notification

---
 yangson/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..be02446 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
-- 
2.43.0


From 09a3358238c8afb0f6ecbf4ae658617f9b51f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 48/98] fix: use canonical values in instance routes

---
 yangson/instance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index bdcf47d..47e4bb3 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1006,7 +1006,9 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            val = sn.type.canonical_string(self.value)
+            return (EntryIndex(self._key) if val is None or
+                    self.value in self.before else EntryValue(val))
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
@@ -1016,7 +1018,7 @@ class ArrayEntry(InstanceNode):
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
+            except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
         return EntryKeys(kdict)
 
-- 
2.43.0


From 5bcc070b3bf017476c4e27dfe1c24f5de4f6d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 49/98] fix: resolve and declare namespaces of identities and
 instance identifiers in XML

---
 yangson/datatype.py | 98 +++++++++++++++++++++++++++++++++++++++------
 yangson/instance.py | 10 ++---
 2 files changed, 89 insertions(+), 19 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e72efc3..aef36e1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -49,7 +49,7 @@ import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
-from typing import (Any, cast, ClassVar, Generic, Optional, Type,
+from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
 
 from .constraint import Intervals, Pattern
@@ -58,7 +58,8 @@ from .exceptions import (
     ModuleNotRegistered, NonexistentInstance, ParserException, UnknownPrefix,
     XPathTypeError, YangsonException)
 from .schemadata import SchemaContext
-from .instance import InstanceNode, InstanceIdParser
+from .instance import (
+    EntryKeys, InstanceNode, InstanceIdParser, MemberName)
 from .instroute import InstanceRoute
 from .nodeset import NodeSet
 from .statement import Statement
@@ -128,6 +129,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def xml_prefixes(self, val: S) -> list[YangIdentifier]:
+        """Return module names that `to_xml` uses as namespace prefixes."""
+        return []
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -649,6 +654,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def xml_prefixes(self, val: ScalarValue) -> list[YangIdentifier]:
+        """Override the superclass method."""
+        return self.ref_type.xml_prefixes(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -705,7 +714,20 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[InstanceRoute]:
-        return self.from_raw(cast(InstanceIdentifier, xml.text))
+        """Override the superclass method.
+
+        Prefixes without a declaration are understood as module names.
+        """
+        def module(prefix: YangIdentifier) -> YangIdentifier:
+            ns_url = xml.attrib.get("xmlns:" + prefix)
+            if ns_url is None:
+                return prefix
+            mod = self.sctx.schema_data.modules_by_ns.get(ns_url)
+            if not mod:
+                raise MissingModuleNamespace(ns_url)
+            return mod.main_module[0]
+        res = self.from_raw(cast(InstanceIdentifier, xml.text))
+        return None if res is None else self._with_modules(res, module, False)
 
     def to_raw(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
@@ -713,7 +735,48 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     def to_xml(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
-        return str(val)
+        return str(self._with_modules(val, lambda m: m, True))
+
+    def xml_prefixes(self, val: InstanceRoute) -> list[YangIdentifier]:
+        """Override the superclass method."""
+        res = []
+
+        def module(name: YangIdentifier) -> YangIdentifier:
+            res.append(name)
+            return name
+        self._with_modules(val, module, True)
+        return res
+
+    @staticmethod
+    def _with_modules(
+            route: InstanceRoute,
+            module: Callable[[YangIdentifier], YangIdentifier],
+            always: bool) -> InstanceRoute:
+        """Return `route` with module names translated by `module`.
+
+        Names in the module of their parent are qualified only if `always`
+        is ``True``.
+        """
+        res = []
+        cur = None
+
+        def translate(ns: Optional[YangIdentifier]) -> YangIdentifier:
+            return cur if ns is None else module(ns)
+        for item in route:
+            if isinstance(item, MemberName):
+                mod = translate(item.namespace)
+                res.append(MemberName(
+                    item.name, mod if always or mod != cur else None))
+                cur = mod
+            elif isinstance(item, EntryKeys):
+                keys = {}
+                for (name, ns), val in item.keys.items():
+                    mod = translate(ns)
+                    keys[(name, mod if always or mod != cur else None)] = val
+                res.append(EntryKeys(keys))
+            else:
+                res.append(item)
+        return InstanceRoute(res)
 
     def from_yang(self, text: str,
                   sctx: Optional[SchemaContext] = None) -> InstanceRoute:
@@ -768,17 +831,15 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         except AttributeError:
             return None
 
-        if not s:
-            # not prefixed, so assume default ns
-            return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
-
         # the following code has issues (Issue #79)
-        ns_url = xml.attrib.get('xmlns:'+i1)
+        ns_url = xml.attrib.get('xmlns:' + i1 if s else 'xmlns')
+        if not s:
+            i2 = i1
         if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+            if not s or i1 == self.sctx.default_ns:
+                # no declaration, so assume default ns
+                return (i2, self.sctx.default_ns)
+            raise MissingModuleNamespace(i1)
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
             raise MissingModuleNamespace(ns_url)
@@ -790,6 +851,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def xml_prefixes(self, val: QualName) -> list[YangIdentifier]:
+        """Override the superclass method."""
+        return [val[1]]
+
     def from_yang(self, text: YangIdentifier,
                   sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
@@ -1125,6 +1190,13 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def xml_prefixes(self, val: ScalarValue) -> list[YangIdentifier]:
+        """Override the superclass method."""
+        for t in self.types:
+            if val in t:
+                return t.xml_prefixes(val)
+        return []
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index 47e4bb3..6880551 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -595,13 +595,11 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                for mid in sn.type.xml_prefixes(self.value):
+                    module = self.schema_data.modules_by_name.get(mid)
                     if not module:
-                        raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                        raise MissingModuleNamespace(mid)
+                    element.attrib['xmlns:'+mid] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         if elem is not None:
-- 
2.43.0


From 0ac1cefe552c2baf83516d9b8eae891142691fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 50/98] fix: quote values in instance identifiers without
 escape sequences

---
 yangson/instance.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 6880551..1c267fe 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -1006,6 +1005,7 @@ class ArrayEntry(InstanceNode):
         if isinstance(sn, LeafListNode):
             val = sn.type.canonical_string(self.value)
             return (EntryIndex(self._key) if val is None or
+                    not _quotable(val) or
                     self.value in self.before else EntryValue(val))
         if not sn.keys:
             return EntryIndex(self._key)
@@ -1018,6 +1018,8 @@ class ArrayEntry(InstanceNode):
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
             except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
+        if not all(_quotable(kv) for kv in kdict.values()):
+            return EntryIndex(self._key)
         return EntryKeys(kdict)
 
     def _ancestors_or_self(
@@ -1065,6 +1067,16 @@ class ArrayEntry(InstanceNode):
         return self.up()._parent(qname)
 
 
+def _quoted(text: str) -> str:
+    """Return a quoted string for `text` (there are no escape sequences)."""
+    return f"'{text}'" if '"' in text else f'"{text}"'
+
+
+def _quotable(text: str) -> bool:
+    """Return ``True`` if `text` can be written as a quoted string."""
+    return not ("'" in text and '"' in text)
+
+
 def _same_scalar(val1: ScalarValue, val2: ScalarValue) -> bool:
     """Return ``True`` if both cooked scalars represent the same YANG value."""
     return type(val1) is type(val2) and val1 == val2
@@ -1178,10 +1190,10 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1236,11 +1248,11 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
-- 
2.43.0


From 2d3d17fa70bd126ad59a19efaf98e22582fff631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 51/98] fix: follow paths into nodes without schema children

---
 yangson/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1c267fe..0d9eef1 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -647,6 +647,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not isinstance(self.schema_node, InternalNode):
+            raise InstanceValueError(self, "member of a node without schema")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
@@ -1331,6 +1333,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From 7921d78eb540bfec3127a65dfc32e854f0df4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 52/98] fix: compare instance route items of different kinds

---
 yangson/instance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9eef1..3d4b586 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1102,7 +1102,9 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (isinstance(other, MemberName) and
+                self.name == other.name and
+                self.namespace == other.namespace)
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1157,7 +1159,7 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
-- 
2.43.0


From d42727f09f2cae7791ed45c7bfbba63a59754990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 53/98] fix: use pending edits in instance routes

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3d4b586..3f179ed 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -180,7 +180,7 @@ class InstanceNode:
         inst = self
         while inst.parinst:
             res.append(inst._instance_route_entry())
-            inst = inst.parinst
+            inst = inst.up()
         res.reverse()
         return InstanceRoute(res)
 
-- 
2.43.0


From bbaf564c86df81547c6a0d4efc2eafea87c3db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 54/98] fix: reject a repeated key in an instance identifier

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3f179ed..6430504 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1428,6 +1428,8 @@ class InstanceIdParser(Parser):
         sel = {}
         while True:
             kn = self.prefixed_name()
+            if kn in sel:
+                raise UnexpectedInput(self, "different key")
             sel[kn] = self._get_value()
             if not self.test_string("["):
                 break
-- 
2.43.0


From 942557ee93f3279b696135017d4c9362592d5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 55/98] fix: translate default instance identifiers

---
 yangson/datatype.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index aef36e1..8bafef5 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -781,8 +781,16 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
     def from_yang(self, text: str,
                   sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(
-            text, sctx or self.sctx).parse().as_instance_route()
+        ctx = sctx or self.sctx
+        res = self.from_raw(text)
+        if res is None:
+            raise InvalidArgument(text)
+        try:
+            return self._with_modules(
+                res, lambda p: ctx.schema_data.prefix2ns(p, ctx.text_mid),
+                False)
+        except UnknownPrefix:
+            raise InvalidArgument(text) from None
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-- 
2.43.0


From 94847c6870fe0e00c021631a9e7d46d9008fbcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 56/98] fix: ignore metadata in hash values of objects

---
 yangson/instvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index 5264c51..8853edf 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -96,5 +96,5 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
+        sks = sorted(k for k in self if not k.startswith("@"))
         return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
-- 
2.43.0


From 5786aeae80a83058d55865f0eefbd1f69c80f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 57/98] fix: read metadata of leaf-list entries and report
 malformed metadata

---
 yangson/schemanode.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 89c2bbd..17d88f1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -44,7 +44,7 @@ from collections import deque
 from collections.abc import MutableSet
 from datetime import datetime
 from itertools import product
-from typing import cast, Any, Optional
+from typing import cast, Any, Optional, Union
 import xml.etree.ElementTree as ET
 from .constraint import Must
 from .datatype import DataType, LinkType, IdentityrefType
@@ -545,13 +545,13 @@ class InternalNode(SchemaNode):
             raise RawTypeError(jptr, "object")
         res = ObjectValue()
         for qn in rval:
-            if qn.startswith("@"):
-                if qn != "@":
-                    tgt = qn[1:]
-                    if tgt not in rval:
-                        raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
+            if qn == "@":
                 res[qn] = self._process_metadata(rval[qn], jptr)
+            elif qn.startswith("@"):
+                tgt = qn[1:]
+                if tgt not in rval:
+                    raise MissingAnnotationTarget(jptr, tgt)
+                res[qn] = self._member_metadata(tgt, rval, jptr)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
@@ -616,8 +616,34 @@ class InternalNode(SchemaNode):
         else:
             res[iname] = ch.from_xml(xmlchild, npath)
 
+    def _member_metadata(
+            self, name: InstanceName, rval: RawObject, jptr: JSONPointer
+            ) -> Union[MetadataObject, list[Optional[MetadataObject]]]:
+        """Return metadata of a member that is not an object.
+
+        Metadata of a leaf-list may be an array with items that correspond to
+        the entries of the leaf-list.
+        """
+        rmd = rval["@" + name]
+        npath = jptr + "/" + name
+        if not isinstance(rmd, list) or not isinstance(
+                self.get_data_child(*self._iname2qname(name)), LeafListNode):
+            return self._process_metadata(rmd, npath)
+        res = []
+        for i, rmo in enumerate(rmd):
+            epath = f"{npath}/{i}"
+            if rmo is None:
+                res.append(None)
+            elif isinstance(rval[name], list) and i < len(rval[name]):
+                res.append(self._process_metadata(rmo, epath))
+            else:
+                raise MissingAnnotationTarget(npath, str(i))
+        return res
+
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "metadata object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
@@ -626,6 +652,9 @@ class InternalNode(SchemaNode):
             except KeyError:
                 raise UndefinedAnnotation(jptr, mem)
             res[mem] = an.type.from_raw(rmo[mem])
+            if res[mem] is None:
+                raise AnnotationTypeError(
+                    jptr, mem, "is not a " + an.type.yang_type() + " value")
             if res[mem] not in an.type:
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
-- 
2.43.0


From 36dfc650be9e16037c99de769bf8ee26c888567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 58/98] fix: write metadata in canonical form and keep it
 attached to its nodes

---
 yangson/instance.py | 264 ++++++++++++++++++++++++++++++--------------
 1 file changed, 182 insertions(+), 82 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 6430504..7a4e380 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -45,11 +45,12 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          YangTypeError)
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        MetadataObject, ScalarValue, StructuredValue)
 from .parser import Parser
-from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
-                          RawValue, SchemaRoute, YangIdentifier)
+from .typealiases import (InstanceName, JSONPointer, PrefName, QualName,
+                          RawScalar, RawValue, SchemaRoute, YangIdentifier)
 if TYPE_CHECKING:
+    from .datatype import DataType
     from .schemadata import SchemaData
 
 __all__ = ["InstanceNode", "RootNode", "ObjectMember", "ArrayEntry",
@@ -213,6 +214,9 @@ class InstanceNode:
         newval = self.value.copy()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
+        if isinstance(newval.get("@" + name), list):
+            newval["@" + name] = _realign_metadata(
+                self.value.get(name), newval["@" + name], newval[name])
         return self._copy(newval)._member(name)
 
     def delete_item(self, key: InstanceKey) -> "InstanceNode":
@@ -232,6 +236,8 @@ class InstanceNode:
             del newval[key]
         except (KeyError, IndexError, TypeError):
             raise NonexistentInstance(self, f"item '{key}'") from None
+        if isinstance(newval, ObjectValue):
+            newval.pop("@" + key, None)
         return self._copy(newval)
 
     def look_up(self, raw: bool = False, /,
@@ -348,13 +354,34 @@ class InstanceNode:
         inst = self._copy(self.value.copy())
         rest = []
         for k in value:
+            if k.startswith("@"):
+                continue
             if k in self.value:
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
         inst.value.update({k: value[k] for k in rest})
+        for k in value:
+            if k.startswith("@"):
+                self._merge_metadata(inst.value, k, value)
         return inst
 
+    def _merge_metadata(self, res: ObjectValue, key: InstanceName,
+                        value: ObjectValue) -> None:
+        """Merge metadata `key` from `value` into `res`."""
+        new = value[key]
+        if isinstance(new, list):
+            new = _realign_metadata(value[key[1:]], new, res[key[1:]])
+            old = res.get(key)
+            if isinstance(old, list):
+                old = old + [None] * (len(new) - len(old))
+                res[key] = [{**(o or {}), **(n or {})} or None
+                            for o, n in zip(old, new)]
+                return
+        elif isinstance(res.get(key), dict):
+            new = {**res[key], **new}
+        res[key] = new
+
     def goto(self, iroute: "InstanceRoute") -> "InstanceNode":
         """Move the focus to an instance inside the receiver's value.
 
@@ -419,8 +446,9 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
-                for mn in self._member_names():
+            names = self._member_names()
+            if names:
+                for mn in names:
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
                 res = res.up()
@@ -439,40 +467,77 @@ class InstanceNode:
                 break
         return res.up()
 
-    def _mark_defaults(self, objvalue):
+    def _mark_defaults(self, objvalue, orig=None):
         """Mark all values set in parameter but not in our own value as
         default with the relevant metadata attribute
 
         Args:
             objvalue: new object value after adding defaults
+            orig: original object value (receiver's value by default)
         """
         if not isinstance(objvalue, ObjectValue):
             return
+        if orig is None:
+            orig = self.value
+        tag = {'ietf-netconf-with-defaults:default': True}
         for key, value in list(objvalue.items()):
-            if key not in self.value:
-                if isinstance(value, ObjectValue):
-                    metadata = objvalue[key].get('@', {})
-                    metadata['ietf-netconf-with-defaults:default'] = True
-                    objvalue[key]['@'] = metadata
-                else:
-                    metadata = objvalue.get('@'+key, {})
-                    metadata['ietf-netconf-with-defaults:default'] = True
-                    objvalue['@'+key] = metadata
-
-    def _get_attributes(self) -> dict:
-        # collect attributes
-        attr = {}
-        for m in self.value:
-            if m == '@':
-                # handled when processing the level higher or no metadata
+            if key in orig or key.startswith("@"):
                 continue
+            if isinstance(value, ObjectValue):
+                value = value.copy()
+                self._mark_defaults(value, ObjectValue())
+                value['@'] = {**value.get('@', {}), **tag}
+                objvalue[key] = value
+            elif isinstance(value, ArrayValue):
+                objvalue['@'+key] = [tag.copy() for _ in value]
+            else:
+                objvalue['@'+key] = {**objvalue.get('@'+key, {}), **tag}
+
+    def _metadata(self) -> MetadataObject:
+        """Return a copy of the receiver's own metadata."""
+        if isinstance(self.value, ObjectValue):
+            return dict(self.value.get("@", {}))
+        return {}
+
+    def _annotation_type(self, name: PrefName) -> Optional["DataType"]:
+        """Return the type of an annotation, if it is defined."""
+        sn = self.schema_node
+        an = sn.schema_root().annotations.get(sn._iname2qname(name))
+        return an.type if an else None
 
-            if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
-                    and '@' in self.value[m]):
-                attr[m] = self.value[m]['@']
-            elif m[0] == '@':
-                attr[m[1:]] = self.value[m]
-        return attr
+    def _raw_metadata(self, attr: Mapping) -> dict:
+        """Return a metadata object in a raw form."""
+        if isinstance(self.schema_node, AnyContentNode):
+            return dict(attr)
+        res = {}
+        for a in attr:
+            typ = self._annotation_type(a)
+            res[a] = (typ.to_raw(attr[a]) if typ and attr[a] in typ
+                      else attr[a])
+        return res
+
+    def _xml_metadata(self, attr: Mapping, element: ET.Element) -> None:
+        """Add a metadata object to the attributes of an XML element."""
+        for a in attr:
+            val = attr[a]
+            mid, sep, name = a.rpartition(":")
+            typ = self._annotation_type(a)
+            mids = {mid: mid} if sep else {}
+            if a == 'ietf-netconf-with-defaults:default':
+                element.attrib[
+                    'xmlns:wd'] = 'urn:ietf:params:xml:ns:netconf:default:1.0'
+                mids = {}
+                a = 'wd:default'
+            if typ and val in typ:
+                mids.update((m, m) for m in typ.xml_prefixes(val))
+                val = typ.to_xml(val) or ""
+            for m in mids:
+                module = self.schema_data.modules_by_name.get(m)
+                if not module:
+                    raise MissingModuleNamespace(m)
+                element.attrib['xmlns:'+m] = module.xml_namespace
+            element.attrib[a] = (
+                str(val).lower() if isinstance(val, bool) else str(val))
 
     def raw_value(self, filter: OutputFilter = OutputFilter()) -> RawValue:
         """Return receiver's value in a raw form (ready for JSON encoding)."""
@@ -480,49 +545,60 @@ class InstanceNode:
             return self.schema_node.to_raw(self.value)
         if isinstance(self.value, ObjectValue):
             value = {}
-            attr = self._get_attributes()
             for m in self.value:
                 if m[0] != '@':
-                    m_attr = attr.get(m, {})
                     member = self[m]
+                    m_attr = member._metadata()
+                    e_attrs = []
                     add1 = filter.begin_member(self, member, m_attr)
                     if add1:
-                        member_value = member.raw_value(filter)
+                        if isinstance(member.value, ArrayValue):
+                            member_value, e_attrs = member._raw_entries(filter)
+                        else:
+                            member_value = member.raw_value(filter)
                     add2 = filter.end_member(self, member, m_attr)
                     if add1 and add2:
                         value[m] = member_value
-
-                        if m_attr:
-                            if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
-                            else:
-                                value['@'+m] = attr[m]
+                        md = member._raw_metadata(m_attr)
+                        if any(e_attrs):
+                            value['@'+m] = [{**md, **e} or None
+                                            for e in e_attrs]
+                        elif md and isinstance(member_value, dict):
+                            member_value['@'] = md
+                        elif md:
+                            value['@'+m] = md
 
             return value
         if isinstance(self.value, ArrayValue):
-            value = list()
-            for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
-                else:
-                    e_attr = {}
-                add1 = filter.begin_element(self, en, e_attr)
-                if add1:
-                    member_value = en.raw_value(filter)
-                add2 = filter.end_element(self, en, e_attr)
-                if (add1 and add2 and member_value is not None
-                        and (member_value != {} or not en.value)):
-                    if e_attr:
-                        member_value['@'] = e_attr
-                    value.append(member_value)
-            return value
+            return self._raw_entries(filter)[0]
         return self.schema_node.type.to_raw(self.value)
 
+    def _raw_entries(self, filter: OutputFilter) -> tuple[list, list]:
+        """Return raw entries and metadata of those that aren't objects."""
+        value = []
+        attrs = []
+        if isinstance(self.schema_node, AnyContentNode):
+            return self.schema_node.to_raw(self.value), attrs
+        for en in self:
+            e_attr = en._metadata()
+            add1 = filter.begin_element(self, en, e_attr)
+            if add1:
+                member_value = en.raw_value(filter)
+            add2 = filter.end_element(self, en, e_attr)
+            if (add1 and add2 and member_value is not None
+                    and (member_value != {} or not en._member_names())):
+                md = en._raw_metadata(e_attr)
+                if isinstance(member_value, dict):
+                    if md:
+                        member_value['@'] = md
+                else:
+                    attrs.append(md)
+                value.append(member_value)
+        return value, attrs
+
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
-        has_default_ns = False
-
         if elem is None:
             element = ET.Element(self.schema_node.name)
 
@@ -534,24 +610,20 @@ class InstanceNode:
             element = elem
 
         if isinstance(self.value, ObjectValue):
-            attr = self._get_attributes()
             for cname in self:
                 childs = list()
                 if cname[0] == '@':
                     continue
 
                 m = self[cname]
-                m_attr = attr.get(cname, {}).copy()
+                m_attr = m._metadata()
                 if filter.begin_member(self, m, m_attr):
                     sn = m.schema_node
                     dp = sn.data_parent()
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
                         for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
-                            else:
-                                e_attr = {}
+                            e_attr = en._metadata()
                             add1 = filter.begin_element(m, en, e_attr)
                             if add1:
                                 child = ET.Element(sn.name)
@@ -562,10 +634,9 @@ class InstanceNode:
                                     child.attrib['xmlns'] = module.xml_namespace  # NOQA
                                 en.to_xml(filter, child)
                             add2 = filter.end_element(m, en, e_attr)
-                            if add1 and add2:
-                                for a in e_attr:
-                                    child.attrib[a] = str(e_attr[a])
-                                childs.append(child)
+                            if add1 and add2 and (
+                                    len(child) > 0 or not en._member_names()):
+                                childs.append((child, e_attr))
                     else:
                         child = ET.Element(sn.name)
                         if not dp or dp.ns != sn.ns or isinstance(
@@ -575,16 +646,10 @@ class InstanceNode:
                                 raise MissingModuleNamespace(sn.ns)
                             child.attrib['xmlns'] = module.xml_namespace
                         m.to_xml(filter, child)
-                        childs.append(child)
+                        childs.append((child, {}))
                 if filter.end_member(self, m, m_attr):
-                    for c in childs:
-                        for a in m_attr:
-                            # should only happen if the child was no list
-                            if a == 'ietf-netconf-with-defaults:default':
-                                c.attrib['wd:default'] = str(m_attr[a])
-                                has_default_ns = True
-                            else:
-                                c.attrib[a] = str(m_attr[a])
+                    for c, c_attr in childs:
+                        m._xml_metadata({**m_attr, **c_attr}, c)
                         element.append(c)
             if elem is None and len(element) == 0:
                 return None
@@ -601,17 +666,12 @@ class InstanceNode:
                     element.attrib['xmlns:'+mid] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
-        if elem is not None:
-            return element
-        else:
-            if has_default_ns:
-                element.attrib[
-                    'xmlns:wd'] = 'urn:ietf:params:xml:ns:netconf:default:1.0'
-            return element
+        return element
 
     def _member_names(self) -> list[InstanceName]:
         if isinstance(self.value, ObjectValue):
             return [m for m in self.value if not m.startswith("@")]
+        return []
 
     def _member(self, name: InstanceName) -> "ObjectMember":
         pts = name.partition(":")
@@ -841,6 +901,12 @@ class ObjectMember(InstanceNode):
         except KeyError:
             raise NonexistentInstance(self, f"member '{name}'") from None
 
+    def _metadata(self) -> MetadataObject:
+        """Override the superclass method."""
+        res = self.siblings.get("@" + self.name, {})
+        return ({**res, **super()._metadata()} if isinstance(res, dict)
+                else {})
+
     def _zip(self) -> ObjectValue:
         """Zip the receiver into an object and return it."""
         res = ObjectValue(self.siblings.copy(), self.timestamp)
@@ -854,7 +920,13 @@ class ObjectMember(InstanceNode):
             ts = newval.timestamp
         else:
             ts = datetime.now()
-        return ObjectMember(self.name, self.siblings, newval, self.parinst,
+        siblings = self.siblings
+        metadata = siblings.get("@" + self.name)
+        if isinstance(metadata, list):
+            siblings = siblings.copy()
+            siblings["@" + self.name] = _realign_metadata(
+                self.value, metadata, newval)
+        return ObjectMember(self.name, siblings, newval, self.parinst,
                             self.schema_node, ts)
 
     def _instance_route_entry(self) -> "MemberName":
@@ -984,6 +1056,15 @@ class ArrayEntry(InstanceNode):
         return super(SequenceNode, self.schema_node).from_raw(
             value, self.json_pointer()) if raw else value
 
+    def _metadata(self) -> MetadataObject:
+        """Override the superclass method."""
+        if isinstance(self.parinst, ObjectMember):
+            md = self.parinst.siblings.get("@" + self.parinst.name)
+            if isinstance(md, list):
+                md = _realign_metadata(self.parinst.value, md, self._zip())
+                return dict(md[self.index] or {})
+        return super()._metadata()
+
     def _zip(self) -> ArrayValue:
         """Zip the receiver into an array and return it."""
         res = list(self.before)
@@ -1084,6 +1165,25 @@ def _same_scalar(val1: ScalarValue, val2: ScalarValue) -> bool:
     return type(val1) is type(val2) and val1 == val2
 
 
+def _realign_metadata(
+        old: ArrayValue, metadata: list[Optional[MetadataObject]],
+        new: ArrayValue) -> list[Optional[MetadataObject]]:
+    """Return metadata of leaf-list entries `old` that also are in `new`.
+
+    Leaf-list entries are identified by their values.
+    """
+    todo = list(zip(old, metadata)) if isinstance(old, ArrayValue) else []
+    res = []
+    for en in new if isinstance(new, ArrayValue) else ():
+        for i in range(len(todo)):
+            if _same_scalar(todo[i][0], en):
+                res.append(todo.pop(i)[1])
+                break
+        else:
+            res.append(None)
+    return res
+
+
 class MemberName:
     """Selectors of object members.
 
-- 
2.43.0


From 4167ddc66fd928db12b0198eb3693540052a1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 59/98] fix: follow the grammar of if-feature expressions

---
 yangson/schemadata.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..7ef2577 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -25,6 +25,7 @@ This module implements the following classes:
 * SchemaData: Repository of YANG schema structures and methods.
 * FeatureExprParser: Parser for if-feature expressions.
 """
+import re
 from collections.abc import MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
@@ -507,15 +508,17 @@ class SchemaData:
         iffs = stmt.find_all("if-feature")
         if not iffs:
             return True
-        for i in iffs:
-            if not FeatureExprParser(i.argument, self, mid).parse():
-                return False
-        return True
+        return all([FeatureExprParser(i.argument, self, mid).parse()
+                    for i in iffs])
 
 
 class FeatureExprParser(Parser):
     """Parser and evaluator for if-feature expressions."""
 
+    _and_re = re.compile(r"[ \n\t\r]+and[ \n\t\r]+")
+    _or_re = re.compile(r"[ \n\t\r]+or[ \n\t\r]+")
+    _not_re = re.compile(r"not[ \n\t\r]+")
+
     def __init__(self, text: str, schema_data: SchemaData,
                  mid: ModuleId) -> None:
         """Initialize the parser instance.
@@ -549,36 +552,29 @@ class FeatureExprParser(Parser):
 
     def _feature_disj(self) -> bool:
         x = self._feature_conj()
-        if self.test_string("or"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self.match_regex(self._or_re):
             return self._feature_disj() or x
         return x
 
     def _feature_conj(self) -> bool:
         x = self._feature_term()
-        if self.test_string("and"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
+        if self.match_regex(self._and_re):
             return self._feature_conj() and x
         return x
 
     def _feature_term(self) -> bool:
-        if self.test_string("not"):
-            if not self.skip_ws():
-                raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+        if self.match_regex(self._not_re):
+            return not self._feature_term()
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
         if self.peek() == "(":
             self.adv_skip_ws()
             res = self._feature_disj()
-            self.char(")")
             self.skip_ws()
+            self.char(")")
             return res
         n, p = self.prefixed_name()
-        self.skip_ws()
         try:
             mdata = self.schema_data.modules[self.mid]
         except KeyError:
-- 
2.43.0


From 36bb100eca03e92afa48bbc346f97d58041e95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 60/98] fix: identity queries leave the identity graph alone

---
 yangson/schemadata.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 7ef2577..fab0f13 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -459,25 +459,28 @@ class SchemaData:
 
     def is_derived_from(self, identity: QualName, base: QualName) -> bool:
         """Return ``True`` if `identity` is derived from `base`."""
-        try:
-            bases = self.identity_adjs[identity].bases
-        except KeyError:
-            return False
-        if base in bases:
-            return True
-        for ib in bases:
-            if self.is_derived_from(ib, base):
-                return True
+        seen = set()
+        todo = [identity]
+        while todo:
+            adj = self.identity_adjs.get(todo.pop())
+            if adj:
+                if base in adj.bases:
+                    return True
+                new = adj.bases - seen
+                seen |= new
+                todo.extend(new)
         return False
 
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
-        try:
-            res = self.identity_adjs[identity].derivs
-        except KeyError:
-            return set()
-        for id in res.copy():
-            res |= self.derived_from(id)
+        res = set()
+        todo = [identity]
+        while todo:
+            adj = self.identity_adjs.get(todo.pop())
+            if adj:
+                new = adj.derivs - res
+                res |= new
+                todo.extend(new)
         return res
 
     def derived_from_all(self,
-- 
2.43.0


From 90b5063a4322b41b34982cec41dfab868ba989a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 61/98] fix: identities of import-only modules in derivations

---
 yangson/datamodel.py | 7 +++++++
 yangson/datatype.py  | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index be02446..a324ba5 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -234,6 +234,13 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        for mid in self.schema_data.modules:
+            ns = self.schema_data.namespace(mid)
+            if ns not in self.schema_data.implement:
+                sctx = SchemaContext(self.schema_data, ns, mid)
+                mod = self.schema_data.modules[mid].statement
+                for ident in mod.find_all("identity"):
+                    self.schema._identity_stmt(ident, sctx)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/datatype.py b/yangson/datatype.py
index 8bafef5..21553b5 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -815,8 +815,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         self.bases: list[QualName] = []
 
     def __contains__(self, val: QualName) -> bool:
+        sd = self.sctx.schema_data
         for b in self.bases:
-            if not self.sctx.schema_data.is_derived_from(val, b):
+            if not (sd.is_derived_from(val, b) and val[1] in sd.implement):
                 self._set_error_info(
                     error_message=f"'{self.canonical_string(val)}'" +
                     f" not derived from '{self.canonical_string(b)}'")
@@ -890,8 +891,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
-                self.sctx.schema_data.derived_from_all(self.bases))
+            sd = self.sctx.schema_data
+            res["identities"] = sorted(
+                i for i in sd.derived_from_all(self.bases)
+                if i[1] in sd.implement)
         return res
 
 
-- 
2.43.0


From 0b17ae3110c6430a0c19f781312765bc83b70504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 62/98] fix: parameters of operations are not data nodes

---
 yangson/schemanode.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 17d88f1..387cf17 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -506,6 +506,8 @@ class InternalNode(SchemaNode):
             ns = self.ns
         todo = []
         for child in self.children:
+            if isinstance(child, SchemaTreeNode):
+                continue
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
@@ -555,10 +557,6 @@ class InternalNode(SchemaNode):
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
-                if jptr == "" and ch is None:
-                    ch = self.get_child(*cn)
-                    if not isinstance(ch, SchemaTreeNode):
-                        ch = None
                 npath = jptr + "/" + qn
                 if ch is None:
                     raise RawMemberError(npath)
@@ -598,10 +596,6 @@ class InternalNode(SchemaNode):
         qn = fqn if ns != self.ns else name
 
         ch = self.get_data_child(name, ns)
-        if jptr == "" and ch is None:
-            ch = self.get_child(name, ns)
-            if not isinstance(ch, SchemaTreeNode):
-                ch = None
         npath = jptr + "/" + qn
         if ch is None:
             raise RawMemberError(npath)
-- 
2.43.0


From db7250fae7e60dce9af49b6c448477b9d1ffc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 63/98] fix: instances of anydata and anyxml

---
 yangson/instance.py   | 12 ++++++++----
 yangson/schemanode.py |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7a4e380..22c0ef4 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -123,7 +123,8 @@ class InstanceNode:
     def __str__(self) -> str:
         """Return string representation of the receiver's value."""
         sn = self.schema_node
-        if isinstance(self.value, StructuredValue):
+        if (isinstance(self.value, StructuredValue)
+                or isinstance(sn, AnyContentNode)):
             return str(self.value)
         else:
             res = sn.type.canonical_string(self.value)
@@ -495,7 +496,8 @@ class InstanceNode:
 
     def _metadata(self) -> MetadataObject:
         """Return a copy of the receiver's own metadata."""
-        if isinstance(self.value, ObjectValue):
+        if (isinstance(self.value, ObjectValue)
+                and not isinstance(self.schema_node, AnyContentNode)):
             return dict(self.value.get("@", {}))
         return {}
 
@@ -609,6 +611,8 @@ class InstanceNode:
         else:
             element = elem
 
+        if isinstance(self.schema_node, AnyContentNode) and self.value != {}:
+            raise InstanceValueError(self, "content without a schema")
         if isinstance(self.value, ObjectValue):
             for cname in self:
                 childs = list()
@@ -754,7 +758,7 @@ class InstanceNode:
 
     def _with_defaults(self) -> "InstanceNode":
         """Return the receiver with members that exist only by default."""
-        if not isinstance(self.value, ObjectValue):
+        if not (isinstance(self.value, ObjectValue) and self.is_internal()):
             return self
         return self.schema_node._add_defaults(
             self, ContentType.all, lazy=True)
@@ -792,7 +796,7 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() or
+        return ([] if not isinstance(self.schema_node, TerminalNode) or
                 not isinstance(self.schema_node.type, LinkType) else
                 self.schema_node.type._deref(self))
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 387cf17..da6534f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1794,7 +1794,10 @@ class AnyContentNode(DataNode):
         return convert(value)
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        super().from_xml(rval, jptr)
+        """Override the superclass method."""
+        if len(rval) or rval.text:
+            raise RawTypeError(jptr, "empty content")
+        return ObjectValue()
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
                           lazy: bool = False) -> InstanceNode:
-- 
2.43.0


From 6daef3094cb8f77641eaa6e18de0d55e97de28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 64/98] fix: identify erroneous list entries

---
 yangson/schemanode.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index da6534f..09404ea 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1347,6 +1347,7 @@ class SequenceNode(DataNode):
                             for k in self.keys]
                 except AttributeError:
                     raise RawTypeError(f"{jptr}/{i}", "object")
+            if isinstance(self, ListNode) and self.keys:
                 element = "=" + ",".join(keys)
             else:
                 element = "/" + str(idx)
@@ -1357,20 +1358,12 @@ class SequenceNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "",
                  tagname: str = None, isroot: bool = False) -> ArrayValue:
         res = ArrayValue()
-        idx = 0
         if isroot:
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
-                    keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
-                    element = "=" + ",".join(keys)
-                else:
-                    element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                if isinstance(xmlchild.tag, str):
+                    self._process_xmlarray_child(res, xmlchild, tagname, jptr)
         return res
 
     def _process_xmlarray_child(
-- 
2.43.0


From 0304bb65f986f7627eb30586d02b77bd1aad1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 65/98] fix: internal errors for comments, arrays and huge
 integers

---
 yangson/instance.py   | 2 +-
 yangson/nodeset.py    | 8 ++++++--
 yangson/schemanode.py | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 22c0ef4..1440765 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -659,7 +659,7 @@ class InstanceNode:
                 return None
         elif isinstance(self.value, ArrayValue):
             # Array outside an Object doesn't make sense
-            raise NotImplementedError
+            raise InstanceValueError(self, "array outside an object")
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 65c5467..bb58c16 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -48,8 +48,12 @@ def to_number(val: XPathValue) -> float:
 
 def _node_number(node: InstanceNode) -> float:
     """Return numeric value of a terminal node."""
-    return (float(node.value) if isinstance(node.value, Number)
-            else string_to_number(str(node)))
+    if not isinstance(node.value, Number):
+        return string_to_number(str(node))
+    try:
+        return float(node.value)
+    except OverflowError:       # invalid value
+        return float("inf") if node.value > 0 else float("-inf")
 
 
 def compare(op: Callable, left: XPathValue, right: XPathValue) -> bool:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 09404ea..89ec9af 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -574,7 +574,8 @@ class InternalNode(SchemaNode):
             self._process_xmlobj_child(res, None, rval, jptr)
         else:
             for xmlchild in rval:
-                self._process_xmlobj_child(res, rval, xmlchild, jptr)
+                if isinstance(xmlchild.tag, str):
+                    self._process_xmlobj_child(res, rval, xmlchild, jptr)
         return res
 
     def _process_xmlobj_child(
-- 
2.43.0


From cbe868567cdf37c0eb8bbeef2f02c265e29ab753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 66/98] fix: augments apply whatever order they are written in

---
 yangson/datamodel.py  |  5 +++--
 yangson/schemanode.py | 27 ++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index a324ba5..bf40ac2 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -241,12 +241,13 @@ class DataModel:
                 mod = self.schema_data.modules[mid].statement
                 for ident in mod.find_all("identity"):
                     self.schema._identity_stmt(ident, sctx)
+        augments = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            augments.extend([(aug, sctx) for aug in mod.find_all("augment")])
+        self.schema._augment(augments)
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 89ec9af..37ec737 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -800,20 +800,34 @@ class InternalNode(SchemaNode):
         self._add_child(node)
         node._handle_substatements(stmt, sctx)
 
+    def _augment(self, augments: list[tuple[Statement,
+                                            SchemaContext]]) -> None:
+        """Apply **augment** statements, whatever their order."""
+        while augments:
+            rest = [a for a in augments if not self._augment_stmt(*a)]
+            if len(rest) == len(augments):
+                break           # silently ignore missing targets
+            augments = rest
+
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target doesn't exist.
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
-        if target is None:      # silently ignore missing target
-            return
+        if target is None:
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
@@ -853,8 +867,7 @@ class InternalNode(SchemaNode):
         else:
             sn = self
         sn._handle_substatements(grp, gid)
-        for augst in stmt.find_all("augment"):
-            sn._augment_stmt(augst, sctx)
+        sn._augment([(augst, sctx) for augst in stmt.find_all("augment")])
         for refst in stmt.find_all("refine"):
             sn._refine_stmt(refst, sctx)
 
-- 
2.43.0


From 181bddd85313f0a793884832f29d71cb5134b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 67/98] fix: parent axis of a leafref path inside a
 notification or operation

---
 yangson/schemanode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 37ec737..fe22881 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -297,9 +297,11 @@ class SchemaNode:
             return lft._follow_leafref(xpath.right, init)
         elif isinstance(xpath, Step):
             if xpath.axis == Axis.parent:
-                if isinstance(self, SchemaTreeNode):
-                    return None
-                return self.data_parent() or self.schema_root()
+                sn = self.parent
+                while sn and sn.parent and not isinstance(
+                        sn, (DataNode, NotificationNode)):
+                    sn = sn.parent
+                return sn
             elif xpath.axis == Axis.child:
                 if isinstance(self, InternalNode) and xpath.qname:
                     qname = (xpath.qname if xpath.qname[1]
-- 
2.43.0


From 09b8a8a7eb9129b52b2c3898292a9339fc1fe8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 68/98] fix: config true in refine and deviate replace

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index fe22881..b265fa1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -315,8 +315,8 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        if stmt.argument == "false":
-            self._ctype = ContentType.nonconfig
+        self._ctype = (ContentType.nonconfig if stmt.argument == "false"
+                       else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From 246a6ffca8cec19ff2f69046c43817da72c3dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 69/98] fix: deviate delete of must compares expressions, not
 their printouts

---
 yangson/schemanode.py |  4 ++--
 yangson/xpathast.py   | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b265fa1..6d65afc 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -354,9 +354,9 @@ class SchemaNode:
                 self.must = []
             self._must_stmt(stmt, sctx)
         elif action == "delete":
-            mstr = str(XPathParser(stmt.argument, sctx).parse())
+            mex = XPathParser(stmt.argument, sctx).parse()
             for i in range(len(self.must)):
-                if str(self.must[i].expression) == mstr:
+                if self.must[i].expression == mex:
                     del self.must[i]
                     return
 
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index e661400..ea52ec9 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -64,6 +64,10 @@ class Expr:
         """Return a string representation of the receiver."""
         raise NotImplementedError
 
+    def __eq__(self, other: object) -> bool:
+        """Compare the receiver with another expression."""
+        return self.__class__ is other.__class__ and vars(self) == vars(other)
+
     def evaluate(self, node: InstanceNode) -> XPathValue:
         """Evaluate the receiver and return the result.
 
@@ -623,9 +627,24 @@ class FuncDerivedFrom(BinaryExpr):
         self.or_self = or_self
         self.sctx = sctx
 
+    def __eq__(self, other: object) -> bool:
+        """Override the superclass method."""
+        if not (self.__class__ is other.__class__ and
+                self.or_self == other.or_self and self.left == other.left):
+            return False
+        if isinstance(self.right, Literal) and isinstance(
+                other.right, Literal):
+            return self._identity(self.right.value) == other._identity(
+                other.right.value)
+        return (self.right == other.right and
+                self.sctx.text_mid == other.sctx.text_mid)
+
     def _xfunc_name(self) -> str:
         return ("derived-from-or-self" if self.or_self else "derived-from")
 
+    def _identity(self, name: str) -> QualName:
+        return self.sctx.schema_data.translate_pname(name, self.sctx.text_mid)
+
     def _properties_str(self) -> str:
         return ("OR-SELF, " if self.or_self
                 else "") + self.sctx.schema_data.namespace(self.mid)
@@ -634,8 +653,7 @@ class FuncDerivedFrom(BinaryExpr):
         ns = self.left._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        i = self.sctx.schema_data.translate_pname(
-            self.right._eval_string(xctx), self.sctx.text_mid)
+        i = self._identity(self.right._eval_string(xctx))
         for n in ns:
             if not n.schema_node._is_identityref():
                 continue
-- 
2.43.0


From 1224d76b7c3b6ca24a7ba6cc6828810eba906313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 70/98] fix: instance names and data parents of operations and
 notifications

---
 yangson/schemanode.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6d65afc..577669a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1846,9 +1846,9 @@ class RpcActionNode(SchemaTreeNode):
         """Override the superclass method."""
         return super(GroupNode, self).iname()
 
-    def data_parent(self) -> None:
+    def data_parent(self) -> Optional["InternalNode"]:
         """Override the superclass method."""
-        return self.parent
+        return super(GroupNode, self).data_parent()
 
     def _handle_substatements(self, stmt: Statement,
                               sctx: SchemaContext) -> None:
@@ -1934,6 +1934,14 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def iname(self) -> InstanceName:
+        """Override the superclass method."""
+        return super(GroupNode, self).iname()
+
+    def data_parent(self) -> Optional["InternalNode"]:
+        """Override the superclass method."""
+        return super(GroupNode, self).data_parent()
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From 06510cb071da4b17e9208ed017348b9a7f4c4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 71/98] fix: refine replaces descriptions and all leaf-list
 defaults

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 577669a..2b24e88 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -850,6 +850,9 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            target._get_description(stmt)
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 43be952f164e5742e1e48384ef7b99df585d18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 72/98] fix: default values are resolved in the module that
 defines them

---
 yangson/schemanode.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2b24e88..5c3d7bc 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1696,14 +1696,14 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(*self._default)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
         return res if no_type else f"{res} <{self.type}>"
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self._default = stmt.argument
+        self._default = (stmt.argument, sctx)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1736,9 +1736,8 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if self._default is None:
-            self._default = [stmt.argument]
-        else:
-            self._default.append(stmt.argument)
+            self._default = []
+        self._default.append((stmt.argument, sctx))
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1747,17 +1746,21 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
+            def key(text, ctx):
+                return (self.type.from_yang(text, ctx)
+                        if self._is_identityref() else text)
+            dflt = self._default or []
+            for i in range(len(dflt)):
+                if key(*dflt[i]) == key(stmt.argument, sctx):
+                    del dflt[i]
+                    self._default = dflt or None
                     return
 
     def _post_process(self) -> None:
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(*d) for d in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From e947c9c419914a401fa57a5c36921331d784e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 73/98] fix: data node lookup of the root and below leaves

---
 yangson/datamodel.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index bf40ac2..ec54872 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -186,14 +186,12 @@ class DataModel:
             InvalidSchemaPath: If the schema path is invalid.
         """
         addr = self.schema_data.path2route(path)
-        node: InternalNode = self.schema
+        node: SchemaNode = self.schema
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
-        return child
+            node = node.get_data_child(*p)
+        return node
 
     def ascii_tree(self, no_types: bool = False,
                    val_count: bool = False) -> str:
-- 
2.43.0


From de4e219a2bfa6d6b789325050ae3f82a8efb9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 74/98] fix: positions of bits in the schema digest

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 21553b5..6135abf 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -373,6 +373,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From 469e91cc52b7f4954ca09da2f34c3d18958b2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 75/98] fix: state roots above anydata and anyxml

---
 yangson/schemanode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5c3d7bc..33818a2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1824,6 +1824,9 @@ class AnyContentNode(DataNode):
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return [] if self.content_type() == ContentType.config else [self]
+
     def _post_process(self) -> None:
         if self._mandatory:
             self.parent._add_mandatory_child(self)
-- 
2.43.0


From ddbf69d6faff8c18128bb1ebba05e99993596717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 76/98] fix: namespaces of conditional nodes in the tree
 diagram

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 33818a2..41d3bb7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -237,7 +237,10 @@ class SchemaNode:
 
     def _tree_name(self) -> str:
         """Return the receiver's name to be displayed in ASCII tree."""
-        return cast(str, self.name if self.parent and self.ns == self.parent.ns
+        parent = self.parent
+        while parent and parent.name is None:   # skip groups
+            parent = parent.parent
+        return cast(str, self.name if parent and self.ns == parent.ns
                     else f"{self.ns}:{self.name}")
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
-- 
2.43.0


From f0665dc8abf16e859315b41e4de1d60afa4f791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 77/98] fix: actions of conditional groups in the schema digest

---
 yangson/schemanode.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 41d3bb7..68b4ce4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -666,7 +666,7 @@ class InternalNode(SchemaNode):
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
+        for c in self._operations():
             rc[c.iname()] = c._node_digest()
         return res
 
@@ -762,6 +762,16 @@ class InternalNode(SchemaNode):
                 inst = c._add_defaults(inst, ctype, lazy)
         return inst
 
+    def _operations(self) -> list["SchemaTreeNode"]:
+        """Return receiver's RPCs, actions and notifications."""
+        res = []
+        for c in self.children:
+            if isinstance(c, SchemaTreeNode):
+                res.append(c)
+            elif isinstance(c, GroupNode):
+                res.extend(c._operations())
+        return res
+
     def _cases(self) -> list["CaseNode"]:
         """Return all cases of a choice, including those in groups."""
         res = []
-- 
2.43.0


From 170cd2006e18230a7988675d55896be95326759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 78/98] fix: leaf-list defaults in the schema digest

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 68b4ce4..6668820 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1182,7 +1182,9 @@ class TerminalNode(SchemaNode):
         res["type"] = self.type._type_digest(self.config)
         df = self.default
         if df is not None:
-            res["default"] = self.type.to_raw(df)
+            res["default"] = (
+                [self.type.to_raw(v) for v in df]
+                if isinstance(df, ArrayValue) else self.type.to_raw(df))
         if self.units:
             res["units"] = self.units
         return res
-- 
2.43.0


From 50011c6bbbd44f3418a3c193f5f80aaceb2da30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 79/98] fix: status of a grouping or augment is not that of its
 parent

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6668820..b633648 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -322,6 +322,8 @@ class SchemaNode:
                        else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
+        if stmt.superstmt.keyword in ("augment", "grouping"):
+            return              # not a status of the receiver
         if stmt.argument == "deprecated":
             nst = NodeStatus.deprecated
         elif stmt.argument == "obsolete":
-- 
2.43.0


From 95a27abab843e46e1e4bf1752bf2c97490e81bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 80/98] fix: deprecated and obsolete nodes do not make
 containers mandatory

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index b633648..67fd8b1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -750,6 +750,8 @@ class InternalNode(SchemaNode):
 
     def _add_mandatory_child(self, node: SchemaNode) -> None:
         """Add `node` to the set of mandatory children."""
+        if node._status in (NodeStatus.deprecated, NodeStatus.obsolete):
+            return
         if node.mandatory_config:
             self._mandatory_children[1].add(node)
         else:
@@ -1267,7 +1269,7 @@ class ContainerNode(DataNode, InternalNode):
     def _add_mandatory_child(self, node: SchemaNode):
         propagate = not (self.presence or self.mandatory)
         super()._add_mandatory_child(node)
-        if propagate:
+        if propagate and self.mandatory:
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
-- 
2.43.0


From 982db2613f5953e82f2aae6c2fea49bb95996d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 81/98] fix: no defaults and no cases that are obsolete

---
 yangson/instance.py   |  2 ++
 yangson/schemanode.py | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1440765..60ac128 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -736,6 +736,8 @@ class InstanceNode:
             iname = cn.iname()
             if iname in self.value:
                 return self._member(iname)._node_set()
+            if cn._removed:
+                return []
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 67fd8b1..cdfd2e6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -130,6 +130,11 @@ class SchemaNode:
         """Return receiver's definition status."""
         return self._status if self._status else self.parent.status
 
+    @property
+    def _removed(self) -> bool:
+        """Is the receiver obsolete and thus removed from the schema?"""
+        return self._status == NodeStatus.obsolete
+
     def delete(self) -> None:
         """Remove the receiver from the schema."""
         self.parent.children.remove(self)
@@ -734,8 +739,7 @@ class InternalNode(SchemaNode):
 
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
-            isinstance(c, (RpcActionNode, NotificationNode)) or
-            c._status == NodeStatus.obsolete)]
+            isinstance(c, (RpcActionNode, NotificationNode)) or c._removed)]
         if not todo:
             return Empty()
         prev = todo[0]._pattern_entry()
@@ -760,6 +764,8 @@ class InternalNode(SchemaNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         for c in self.filter_children(ctype):
+            if c._removed:
+                continue
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
@@ -795,7 +801,7 @@ class InternalNode(SchemaNode):
         """
         sn = self
         while sn is not anc:
-            if sn.when and not sn.when.holds(inst):
+            if sn._removed or sn.when and not sn.when.holds(inst):
                 return False
             sn = sn.parent
         return True
@@ -1014,7 +1020,8 @@ class GroupNode(InternalNode):
             return super()._schema_pattern()
         prev = NotAllowed()     # the receiver contains cases
         for c in self.children:
-            prev = Alternative.combine(c._schema_pattern(), prev)
+            if not c._removed:
+                prev = Alternative.combine(c._schema_pattern(), prev)
         return ConditionalPattern(prev, self.when) if self.when else prev
 
     def _flatten(self) -> list[SchemaNode]:
@@ -1630,10 +1637,11 @@ class ChoiceNode(InternalNode):
                     return c
 
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        cases = [c for c in self.children if not c._removed]
+        if not cases:
             return Empty()
         prev = NotAllowed()
-        for c in self.children:
+        for c in cases:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
-- 
2.43.0


From a161df626f282b80e630f97e8b21187250ef9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 82/98] fix: order of modules independent of hash seed, import
 cycles through import-only modules

---
 yangson/schemadata.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index fab0f13..ea04138 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -188,8 +188,7 @@ class SchemaData:
                     with open(fn, encoding='utf-8') as infile:
                         res = ModuleParser(infile.read(), name, rev).parse()
                         mdata.path = fn
-                except (FileNotFoundError, PermissionError,
-                        ModuleContentMismatch):
+                except (OSError, ModuleContentMismatch):
                     run += 1
                     continue
                 return res
@@ -197,12 +196,11 @@ class SchemaData:
 
     def _process_imports(self) -> None:
         impl = set(self.implement.items())
-        if len(impl) == 0:
-            return
-        deps = {mid: set() for mid in impl}
-        impby = {mid: set() for mid in impl}
+        deps = {md.main_module: set() for md in self.modules.values()}
+        impby = {mid: set() for mid in deps}
         for mid in self.modules:
             mod = self.modules[mid].statement
+            mm = self.modules[mid].main_module
             for impst in mod.find_all("import"):
                 impn = impst.argument
                 prefix = impst.find1("prefix", required=True).argument
@@ -214,18 +212,17 @@ class SchemaData:
                 else:                              # use last revision
                     imid = self.last_revision(impn)
                 self.modules[mid].prefix_map[prefix] = imid
-                mm = self.modules[mid].main_module
-                if mm in impl and imid in impl:
-                    deps[mm].add(imid)
-                    impby[imid].add(mm)
-        free = [mid for mid in deps if len(deps[mid]) == 0]
-        if not free:
-            raise CyclicImports()
+                imm = self.modules[imid].main_module
+                deps[mm].add(imm)
+                impby[imm].add(mm)
+        free = sorted([mid for mid in deps if len(deps[mid]) == 0])
         while free:
             nid = free.pop()
-            self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
-            for mid in impby[nid]:
+            if nid in impl:
+                self._module_sequence.append(nid)
+                self._module_sequence.extend(
+                    sorted(self.modules[nid].submodules))
+            for mid in sorted(impby[nid]):
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
                     free.append(mid)
-- 
2.43.0


From ee89d45ae87b04afd85a6c86236fbc5d312ddf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 83/98] fix: included submodules have to be listed in YANG
 library

---
 yangson/schemadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index ea04138..52ab5d9 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -215,6 +215,13 @@ class SchemaData:
                 imm = self.modules[imid].main_module
                 deps[mm].add(imm)
                 impby[imm].add(mm)
+            for incst in mod.find_all("include"):
+                revst = incst.find1("revision-date")
+                if not [s for s in self.modules[mm].submodules
+                        if s[0] == incst.argument and
+                        (not revst or s[1] == revst.argument)]:
+                    raise ModuleNotRegistered(
+                        incst.argument, revst.argument if revst else "")
         free = sorted([mid for mid in deps if len(deps[mid]) == 0])
         while free:
             nid = free.pop()
-- 
2.43.0


From b62898e1eb0eef636fa005dab721baece9ab3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 84/98] fix: revision statements in any order

---
 yangson/statement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..b09d54a 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -159,8 +159,8 @@ class ModuleParser(Parser):
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
             raise ModuleNameMismatch(res.argument, self.name)
-        revst = res.find1("revision")
-        modrev = revst.argument if revst else ""
+        modrev = max([r.argument for r in res.find_all("revision")],
+                     default="")
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
         try:
-- 
2.43.0


From f73708c7dd4eebdbdbdfbed99604593f49d13876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 85/98] fix: YANG library data of wrong types are rejected with
 BadYangLibraryData

---
 yangson/datamodel.py  | 11 +++++++----
 yangson/schemadata.py | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index ec54872..5d5b447 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -87,10 +87,13 @@ class DataModel:
         self.schema = SchemaTreeNode(self.schema_data)
         self.schema._ctype = ContentType.all
         self._build_schema()
-        self.schema.description = description if description else (
-            "Data model ID: " +
-            self.yang_library["ietf-yang-library:modules-state"]
-            ["module-set-id"])
+        try:
+            self.schema.description = description if description else (
+                "Data model ID: " +
+                self.yang_library["ietf-yang-library:modules-state"]
+                ["module-set-id"])
+        except KeyError as e:
+            raise BadYangLibraryData("missing " + str(e)) from None
 
     def module_set_id(self) -> str:
         """Compute unique id of YANG modules comprising the data model.
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 52ab5d9..e6eca15 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -128,6 +128,7 @@ class SchemaData:
             ModuleNotFound: If a YANG module wasn't found in any of the
                 directories specified in `mod_path`.
         """
+        self._check_yang_library(yang_lib)
         try:
             for item in yang_lib["ietf-yang-library:modules-state"]["module"]:
                 name = item["name"]
@@ -172,6 +173,45 @@ class SchemaData:
         self._process_imports()
         self._check_feature_dependences()
 
+    @staticmethod
+    def _check_yang_library(yang_lib: dict[str, Any]) -> None:
+        """Check types of YANG library data.
+
+        Args:
+            yang_lib: Dictionary with YANG library data.
+
+        Raises:
+            BadYangLibraryData: If the type of an item is incorrect.
+        """
+        def check(val: Any, typ: type, name: str) -> None:
+            if not isinstance(val, typ):
+                raise BadYangLibraryData("invalid " + repr(name))
+
+        def members(obj: dict[str, Any], typ: type, *names: str) -> None:
+            for n in names:
+                if n in obj:
+                    check(obj[n], typ, n)
+
+        check(yang_lib, dict, "ietf-yang-library:modules-state")
+        state = yang_lib.get("ietf-yang-library:modules-state", {})
+        check(state, dict, "ietf-yang-library:modules-state")
+        members(state, str, "module-set-id")
+        members(state, list, "module")
+        for item in state.get("module", []):
+            check(item, dict, "module")
+            members(item, str, "name", "revision", "namespace",
+                    "conformance-type")
+            if item.get("conformance-type", "import") not in (
+                    "implement", "import"):
+                raise BadYangLibraryData("invalid 'conformance-type'")
+            members(item, bool, "yangson-yl:keep-obsolete")
+            members(item, list, "feature", "submodule")
+            for f in item.get("feature", []):
+                check(f, str, "feature")
+            for s in item.get("submodule", []):
+                check(s, dict, "submodule")
+                members(s, str, "name", "revision", "namespace")
+
     def _load_module(self, name: YangIdentifier,
                      rev: RevisionDate, mdata: ModuleData) -> Statement:
         """Read and parse a YANG module or submodule."""
-- 
2.43.0


From 6b749ee6e1003beb3d13a49a2677930a347af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 86/98] fix: unquoted arguments may end with a slash, and end
 before a brace or comment

---
 yangson/statement.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index b09d54a..721e22e 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -355,21 +355,25 @@ class ModuleParser(Parser):
             EndOfInput: If past the end of input.
         """
         start = self.offset
+        ends = {c: lambda: -1 for c in "; \t\r\n{}"}
         self.dfa([
             {  # state 0: argument
                 "": lambda: 0,
-                ";": lambda: -1,
-                " ": lambda: -1,
-                "\t": lambda: -1,
-                "\r": lambda: -1,
-                "\n": lambda: -1,
-                "{": lambda: -1,
-                '/': lambda: 1
+                **ends,
+                "/": lambda: 1,
+                "*": lambda: 2
             },
-            {  # state 1: comment?
+            {  # state 1: start comment?
                 "": lambda: 0,
                 "/": self._back_break,
-                "*": self._back_break
+                "*": self._back_break,
+                **ends
+            },
+            {  # state 2: end comment?
+                "": lambda: 0,
+                "/": self._back_break,
+                "*": lambda: 2,
+                **ends
             }])
         self._arg = self.input[start:self.offset]
 
-- 
2.43.0


From 029ca44298704da7b01004a376e24c140c259e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 87/98] fix: module texts with unfinished final comment,
 illegal characters or prefixed top-level keyword are rejected

---
 yangson/statement.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 721e22e..ecc1a39 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,6 +22,7 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
+import re
 from typing import Final, Optional
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
@@ -128,6 +129,16 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    illegal_re = re.compile(
+        "[\\x00-\\x08\\x0b\\x0c\\x0e-\\x1f\\ud800-\\udfff\\ufdd0-\\ufdef" +
+        "".join([chr(p + q) for p in range(0, 0x110000, 0x10000)
+                 for q in (0xfffe, 0xffff)]) + "]")
+    """Regular expression for characters not allowed in YANG modules."""
+
+    trailer_re = re.compile(
+        r"([ \t\n]|\r\n|//[^\n]*(\n|\Z)|/\*([^*]|\*(?!/))*\*/)*")
+    """Regular expression for separators after the top-level statement."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -151,10 +162,14 @@ class ModuleParser(Parser):
                 `self.rev`.
             UnexpectedInput: If top-level statement isn't ``(sub)module``.
         """
+        bad = self.illegal_re.search(self.input)
+        if bad:
+            self.offset = bad.start()
+            raise UnexpectedInput(self, "character allowed in YANG modules")
         self.opt_separator()
         start = self.offset
         res = self.statement()
-        if res.keyword not in ["module", "submodule"]:
+        if res.prefix or res.keyword not in ["module", "submodule"]:
             self.offset = start
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
@@ -163,10 +178,9 @@ class ModuleParser(Parser):
                      default="")
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
-        try:
-            self.opt_separator()
-        except EndOfInput:
+        if self.trailer_re.fullmatch(self.input, self.offset):
             return res
+        self.opt_separator()
         raise UnexpectedInput(self, "end of input")
 
     def _back_break(self) -> int:
-- 
2.43.0


From d3bd2739fe4109cbf06d71fa31f40af65703ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 88/98] fix: double-quoted arguments: strip layout whitespace,
 reject bad escapes with position, no recursion

---
 yangson/statement.py | 92 ++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index ecc1a39..04cd848 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -194,13 +194,18 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
+        chop = text.split("\\")
+        res = chop.pop(0)
+        parts = iter(chop)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
-        except KeyError:
+            for p in parts:
+                if p:
+                    res += cls.unescape_map[p[0]] + p[1:]
+                else:                            # escaped backslash
+                    res += "\\" + next(parts)
+        except (KeyError, StopIteration):
             raise InvalidArgument(text) from None
+        return res
 
     def opt_separator(self) -> bool:
         """Parse an optional separator and return ``True`` if found.
@@ -303,30 +308,30 @@ class ModuleParser(Parser):
         Return ``True`` if the argument is followed by block of substatements.
         """
         next = self.peek()
-        if next == "'":
-            quoted = True
-            self.sq_argument()
-        elif next == '"':
-            quoted = True
-            self.dq_argument()
-        elif self._arg == "":
-            quoted = False
+        if next not in ("'", '"'):
             self.unq_argument()
-        else:
-            raise UnexpectedInput(self, "single or double quote")
-        self.opt_separator()
-        next = self.peek()
-        if next == ";":
-            return False
-        if next == "{":
-            return True
-        elif quoted and next == "+":
+            self.opt_separator()
+            return self._block_follows("';' or '{'")
+        while True:
+            if next == "'":
+                self.sq_argument()
+            elif next == '"':
+                self.dq_argument()
+            else:
+                raise UnexpectedInput(self, "single or double quote")
+            self.opt_separator()
+            if self.peek() != "+":
+                return self._block_follows("';', '{' or '+'")
             self.offset += 1
             self.opt_separator()
-            return self.argument()
-        else:
-            raise UnexpectedInput(self, "';', '{'" +
-                                  (" or '+'" if quoted else ""))
+            next = self.peek()
+
+    def _block_follows(self, expected: str) -> bool:
+        """Return ``True`` if ``{`` comes next, and ``False`` for ``;``."""
+        next = self.peek()
+        if next not in (";", "{"):
+            raise UnexpectedInput(self, expected)
+        return next == "{"
 
     def sq_argument(self) -> str:
         """Parse single-quoted argument.
@@ -346,6 +351,10 @@ class ModuleParser(Parser):
         def escape():
             self._escape = True
             return 1
+
+        def illegal():
+            self.offset -= 1
+            raise UnexpectedInput(self, "escape sequence")
         self._escape = False                 # any escaped chars?
         self.offset += 1
         start = self.offset
@@ -356,12 +365,37 @@ class ModuleParser(Parser):
                 "\\": escape
             },
             {  # state 1: after escape
-                "": lambda: 0
+                "": illegal,
+                **{c: lambda: 0 for c in self.unescape_map}
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        text = self._strip_layout(start)
+        self._arg += self.unescape(text) if self._escape else text
         self.offset += 1
 
+    def _strip_layout(self, start: int) -> str:
+        """Return double-quoted text with layout whitespace stripped.
+
+        Args:
+            start: Offset of the first character after the initial quote.
+        """
+        lines = self.input[start:self.offset].split("\n")
+        if len(lines) == 1:
+            return lines[0]
+        margin = len(self.input[self.input.rfind("\n", 0, start) + 1:start]
+                     .replace("\t", 8 * " "))
+        for i, line in enumerate(lines):
+            if i > 0:                          # strip indentation
+                cut = width = 0
+                while width < margin and line[cut:cut+1] in (" ", "\t"):
+                    width += 8 if line[cut] == "\t" else 1
+                    cut += 1
+                line = " " * (width - margin) + line[cut:]
+            if i < len(lines) - 1:             # strip trailing whitespace
+                line = (line[:-1].rstrip(" \t") + "\r"
+                        if line.endswith("\r") else line.rstrip(" \t"))
+            lines[i] = line
+        return "\n".join(lines)
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From ca48b698668ed134ebb71c64a27679f206507dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 89/98] fix: command line exits with the documented status for
 all input problems

---
 yangson/__main__.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..d869870 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -30,7 +30,7 @@ from yangson.exceptions import (
     BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
     MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
     NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -59,7 +59,8 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         validate: Name of file to validate against the schema.
 
     Returns:
-        Numeric return code (0=no error, 2=YANG error, 1=other)
+        Numeric return code (0=no error, 1=problem with files,
+        2=YANG library or data model problem, 3=validation failed)
     """
     if infile is None:
         parser = argparse.ArgumentParser(
@@ -127,14 +128,18 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
+        except Exception as e:    # damaged data may raise anything
             print("Pickle file:", str(e), file=sys.stderr)
             return 1
+        if not isinstance(dm, DataModel):
+            print("Pickle file: not a data model", file=sys.stderr)
+            return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+            json.loads(yl)
+        except (OSError, UnicodeDecodeError,
                 json.decoder.JSONDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
@@ -157,6 +162,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except (YangsonException, UnicodeDecodeError) as e:
+            print("Invalid data model:", type(e).__name__, str(e),
+                  file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
@@ -167,18 +176,19 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         print(dm.schema_digest())
         return 0
     if dump:
-        with open(dump, "wb") as pif:
-            try:
+        try:
+            with open(dump, "wb") as pif:
                 pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
-                return 0
-            except pickle.PicklingError as e:
-                print("Pickling failed:", str(e), file=sys.stderr)
+            return 0
+        except (OSError, pickle.PicklingError) as e:
+            print("Pickling failed:", str(e), file=sys.stderr)
+            return 1
     if not validate:
         return 0
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
+    except (OSError, UnicodeDecodeError,
             json.decoder.JSONDecodeError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
@@ -197,6 +207,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Invalid instance data:", str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
@@ -208,6 +221,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except YangTypeError as e:
         print("Invalid type:", str(e), file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Validation failed:", str(e), file=sys.stderr)
+        return 3
     return 0
 
 
-- 
2.43.0


From bdf21862cdad39ef9dc5dbacad29c7cd3902fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 90/98] fix: convert8525 handles deviations, empty and repeated
 lists, and reports all input problems

---
 yangson/convert8525.py | 55 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..3f17bfe 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -29,8 +29,7 @@ import sys
 from typing import cast, Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType
-from yangson.exceptions import (
-    NonexistentInstance, ValidationError, RawDataError)
+from yangson.exceptions import NonexistentInstance, YangsonException
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -123,8 +122,15 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
-        """Initialize the receiver."""
+    def __init__(self, val: ObjectValue, import_only: bool,
+                 revisions: dict[str, str]) -> None:
+        """Initialize the receiver.
+
+        Args:
+            val: Module entry of a module set.
+            import_only: Flag for import-only modules.
+            revisions: Revisions of implemented modules of the module set.
+        """
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,13 +141,8 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
-                dmod = dev._deref()[0]
-                try:
-                    rev = dmod.sibling("revision").value
-                except NonexistentInstance:
-                    rev = ""
-                self.deviation.append((dmod.value, rev))
+            self.deviation = [
+                (d, revisions[d]) for d in dict.fromkeys(val["deviation"])]
 
     def add_submodule(self, sub_entry: ObjectValue):
         """Add submodule defined in an RFC 8525 submodule entry."""
@@ -197,17 +198,23 @@ def main() -> int:
     datastore: str = args.datastore
     schema: Optional[str] = args.schema
     sp = path if path else os.environ.get("YANG_MODPATH", ".")
-    dm8525 = DataModel(YL8525, sp.split(":"))
     try:
-        with open(fn8525) as infile:
+        dm8525 = DataModel(YL8525, sp.split(":"))
+        dm7895 = DataModel(YL7895, sp.split(":"))
+    except YangsonException as e:
+        print("YANG library modules:", type(e).__name__, str(e),
+              file=sys.stderr)
+        return 1
+    try:
+        with open(fn8525, encoding="utf-8") as infile:
             ri = json.load(infile)
         inst = dm8525.from_raw(ri)
         inst.validate(ctype=ContentType.nonconfig)
-    except (FileNotFoundError, PermissionError, json.decoder.JSONDecodeError,
-            RawDataError, ValidationError) as e:
+        top = inst["ietf-yang-library:yang-library"]
+    except (OSError, UnicodeDecodeError, json.decoder.JSONDecodeError,
+            YangsonException) as e:
         print("Invalid input data:", str(e), file=sys.stderr)
         return 1
-    top = inst["ietf-yang-library:yang-library"]
     if schema is None:
         try:
             schema = cast(str, top["datastore"].look_up(
@@ -217,22 +224,24 @@ def main() -> int:
                   file=sys.stderr)
             return 2
     try:
-        msets = top["schema"].look_up(name=schema)["module-set"]
+        sentry = top["schema"].look_up(name=schema)
     except NonexistentInstance:
         print(f"No such schema: '{schema}'", file=sys.stderr)
         return 2
     modules: dict[tuple[str, str], MainModuleData] = {}
-    for ms in msets:
-        msentry = top["module-set"].look_up(name=ms.value)
+    for ms in sentry.value.get("module-set", []):
+        msentry = top["module-set"].look_up(name=ms)
+        revs: dict[str, str] = {}
         if "module" in msentry:
+            revs = {yam.value["name"]: yam.value.get("revision", "")
+                    for yam in msentry["module"]}
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam.value, False, revs)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-                ment = MainModuleData(yam.value, import_only=True)
+                ment = MainModuleData(yam.value, True, revs)
                 modules[ment.key()] = ment
-    dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
          {"module-set-id": cast(str, top["content-id"].value)}})
@@ -242,7 +251,7 @@ def main() -> int:
     res.validate(ctype=ContentType.nonconfig)
     try:
         outf = open(fn7895, mode="w") if args.output else sys.stdout
-    except FileNotFoundError as e:
+    except OSError as e:
         print(e, file=sys.stderr)
         return 3
     json.dump(res.raw_value(), outf, indent=2)
-- 
2.43.0


From 344fe8a8fe2190f8be35ef78907261c672cbc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 91/98] fix: mkylib: one submodule with schema nodes is enough,
 and so is a choice, anydata, anyxml or uses

---
 tools/python/mkylib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/python/mkylib.py b/tools/python/mkylib.py
index bc7caf4..bb0d308 100644
--- a/tools/python/mkylib.py
+++ b/tools/python/mkylib.py
@@ -16,7 +16,8 @@ from yangson.statement import ModuleParser
 
 ydir = sys.argv[1]
 """Name of the directory with YANG (sub)modules."""
-data_kws = ["augment", "container", "leaf", "leaf-list", "list", "rpc", "notification", "identity", "deviation"]
+data_kws = ["augment", "container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml", "uses",
+            "rpc", "notification", "identity", "deviation"]
 """Keywords of statements that contribute nodes to the schema tree."""
 modmap = {}
 """Dictionary for collecting module data."""
@@ -90,7 +91,7 @@ def main():
             else:
                 print(f"Submodule {subm} revision mismatch.", file=sys.stderr)
                 return 1
-            imp_only = imp_only or srec["import-only"]
+            imp_only = imp_only and srec["import-only"]
             fts += srec["features"]
             sarr.append(sen)
         if fts:
-- 
2.43.0


From fe613bb941ba01c4c44ab0fc73aa2d109521f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 92/98] fix: error information of data types is kept separately
 for each thread

---
 yangson/datatype.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 6135abf..a8bd50c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -46,11 +46,14 @@ This module implements the following classes:
 from abc import ABC, abstractmethod
 import base64
 import binascii
+from collections.abc import MutableMapping
 import decimal
+import threading
 import xml.etree.ElementTree as ET
 import re
 from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
+from weakref import WeakKeyDictionary
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
@@ -70,6 +73,17 @@ if TYPE_CHECKING:
     from .schemanode import TerminalNode
 
 
+class _ErrorInfo(threading.local):
+    """Error information of data types, separate for each thread."""
+
+    def __init__(self) -> None:
+        self.types: MutableMapping[
+            "DataType", tuple[str, str]] = WeakKeyDictionary()
+
+
+_error_info = _ErrorInfo()
+
+
 class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
@@ -82,10 +96,18 @@ class DataType(ABC, Generic[S, RS]):
         self.default: Optional[S] = None
         self._default_def: Optional[tuple[str, SchemaContext]] = None
         self.name = name
-        self.error_tag: Optional[str] = None
-        self.error_message: Optional[str] = None
         self.units: Optional[str] = None
 
+    @property
+    def error_tag(self) -> Optional[str]:
+        """Error tag of the last failed check in the current thread."""
+        return _error_info.types.get(self, (None, None))[0]
+
+    @property
+    def error_message(self) -> Optional[str]:
+        """Error message of the last failed check in the current thread."""
+        return _error_info.types.get(self, (None, None))[1]
+
     @abstractmethod
     def __contains__(self, val: S) -> bool:
         """Return ``True`` if the receiver type contains `val`.
@@ -179,9 +201,9 @@ class DataType(ABC, Generic[S, RS]):
 
     def _set_error_info(self, error_tag: Optional[str] = None,
                         error_message: Optional[str] = None):
-        self.error_tag = error_tag if error_tag else "invalid-type"
-        self.error_message = (error_message if error_message else
-                              "expected " + str(self))
+        _error_info.types[self] = (
+            error_tag if error_tag else "invalid-type",
+            error_message if error_message else "expected " + str(self))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
-- 
2.43.0


From 0685961909fc51f38002df4aaa582e90408202d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 93/98] fix: schema patterns that are being built aren't used
 by other threads

---
 yangson/schemanode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index cdfd2e6..62a83b2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -732,10 +732,11 @@ class InternalNode(SchemaNode):
 
     def _make_schema_patterns(self) -> None:
         """Build schema pattern for the receiver and its data descendants."""
-        self.schema_pattern = self._schema_pattern()
         for dc in self.data_children():
             if isinstance(dc, InternalNode):
                 dc._make_schema_patterns()
+        # the last step: other threads take it as the sign of completeness
+        self.schema_pattern = self._schema_pattern()
 
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
-- 
2.43.0


From b7adcd3efc298ef07becc67e104150d32238caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 94/98] fix: distinguish equal values of different types in
 look_up and merge

---
 yangson/instance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 60ac128..3132a5e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -264,7 +264,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if not _same_scalar(en[k], keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -331,14 +331,14 @@ class InstanceNode:
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
         inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
-            inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
+            old = {(type(en), en) for en in self.value}
+            inst.value += [en for en in value if (type(en), en) not in old]
             return inst
         keys = self.schema_node._key_members
 
         def key_values(en: ObjectValue) -> Optional[tuple]:
             if keys and all(k in en for k in keys):
-                return tuple([en[k] for k in keys])
+                return tuple([(type(en[k]), en[k]) for k in keys])
 
         mki = {}
         for i in range(len(value)):
-- 
2.43.0


From 017b3a2155d09693f548086b8fd668ca3de779aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 95/98] fix: textual forms and syntax trees of XPath
 expressions show parentheses, predicates and numbers

---
 yangson/xpathast.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index ea52ec9..8ee877d 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -400,7 +400,7 @@ class Number(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return str(self.value)
+        return format(decimal.Decimal(repr(self.value)), "f")
 
     def _properties_str(self) -> str:
         return str(self.value)
@@ -431,8 +431,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
-                "".join([f"[{p}]" for p in self.predicates]))
+        prim = str(self.primary)
+        if not self.primary.__class__.__name__.startswith("Func"):
+            prim = "(" + prim + ")"
+        return prim + "".join([f"[{p}]" for p in self.predicates])
 
     def _children_ast(self, indent) -> str:
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
@@ -451,8 +453,12 @@ class LocationPath(BinaryExpr):
         return lres.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
-        sep = "" if isinstance(self.left, Root) else "/"
-        return f"{self.left}{sep}{self.right}"
+        left = self.left
+        sep = "/"
+        if isinstance(left, LocationPath) and left.right._any_descendant():
+            left = left.left
+            sep = "//"
+        return f"{'' if isinstance(left, Root) else left}{sep}{self.right}"
 
     def as_instance_route(self) -> InstanceRoute:
         return InstanceRoute(self.left.as_instance_route() +
@@ -482,12 +488,11 @@ class Step(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        if self.axis == Axis.descendant_or_self and self.qname is None:
-            return ""
-        if self.axis == Axis.self and self.qname is None:
-            return "."
-        if self.axis == Axis.parent and self.qname is None:
-            return ".."
+        if self.qname is None and not self.predicates:
+            if self.axis == Axis.self:
+                return "."
+            if self.axis == Axis.parent:
+                return ".."
         if self.qname:
             qn = f"{self.qname[1]}:{self.qname[0]}"
         elif self.qname is None:
@@ -498,6 +503,11 @@ class Step(Expr):
         prs = "".join([f"[{p}]" for p in self.predicates])
         return ax + qn + prs
 
+    def _any_descendant(self) -> bool:
+        """Is the receiver the step that is abbreviated to nothing?"""
+        return (self.axis == Axis.descendant_or_self and
+                self.qname is None and not self.predicates)
+
     def as_instance_route(self) -> InstanceRoute:
         m = MemberName(*self.qname)
         if not self.predicates:
@@ -647,7 +657,7 @@ class FuncDerivedFrom(BinaryExpr):
 
     def _properties_str(self) -> str:
         return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+                else "") + self.sctx.schema_data.namespace(self.sctx.text_mid)
 
     def _eval(self, xctx: XPathContext) -> bool:
         ns = self.left._eval(xctx)
-- 
2.43.0


From 25317d8542b286e74a9ecf3820f7b000bc1c3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 96/98] fix: split_instance_route: a route to the root isn't
 split

---
 yangson/schemanode.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 62a83b2..04434a8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1098,9 +1098,7 @@ class DataNode(SchemaNode):
             sroute.append(sn.iname())
             sn = sn.data_parent()
         i = 0
-        while True:
-            if not sroute:
-                break
+        while i < len(route):
             inst = sroute.pop()
             if inst != route[i].iname():
                 return None
@@ -1110,8 +1108,7 @@ class DataNode(SchemaNode):
                     break
             if not sroute:
                 return (InstanceRoute(route[:i]), InstanceRoute(route[i:]))
-            if i >= len(route):
-                return None
+        return None
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
                   ctype: ContentType) -> None:
-- 
2.43.0


From 99d3e41308dd3edc40d6342fc096226f19b841a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 97/98] fix: circular definitions and other invalid schemas
 lead to documented exceptions

---
 yangson/datatype.py   | 27 +++++++++++++++++++++++----
 yangson/schemadata.py |  5 ++++-
 yangson/schemanode.py | 40 +++++++++++++++++++++++++++++++++-------
 yangson/statement.py  | 25 +++++++++++++++++++++++++
 4 files changed, 85 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a8bd50c..954a202 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -227,11 +227,16 @@ class DataType(ABC, Generic[S, RS]):
     @classmethod
     def _derived_type(cls, stmt: Statement, sctx: SchemaContext,
                       name: YangIdentifier) -> "DataType":
+        expanding = sctx.schema_data.expanding
+        start = len(expanding)
         tchain = []
         ts = stmt
         sc = sctx
         while True:
             tdef, sc = sctx.schema_data.get_definition(ts, sc)
+            if tdef in expanding:       # circular chain of typedefs
+                raise InvalidArgument(ts.argument)
+            expanding.append(tdef)
             ts = cast(Statement, tdef.find1("type", required=True))
             tchain.append((tdef, ts, sc))
             if ts.argument in cls.dtypes:
@@ -251,6 +256,7 @@ class DataType(ABC, Generic[S, RS]):
             dfst = tdef.find1("default")
             if dfst:
                 res._default_def = (cast(str, dfst.argument), tsc)
+        del expanding[start:]
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -371,7 +377,9 @@ class BitsType(DataType[tuple[str, ...], str]):
         nextpos = 0
         for bst in stmt.find_all("bit"):
             pst = bst.find1("position")
-            pos = int(cast(str, pst.argument)) if pst else nextpos
+            pos = pst.int_argument() if pst else nextpos
+            if not 0 <= pos <= 4294967295:
+                raise InvalidArgument(str(pos))
             nextpos = max(nextpos, pos + 1)
             if sctx.schema_data.if_features(bst, sctx.text_mid):
                 self.bit[cast(str, bst.argument)] = pos
@@ -604,7 +612,7 @@ class EnumerationType(DataType[str, str]):
         nextval = None
         for est in stmt.find_all("enum"):
             vst = est.find1("value")
-            val = int(cast(str, vst.argument)) if vst else (nextval or 0)
+            val = vst.int_argument() if vst else (nextval or 0)
             nextval = val + 1 if nextval is None else max(nextval, val + 1)
             if sctx.schema_data.if_features(est, sctx.text_mid):
                 self.enum[cast(str, est.argument)] = val
@@ -696,9 +704,18 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         ref = tnode._follow_leafref(self.path, tnode)
-        if ref is None:
+        if getattr(ref, "type", None) is None:     # not a terminal node
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         self.ref_type = ref.type
+        todo = [ref.type]
+        while todo:
+            typ = todo.pop()
+            if typ is self:             # circular chain of leafrefs
+                raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
+            if isinstance(typ, LeafrefType) and typ.ref_type is not None:
+                todo.append(typ.ref_type)
+            elif isinstance(typ, UnionType):
+                todo.extend(typ.types)
         if isinstance(ref.type, LeafrefType) and ref.type.ref_type is None:
             ref.type._post_process(ref)
         super()._post_process(tnode)
@@ -990,7 +1007,9 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         fd = cast(Statement, stmt.find1("fraction-digits", required=True))
-        self.fraction_digits = int(cast(str, fd.argument))
+        self.fraction_digits = fd.int_argument()
+        if not 1 <= self.fraction_digits <= 18:
+            raise InvalidArgument(fd.argument)
         self._epsilon = decimal.Decimal(10) ** -self.fraction_digits
         super()._handle_properties(stmt, sctx)
 
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index e6eca15..a220947 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -110,6 +110,8 @@ class SchemaData:
         """Dictionary of module data by module name."""
         self.modules_by_ns: dict[str, ModuleData] = {}
         self._module_sequence: list[ModuleId] = []
+        self.expanding: list[Statement] = []
+        """Groupings and typedefs that are just being expanded."""
         """List that defines the order of module processing."""
         self._from_yang_library(yang_lib)
 
@@ -227,6 +229,7 @@ class SchemaData:
                 try:
                     with open(fn, encoding='utf-8') as infile:
                         res = ModuleParser(infile.read(), name, rev).parse()
+                        res.check_arguments()
                         mdata.path = fn
                 except (OSError, ModuleContentMismatch):
                     run += 1
@@ -432,7 +435,7 @@ class SchemaData:
         """
         nlist = sni.split("/")
         res = []
-        for qn in (nlist[1:] if sni[0] == "/" else nlist):
+        for qn in (nlist[1:] if sni.startswith("/") else nlist):
             res.append(self.translate_node_id(qn, sctx))
         return res
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 04434a8..439679b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -51,14 +51,16 @@ from .datatype import DataType, LinkType, IdentityrefType
 from .enumerations import (Axis, ContentType, DefaultDeny,
                            NodeStatus, ValidationScope)
 from .exceptions import (
-    AnnotationTypeError, InvalidArgument,
-    MissingAnnotationTarget, MissingModuleNamespace, RawMemberError,
+    AnnotationTypeError, BadSchemaNodeType, InvalidArgument,
+    MissingAnnotationTarget, MissingModuleNamespace,
+    NonexistentSchemaNode, RawMemberError,
     RawTypeError, SchemaError, SemanticError, UndefinedAnnotation,
     YangsonException, YangTypeError)
 from .instance import (ArrayEntry, InstanceNode, MemberName, ObjectMember)
 from .instroute import InstanceRoute
 from .instvalue import (
     ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
+from .parser import Parser
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
 from .schpattern import (Alternative, ChoicePattern, ConditionalPattern,
                          ContainerMember, Empty, Member, NotAllowed, Pair,
@@ -217,10 +219,12 @@ class SchemaNode:
                 try:
                     method = getattr(self, "_deviate_" +
                                      subst.keyword.replace("-", "_", 1))
-                except AttributeError as error:
+                except AttributeError:
                     if subst.prefix:  # ignore unsupported extension
                         continue
-                    raise error from None
+                    raise BadSchemaNodeType(
+                        self.qual_name, f"node with '{subst.keyword}'"
+                    ) from None
                 method(subst, sctx, action=arg)
 
     def _get_description(self, stmt: Statement):
@@ -287,7 +291,10 @@ class SchemaNode:
             else:
                 key = s.keyword
             mname = SchemaNode._stmt_callback.get(key, "_noop")
-            method = getattr(self, mname)
+            method = getattr(self, mname, None)
+            if method is None:
+                raise BadSchemaNodeType(
+                    self.qual_name, f"node with '{s.keyword}'")
             method(s, sctx)
 
     def _follow_leafref(self: "SchemaNode", xpath: Expr,
@@ -323,12 +330,16 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
+        if self.parent is None:
+            raise BadSchemaNodeType(self.qual_name, "node with 'config'")
         self._ctype = (ContentType.nonconfig if stmt.argument == "false"
                        else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.superstmt.keyword in ("augment", "grouping"):
             return              # not a status of the receiver
+        if self.parent is None:
+            raise BadSchemaNodeType(self.qual_name, "node with 'status'")
         if stmt.argument == "deprecated":
             nst = NodeStatus.deprecated
         elif stmt.argument == "obsolete":
@@ -820,6 +831,8 @@ class InternalNode(SchemaNode):
         """Add child node to the receiver and handle substatements."""
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             return
+        if not Parser.ident_re.fullmatch(stmt.argument):
+            raise InvalidArgument(stmt.argument)
         node.name = stmt.argument
         node.ns = sctx.default_ns
         node._get_description(stmt)
@@ -848,6 +861,8 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:
             return False
+        if not isinstance(target, InternalNode):
+            raise BadSchemaNodeType(target.qual_name, "internal node")
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
@@ -895,7 +910,12 @@ class InternalNode(SchemaNode):
             self._add_child(sn)
         else:
             sn = self
+        expanding = sctx.schema_data.expanding
+        if grp in expanding:            # circular chain of groupings
+            raise InvalidArgument(stmt.argument)
+        expanding.append(grp)
         sn._handle_substatements(grp, gid)
+        expanding.pop()
         sn._augment([(augst, sctx) for augst in stmt.find_all("augment")])
         for refst in stmt.find_all("refine"):
             sn._refine_stmt(refst, sctx)
@@ -1344,7 +1364,7 @@ class SequenceNode(DataNode):
 
     def _min_elements_stmt(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
-        self.min_elements = int(stmt.argument)
+        self.min_elements = stmt.int_argument()
 
     def _deviate_min_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
@@ -1359,7 +1379,7 @@ class SequenceNode(DataNode):
         if arg == "unbounded":
             self.max_elements = None
         else:
-            self.max_elements = int(arg)
+            self.max_elements = stmt.int_argument()
 
     def _deviate_max_elements(self, stmt: Statement,
                               sctx: SchemaContext, action: str) -> None:
@@ -1522,6 +1542,10 @@ class ListNode(SequenceNode, InternalNode):
         super()._post_process()
         for k in self.keys:
             kn = self.get_data_child(*k)
+            if kn is None:
+                raise NonexistentSchemaNode(self.qual_name, *k)
+            if not isinstance(kn, LeafNode):
+                raise BadSchemaNodeType(kn.qual_name, "leaf")
             self._key_members.append(kn.iname())
             if not kn._mandatory:
                 kn._mandatory = True
@@ -1539,6 +1563,8 @@ class ListNode(SequenceNode, InternalNode):
         sn = self
         res = None
         for st in reversed(steps):
+            if not (isinstance(st, Step) and st.qname):
+                raise InvalidArgument(str(path))
             if isinstance(sn, InternalNode):
                 sn = sn.get_child(*st.qname)
             if not isinstance(sn, (ChoiceNode, CaseNode)):
diff --git a/yangson/statement.py b/yangson/statement.py
index 04cd848..2fffd06 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -114,6 +114,31 @@ class Statement:
             stmt = stmt.superstmt
         return None
 
+    def check_arguments(self) -> None:
+        """Check that built-in statements have their arguments.
+
+        Raises:
+            InvalidArgument: If the argument of a statement is missing.
+        """
+        todo = [self]
+        while todo:
+            stmt = todo.pop()
+            if (stmt.argument is None and stmt.prefix is None and
+                    stmt.keyword not in ("input", "output")):
+                raise InvalidArgument(f"missing argument of {stmt.keyword!r}")
+            todo.extend(stmt.substatements)
+
+    def int_argument(self) -> int:
+        """Return the argument converted to an integer.
+
+        Raises:
+            InvalidArgument: If the argument isn't an integer.
+        """
+        try:
+            return int(self.argument)
+        except ValueError:
+            raise InvalidArgument(self.argument) from None
+
     def get_error_info(self) -> tuple[Optional[str], Optional[str]]:
         """Return receiver's error tag and error message if present."""
         etag = self.find1("error-app-tag")
-- 
2.43.0


From 9b1850790a4ac55809ee2c284b4e712fa2321747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 98/98] fix: ascii_tree: a conditional augment or uses may add
 nothing

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 439679b..cc33e65 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -986,11 +986,11 @@ class InternalNode(SchemaNode):
         def suffix(sn):
             return f" {{{sn.val_count}}}\n" if val_count and isinstance(
                 sn, (SchemaTreeNode, DataNode)) else "\n"
-        if not self.children:
-            return ""
         cs = []
         for c in self.children:
             cs.extend(c._flatten())
+        if not cs:
+            return ""
         cs.sort(key=lambda x: x.qual_name)
         res = ""
         for c in cs[:-1]:
-- 
2.43.0

