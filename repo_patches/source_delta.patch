From f2085914050a8dcbbce1aac3fad187a5d7821b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:12 +0000
Subject: [PATCH 01/71] fix: storing a nested list or dict into an owned
 collection recursed forever

---
 jsonclasses/jsonclassify.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..a128967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -803,11 +803,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -866,11 +866,11 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 202ccdd48e9fe128a5a5277488a9f38d6cf0f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:59 +0000
Subject: [PATCH 02/71] fix: owned list reports right positions and accepts any
 iterable

---
 jsonclasses/olist.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..0cbd302 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -52,6 +52,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, len(self) - 1, value)
 
     def extend(self, values: Iterable[_T]) -> None:
+        values = list(values)
         curlen = len(self)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
@@ -64,10 +65,11 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = max(0, curlen + index) if index < 0 else min(curlen, index)
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
+        value = self[self.index(value)]
         self.owner.__olist_will_change__(self)
         super().remove(value)
         self.owner.__olist_del__(self, value)
@@ -99,6 +101,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
@@ -148,16 +151,13 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         elif isinstance(args[0], slice):
             slc: slice = args[0]
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            start, _, step = slc.indices(len_self)
+            values = list(args[1])
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, values)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in values:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From b7517d6869132b138f06944ded01e51745e275a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 03/71] fix: owned dict lost data given an iterator and missed
 one argument setdefault

---
 jsonclasses/odict.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..a8e9910 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -1,7 +1,7 @@
 """The owner observable dict."""
 from __future__ import annotations
 from typing import Generic, Any, Protocol, TypeVar, Union, MutableMapping
-from collections.abc import Mapping, Iterable
+from collections.abc import Iterable
 
 KT_contra = TypeVar('KT_contra', contravariant=True)
 VT_contra = TypeVar('VT_contra', contravariant=True)
@@ -77,7 +77,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
+        if 1 <= len_args <= 2:
             try:
                 self[args[0]]
             except KeyError:
@@ -86,24 +86,18 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
+            self.owner.__odict_add__(self, args[0], retval)
+            retval = self[args[0]]
         return retval
 
     def update(self, *args, **kwargs: _VT) -> None:
         len_args = len(args)
         if not (0 <= len_args <= 1):
             return super().update(*args, **kwargs)
-        if len_args == 0:
-            new_dict = kwargs
-        elif isinstance(args[0], Mapping):
-            new_dict = dict(args[0], **kwargs)
-        elif isinstance(args[0], Iterable):
-            new_dict = dict(args[0], **kwargs)
-        else:
-            new_dict = {}
+        new_dict = dict(*args, **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -136,7 +130,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From 1be630e9218061b0e13f625efa5cefc2cf4178d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:47 +0000
Subject: [PATCH 04/71] fix: pick and omit always raised

---
 jsonclasses/jsonclassify.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a128967..0996c7f 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -171,8 +171,8 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
-    self._partial_picks = picks
+    self._is_partial = True
+    self._partial_picks = list(picks)
 
 
 def omit(self: JObject, omits: list[str]) -> None:
@@ -180,14 +180,12 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
         picks = self._partial_picks
     else:
-        picks = self.cdef._field_names
-    for o in omits:
-        picks.remove(o)
-    self._partial_picks = picks
+        picks = self.__class__.cdef._field_names
+    self._partial_picks = [p for p in picks if p not in omits]
 
 def validate(self: JObject, all_fields: Optional[bool] = None) -> JObject:
     """Validate the jsonclass object's validity. Raises ValidationException
-- 
2.43.0


From 8e850d8337e9f434c54b587395d0c6adc6abceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 05/71] fix: datetimes lost their offset and came out malformed
 without microseconds

---
 jsonclasses/modifiers/datetime_modifier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..77a0a6a 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,6 +22,8 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
             except ValueError:
                 ctx.raise_vexc('wrong datetime format')
@@ -34,4 +36,9 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        val = ctx.val
+        if val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat(timespec='milliseconds') + 'Z'
-- 
2.43.0


From 47f5757e444ea6c48134126878a23a90e5e0bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:22 +0000
Subject: [PATCH 06/71] fix: validating a non object in an object field raised
 AttributeError

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..ee5aa56 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -29,16 +29,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
+        cls = cast(type, ctx.fdef.inst_cls)
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         # only validate an instance once in the circular referenced map
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
-        cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
-        if not isinstance(ctx.val, cls):
-            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
-- 
2.43.0


From 364bd86e1aa80971cbad91990dab69fe34a08389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 07/71] fix: malformed input for a list of references raised
 AttributeError

---
 jsonclasses/jsonclassify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 0996c7f..16b9a54 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -749,13 +749,13 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 if isjsonobject(value):
                     self.__original_setattr__(rname, value._id)
             elif field.fdef.ftype == FType.LIST:
-                if value is None:
+                if not isinstance(value, list):
                     olist = to_owned_list(self, [], rname)
                     self.__original_setattr__(rname, olist)
                 else:
                     keys = []
                     for item in value:
-                        if item is not None:
+                        if isjsonobject(item):
                             keys.append(item._id)
                     olist = to_owned_list(self, keys, rname)
                     self.__original_setattr__(rname, olist)
@@ -928,7 +928,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
     if field.fdef.ftype == FType.LIST:
         if not isinstance(value, list):
             return
-        items = list(value)
+        items = [item for item in value if isjsonobject(item)]
     for item in items:
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
@@ -960,7 +960,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
     if field.fdef.ftype == FType.LIST:
         if not isinstance(value, list):
             return
-        items = value
+        items = [item for item in value if isjsonobject(item)]
     for item in items:
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
-- 
2.43.0


From abdcb59deeeb49cff26a8fa064a61bcd518b4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 08/71] fix: nested, union and pipe annotations were parsed
 wrongly

---
 jsonclasses/rtypes.py | 45 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..03b4718 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,7 +7,8 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
-from re import match, split
+from re import match
+from types import UnionType
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -45,7 +46,7 @@ def apply_link_specifier(types: Types, specifier: str) -> Types:
     else:
         raise TypeError(f"wrong format of link specifier '{specifier}'")
 
-def union_split(arg: str) -> list[str]:
+def union_split(arg: str, sep: str = '|') -> list[str]:
     result = ['']
     depth = 0
     for c in arg:
@@ -56,7 +57,7 @@ def union_split(arg: str) -> list[str]:
             case ']':
                 depth -= 1
                 result[-1] += c
-            case '|':
+            case _ if c == sep:
                 if depth < 1:
                     result.append('')
                 else:
@@ -65,29 +66,6 @@ def union_split(arg: str) -> list[str]:
                 result[-1] += c
     return [r.strip() for r in result]
 
-def merge_back_dicts(args: list[str]) -> list[str]:
-    """This method is used for union arguments parsing. When union contains
-    dict, dict is separated wrongly by split method. This function merge
-    dicts back.
-
-    Args:
-        args (list[str]): A list of string tokens.
-
-    Returns:
-        list[str]: The renovated string tokens.
-    """
-    retval = []
-    do_not_push_next = False
-    for idx, arg in enumerate(args):
-        if do_not_push_next:
-            do_not_push_next = False
-            continue
-        if match('^[Dd]ict\\[', arg):
-            retval.append(arg + ', ' + args[idx + 1])
-            do_not_push_next = True
-        else:
-            retval.append(arg)
-    return retval
 
 def str_to_types(anytypes: str, opt: bool = False) -> Types:
     """
@@ -123,13 +101,8 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 match_data = match('^Union\\[(.*)\\]', anytypes)
                 assert match_data is not None
                 all_item_types = match_data.group(1)
-                types_to_build_union = split(", *", all_item_types)
-                types_to_build_union = merge_back_dicts(types_to_build_union)
-                results = []
-                for t in types_to_build_union:
-                    results.append(str_to_types(t, True))
-                union = types.union(results)
-                return union if opt else union.required
+                return str_to_types(
+                    ' | '.join(union_split(all_item_types, ',')), opt)
             elif anytypes.startswith('Optional['):
                 match_data = match('^Optional\\[(.*)\\]', anytypes)
                 assert match_data is not None
@@ -142,9 +115,9 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 list_type = types.listof(str_to_types(item_type))
                 return list_type if opt else list_type.required
             elif match('^[Dd]ict\\[', anytypes):
-                match_data = match('[Dd]ict\\[.+, *(.*)\\]', anytypes)
+                match_data = match('[Dd]ict\\[(.*)\\]', anytypes)
                 assert match_data is not None
-                item_type = match_data.group(1)
+                item_type = union_split(match_data.group(1), ',')[1]
                 dict_type = types.dictof(str_to_types(item_type))
                 return dict_type if opt else dict_type.required
             elif anytypes.startswith('Annotated['):
@@ -205,7 +178,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     elif get_origin(anytypes) is dict:
         dict_type = types.dictof(get_args(anytypes)[1])
         return dict_type if opt else dict_type.required
-    elif get_origin(anytypes) == Union:
+    elif get_origin(anytypes) in (Union, UnionType):
         required: bool = True
         types_to_build_union: list[Any] = []
         args = get_args(anytypes)
-- 
2.43.0


From 51cce4ad10fbb96d026f0b4916379fb87c75ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:25 +0000
Subject: [PATCH 09/71] fix: optional forward references were treated as
 required

---
 jsonclasses/rtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 03b4718..40d8ff5 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -157,7 +157,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     """
     from .types import types
     if isinstance(anytypes, str):
-        return str_to_types(anytypes)
+        return str_to_types(anytypes, opt)
     elif anytypes is str:
         return types.str if opt else types.str.required
     elif anytypes is int:
@@ -210,7 +210,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
         instance_type = types.objof(anytypes)
         return instance_type if opt else instance_type.required
     elif isinstance(anytypes, ForwardRef):
-        return str_to_types(anytypes.__forward_arg__)
+        return str_to_types(anytypes.__forward_arg__, opt)
     else:
         raise ValueError(f'{anytypes} is not a valid JSON Class type.')
 
-- 
2.43.0


From 9df6c860f2c936871a570fea552061808c62b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 10/71] fix: enum input by value shadowed names and dropped
 unknown values silently

---
 jsonclasses/modifiers/enum_modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/enum_modifier.py b/jsonclasses/modifiers/enum_modifier.py
index 2e35866..5e30041 100644
--- a/jsonclasses/modifiers/enum_modifier.py
+++ b/jsonclasses/modifiers/enum_modifier.py
@@ -41,7 +41,7 @@ class EnumModifier(Modifier):
                 return enum_class(ctx.val)
             except ValueError:
                 pass
-        elif isinstance(ctx.val, str):
+        if isinstance(ctx.val, str):
             if enum_input.__contains__(EnumInput.NAME):
                 try:
                     return enum_class[ctx.val]
@@ -52,9 +52,7 @@ class EnumModifier(Modifier):
                     return enum_class[ctx.val.upper()]
                 except KeyError:
                     pass
-            ctx.raise_vexc('unknown enum value')
-        else:
-            ctx.raise_vexc('unknown enum value')
+        ctx.raise_vexc('unknown enum value')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From cbc2da7c5068c45e527e40741dcb7125752f2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 11/71] fix: keypath input could write into readonly, internal
 and writeonce fields

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 16b9a54..4502686 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union, cast
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -82,6 +82,8 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule in (WriteRule.NO_WRITE, WriteRule.WRITE_ONCE):
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From 2fee14afba19e0335350fcfcf3399c8d8381afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:15 +0000
Subject: [PATCH 12/71] fix: field permission guards given as callables raised
 AttributeError

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From c72e9d04e5e6cc2c0966e0e0bdf3e951ee589733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 13/71] fix: oneisvalid never called its callables

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From ad38be138124ec3d7a2902573988ab4f22e8ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:27 +0000
Subject: [PATCH 14/71] fix: persisted_modified_fields raised after a nested
 change

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 4502686..2b188ff 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -300,7 +300,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        field = cdef.field_named(initial_keypath(name))
+        if field.fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From cc95f77e5c42312698e06bcd073eae4938951288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 15/71] fix: list prefix and suffix validators were wrong for
 longer and empty lists

---
 jsonclasses/modifiers/hasprefix_modifier.py  | 3 ++-
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index bc2ed94..22ff304 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -15,7 +15,8 @@ class HasPrefixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[:len(ctx.val)] == self.resolve_param(self.prefix, ctx):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index db23f28..46ddb21 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -15,7 +15,8 @@ class HasSuffixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[-len(self.resolve_param(self.suffix, ctx)):] == self.resolve_param(self.suffix, ctx):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if not ctx.val[max(len(ctx.val) - len(suffix), 0):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index d496d41..8e62719 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -15,7 +15,8 @@ class IsSuffixOfModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
+            whole = self.resolve_param(self.suffix, ctx)
+            if not whole[max(len(whole) - len(ctx.val), 0):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
-- 
2.43.0


From de538b7b3f253ecf641d01ed274c73c2bd798afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:31 +0000
Subject: [PATCH 16/71] fix: fields of nested objects were handled in the
 context of the outer object

---
 jsonclasses/ctx.py                           | 8 ++++++++
 jsonclasses/modifiers/instanceof_modifier.py | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index f418242..9b3dec9 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -151,6 +151,14 @@ class Ctx(NamedTuple):
                    keypathh=self.keypathh, fkeypathh=self.fkeypathh, fdef=fdef,
                    operator=self.operator, mgraph=self.mgraph, idchain=self.idchain)
 
+    def rebased(self: Ctx) -> Ctx:
+        """Returns a context with the object in value as the owner and parent
+        of its field values.
+        """
+        return self._replace(owner=self.val, parent=self.val,
+                             keypatho=[], fkeypatho=[],
+                             keypathp=[], fkeypathp=[])
+
     def nval(self: Ctx, newval: Any) -> Ctx:
         return Ctx(root=self.root, owner=self.owner, parent=self.parent,
                    holder=self.holder, val=newval, original=self.original,
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index ee5aa56..0232f71 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -36,6 +36,7 @@ class InstanceOfModifier(Modifier):
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
+        ctx = ctx.rebased()
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
@@ -77,7 +78,7 @@ class InstanceOfModifier(Modifier):
         if field.default is not None:
             setattr(dest, field.name, field.default)
         else:
-            dctx = ctx.default(ctx.original, field.name, field.fdef)
+            dctx = ctx.default(dest, field.name, field.fdef)
             tsfmd = field.types.modifier.transform(dctx)
             setattr(dest, field.name, tsfmd)
 
@@ -185,6 +186,7 @@ class InstanceOfModifier(Modifier):
         from ..jobject import JObject
         if ctx.val is None:
             return None
+        ctx = ctx.rebased()
         val = cast(JObject, ctx.val)
         retval = {}
         clschain = ctx.idchain
@@ -245,6 +247,7 @@ class InstanceOfModifier(Modifier):
         if exist_item is not None:  # Don't do twice for an object
             return value
         ctx.mgraph.put(value)
+        ctx = ctx.rebased()
         should_update = False
         if value.is_modified or value.is_new:
             should_update = True
-- 
2.43.0


From 55c5df8c009bad2e2470e2ffb145666d103f10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 17/71] fix: onwrite missed changes nested in a list or dict

---
 jsonclasses/modifiers/onwrite_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/onwrite_modifier.py b/jsonclasses/modifiers/onwrite_modifier.py
index 172c59e..a18bfe5 100644
--- a/jsonclasses/modifiers/onwrite_modifier.py
+++ b/jsonclasses/modifiers/onwrite_modifier.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Callable, Any, cast, TYPE_CHECKING
 from inspect import signature
 from .modifier import Modifier
+from ..keypath import initial_keypaths
 if TYPE_CHECKING:
     from ..ctx import Ctx
 
@@ -24,7 +25,8 @@ class OnWriteModifier(Modifier):
         from ..jobject import JObject
         name = ctx.keypathp[-1]
         parent = cast(JObject, ctx.parent)
-        if not parent.is_new and name not in parent.modified_fields:
+        if (not parent.is_new
+                and name not in initial_keypaths(parent.modified_fields)):
             return ctx.val
         params_len = len(signature(self.callback).parameters)
         if params_len == 0:
-- 
2.43.0


From c92bb104a557fbd5c98379547ac575d1fcac31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:31 +0000
Subject: [PATCH 18/71] fix: save skipped some of the unlinked objects

---
 jsonclasses/jsonclassify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 2b188ff..6c886f4 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -351,9 +351,10 @@ def save(self: JObject,
         self.validate(all_fields=validate_all_fields)
     self._set_on_save()
     self._database_write()
-    for _, lst in self.unlinked_objects.items():
-        for item in lst:
-            lst.remove(item)
+    for lst in list(self.unlinked_objects.values()):
+        items = list(lst)
+        lst.clear()
+        for item in items:
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
     return self
-- 
2.43.0


From da7cb9da5d39663de87f780bd47c59d2498abc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:38 +0000
Subject: [PATCH 19/71] fix: output leaked the keys of hidden references and
 shared the live key list

---
 jsonclasses/modifiers/instanceof_modifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 0232f71..1c82e1b 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -216,6 +216,10 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
+                if isinstance(valatk, list):
+                    valatk = list(valatk)
+                if fd.read_rule == ReadRule.NO_READ and not ignore_writeonly:
+                    continue
                 if output_null or (valatk is not None):
                     retval[jrk] = valatk
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
-- 
2.43.0


From 9c16698a22bd681114bcc26c7d780b4a0245d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 20/71] fix: before and after could not compare dates with
 timezone aware datetimes

---
 jsonclasses/modifiers/after_modifier.py  | 23 ++++++++---------------
 jsonclasses/modifiers/before_modifier.py | 10 ++++++----
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/jsonclasses/modifiers/after_modifier.py b/jsonclasses/modifiers/after_modifier.py
index 39bbe56..ab40e50 100644
--- a/jsonclasses/modifiers/after_modifier.py
+++ b/jsonclasses/modifiers/after_modifier.py
@@ -19,18 +19,11 @@ class AfterModifier(Modifier):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date and type(point) is date:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        if type(value) is datetime and type(point) is datetime:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        else:
-            value = value
-            point = point
-            if type(value) is date:
-                value = datetime.combine(value, datetime.min.time())
-            if type(point) is date:
-                point = datetime.combine(point, datetime.min.time())
-            if value <= point:
-                ctx.raise_vexc('value is too early')
+        if type(value) is date:
+            value = datetime.combine(value, datetime.min.time(),
+                                     getattr(point, 'tzinfo', None))
+        if type(point) is date:
+            point = datetime.combine(point, datetime.min.time(),
+                                     value.tzinfo)
+        if value <= point:
+            ctx.raise_vexc('value is too early')
diff --git a/jsonclasses/modifiers/before_modifier.py b/jsonclasses/modifiers/before_modifier.py
index 2ed8c69..1f8f877 100644
--- a/jsonclasses/modifiers/before_modifier.py
+++ b/jsonclasses/modifiers/before_modifier.py
@@ -18,11 +18,13 @@ class BeforeModifier(Modifier):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date:
-            value = datetime.combine(ctx.val, datetime.min.time())
-        if type(point) is date:
-            point = datetime.combine(self.resolve_param(self.point, ctx), datetime.min.time())
         if point is None:
             return ctx.val
+        if type(value) is date:
+            value = datetime.combine(value, datetime.min.time(),
+                                     getattr(point, 'tzinfo', None))
+        if type(point) is date:
+            point = datetime.combine(point, datetime.min.time(),
+                                     value.tzinfo)
         if value >= point:
             ctx.raise_vexc('value is too late')
-- 
2.43.0


From f947b33251263a0f5225c9b7eff2b5810207348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 21/71] fix: hexcolor accepted trailing garbage

---
 jsonclasses/modifiers/hexcolor_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hexcolor_modifier.py b/jsonclasses/modifiers/hexcolor_modifier.py
index 8751d34..fe95ec4 100644
--- a/jsonclasses/modifiers/hexcolor_modifier.py
+++ b/jsonclasses/modifiers/hexcolor_modifier.py
@@ -1,7 +1,7 @@
 """module for hexcolor modifier."""
 from __future__ import annotations
 from typing import Any, cast, TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class HexColorModifier(Modifier):
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(hex_color_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(hex_color_regex, ctx.val) is None:
             ctx.raise_vexc('value is not hex color string')
\ No newline at end of file
-- 
2.43.0


From 4e65f96553e07d421d3351f4e60e726d5021e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 22/71] fix: defining an enum twice raised AttributeError

---
 jsonclasses/cgraph.py | 3 ++-
 jsonclasses/excs.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..5a2a7b1 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -144,7 +144,8 @@ class CGraph:
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
             raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+                                                          exist_def,
+                                                          self.name)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..617534a 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -74,13 +74,15 @@ class JSONClassTypedDictRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self, new_class: type, exist_class: type,
+                 graph: str) -> None:
         """Create an exception that notifies the user that a typed dict class
         with duplicated name is defined twice.
 
         Args:
             new_class (type): The new class which is putting on the graph.
             exist_class(type): The existing class which the user defined.
+            graph (str): The name of the graph on which they conflict.
         """
         name = new_class.__name__
         original_module = getmodule(exist_class)
@@ -91,7 +93,6 @@ class JSONClassTypedDictRedefinitionException(Exception):
         assert new_module is not None
         new_file = new_module.__file__
         new_line = getsourcelines(new_class)[1]
-        graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass typed dict name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From 998bb07ed2378ddf4f955510562a6818281374c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 23/71] fix: random strings longer than the alphabet raised
 ValueError

---
 jsonclasses/modifiers/random_alnumpuncs_modifier.py | 4 ++--
 jsonclasses/modifiers/random_alnums_modifier.py     | 4 ++--
 jsonclasses/modifiers/random_digits_modifier.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/random_alnumpuncs_modifier.py b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
index 068d9eb..0add636 100644
--- a/jsonclasses/modifiers/random_alnumpuncs_modifier.py
+++ b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnumpuncs modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,4 +20,4 @@ class RandomAlnumpuncsModifier(Modifier):
         punctuation = r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~"""
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(punctuation+ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(punctuation+ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_alnums_modifier.py b/jsonclasses/modifiers/random_alnums_modifier.py
index 3606493..7827130 100644
--- a/jsonclasses/modifiers/random_alnums_modifier.py
+++ b/jsonclasses/modifiers/random_alnums_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnums modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -19,4 +19,4 @@ class RandomAlnumsModifier(Modifier):
         ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_digits_modifier.py b/jsonclasses/modifiers/random_digits_modifier.py
index e3f2c90..1141e89 100644
--- a/jsonclasses/modifiers/random_digits_modifier.py
+++ b/jsonclasses/modifiers/random_digits_modifier.py
@@ -1,7 +1,7 @@
 """module for random digits modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,4 +16,4 @@ class RandomDigitsModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         digits = '0123456789'
-        return ''.join(sample(digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(digits, k=self.resolve_param(self.length, ctx)))
-- 
2.43.0


From 188e515ccf2b02abb634196905bfcd3bae9890c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 24/71] fix: assigned lists of reference keys were shared with
 the caller and not tracked

---
 jsonclasses/jsonclassify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 6c886f4..c52f6cf 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -705,6 +705,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
+            value = olist
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
-- 
2.43.0


From 28ec669f8cdb898e108ea9e231703c717d51e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:30 +0000
Subject: [PATCH 25/71] fix: reference keys bypassed readonly, internal and
 writeonce on input

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1c82e1b..34f6211 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -147,6 +147,11 @@ class InstanceOfModifier(Modifier):
                     if fdef.fstore == FStore.LOCAL_KEY:
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
+                        if fdef.write_rule == WriteRule.NO_WRITE:
+                            continue
+                        if fdef.write_rule == WriteRule.WRITE_ONCE:
+                            if getattr(dest, refname) not in (None, []):
+                                continue
                         if ctx.val.get(refname) is not None:
                             setattr(dest, refname, ctx.val.get(refname))
                         crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
-- 
2.43.0


From e43c474d26f11ea400926ea82cdd24b74447e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:57 +0000
Subject: [PATCH 26/71] fix: before and after raised TypeError when all errors
 of a wrongly typed value are collected

---
 jsonclasses/modifiers/after_modifier.py  | 2 +-
 jsonclasses/modifiers/before_modifier.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/after_modifier.py b/jsonclasses/modifiers/after_modifier.py
index ab40e50..6af1e83 100644
--- a/jsonclasses/modifiers/after_modifier.py
+++ b/jsonclasses/modifiers/after_modifier.py
@@ -15,7 +15,7 @@ class AfterModifier(Modifier):
         self.point = point
 
     def validate(self, ctx: Ctx) -> None:
-        if ctx.val is None:
+        if not isinstance(ctx.val, date):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
diff --git a/jsonclasses/modifiers/before_modifier.py b/jsonclasses/modifiers/before_modifier.py
index 1f8f877..3c19a32 100644
--- a/jsonclasses/modifiers/before_modifier.py
+++ b/jsonclasses/modifiers/before_modifier.py
@@ -14,7 +14,7 @@ class BeforeModifier(Modifier):
         self.point = point
 
     def validate(self, ctx: Ctx) -> None:
-        if ctx.val is None:
+        if not isinstance(ctx.val, date):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
-- 
2.43.0


From 139150a95c7d3e181dbdc8e76bc9976db7a5d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:13 +0000
Subject: [PATCH 27/71] fix: prefix and suffix validators raised TypeError on
 values of another type

---
 jsonclasses/modifiers/hasprefix_modifier.py  | 10 ++++++----
 jsonclasses/modifiers/hassuffix_modifier.py  | 10 ++++++----
 jsonclasses/modifiers/isprefixof_modifier.py | 11 +++++++----
 jsonclasses/modifiers/issuffixof_modifier.py | 10 ++++++----
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index 22ff304..b8c6b82 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -14,10 +14,12 @@ class HasPrefixModifier(Modifier):
         self.prefix = prefix
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, list):
-            prefix = self.resolve_param(self.prefix, ctx)
+        if ctx.val is None:
+            return
+        prefix = self.resolve_param(self.prefix, ctx)
+        if isinstance(ctx.val, list) and isinstance(prefix, list):
             if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
-        elif type(ctx.val) is str:
-            if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
+        elif isinstance(ctx.val, str) and isinstance(prefix, str):
+            if not ctx.val.startswith(prefix):
                 ctx.raise_vexc('prefix is not found')
diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index 46ddb21..620531a 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -14,10 +14,12 @@ class HasSuffixModifier(Modifier):
         self.suffix = suffix
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, list):
-            suffix = self.resolve_param(self.suffix, ctx)
+        if ctx.val is None:
+            return
+        suffix = self.resolve_param(self.suffix, ctx)
+        if isinstance(ctx.val, list) and isinstance(suffix, list):
             if not ctx.val[max(len(ctx.val) - len(suffix), 0):] == suffix:
                 ctx.raise_vexc('suffix is not found')
-        elif type(ctx.val) is str:
-            if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
+        elif isinstance(ctx.val, str) and isinstance(suffix, str):
+            if not ctx.val.endswith(suffix):
                 ctx.raise_vexc('suffix is not found')
diff --git a/jsonclasses/modifiers/isprefixof_modifier.py b/jsonclasses/modifiers/isprefixof_modifier.py
index 7b5d08e..affd2f7 100644
--- a/jsonclasses/modifiers/isprefixof_modifier.py
+++ b/jsonclasses/modifiers/isprefixof_modifier.py
@@ -14,9 +14,12 @@ class IsPrefixOfModifier(Modifier):
         self.prefix = prefix
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, list):
-            if not self.resolve_param(self.prefix, ctx)[:len(ctx.val)] == ctx.val:
+        if ctx.val is None:
+            return
+        prefix = self.resolve_param(self.prefix, ctx)
+        if isinstance(ctx.val, list) and isinstance(prefix, list):
+            if not prefix[:len(ctx.val)] == ctx.val:
                 ctx.raise_vexc('prefix is not found')
-        elif type(ctx.val) is str:
-            if not self.resolve_param(self.prefix, ctx).startswith(ctx.val):
+        elif isinstance(ctx.val, str) and isinstance(prefix, str):
+            if not prefix.startswith(ctx.val):
                 ctx.raise_vexc('prefix is not found')
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index 8e62719..df4afdd 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -14,10 +14,12 @@ class IsSuffixOfModifier(Modifier):
         self.suffix = suffix
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, list):
-            whole = self.resolve_param(self.suffix, ctx)
+        if ctx.val is None:
+            return
+        whole = self.resolve_param(self.suffix, ctx)
+        if isinstance(ctx.val, list) and isinstance(whole, list):
             if not whole[max(len(whole) - len(ctx.val), 0):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
-        elif type(ctx.val) is str:
-            if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
+        elif isinstance(ctx.val, str) and isinstance(whole, str):
+            if not whole.endswith(ctx.val):
                 ctx.raise_vexc('suffix is not found')
-- 
2.43.0


From cf1898370921511ec208a50785bbc9a03917549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 28/71] fix: repeated objects in input lost their write
 protected values

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 34f6211..bfcaea3 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -174,7 +174,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From 6f3ff51276a169fca8ea3390631563a4cadbd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:34 +0000
Subject: [PATCH 29/71] fix: nested objects in input were validated and guarded
 against defaults before their values

---
 jsonclasses/jsonclassify.py                  | 16 ++++++++++++++--
 jsonclasses/modifiers/instanceof_modifier.py | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c52f6cf..a04d5f3 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -33,6 +33,14 @@ def __init__(self: JObject, **kwargs: dict[str, Any]) -> None:
     validation and transformation are applied during the initialization
     process.
     """
+    self._set_blank()
+    self._set(single_key_args(kwargs), fill_blanks=True)
+    self._keypath_set(compound_key_args(kwargs))
+    self._put_to_graph()
+
+
+def _set_blank(self: JObject) -> None:
+    """Set up a new object with all fields null."""
     if self.__class__.cdef.jconf.abstract:
         raise AbstractJSONClassException(self.__class__)
     self._set_initial_status()
@@ -48,8 +56,10 @@ def __init__(self: JObject, **kwargs: dict[str, Any]) -> None:
                 setattr(self, local_key, None)
             self._local_keys.add(local_key)
             self._local_key_map[local_key] = field.name
-    self._set(single_key_args(kwargs), fill_blanks=True)
-    self._keypath_set(compound_key_args(kwargs))
+
+
+def _put_to_graph(self: JObject) -> None:
+    """Put this object to its own graph if it has a primary key."""
     try:
         self._graph.put(self)
     except UnlinkableJSONClassException:
@@ -1036,6 +1046,8 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_.complete = complete
     class_.include = include
     # protected methods
+    class_._set_blank = _set_blank
+    class_._put_to_graph = _put_to_graph
     class_._set = _set
     class_._keypath_set = _keypath_set
     class_._set_to_container = _set_to_container
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index bfcaea3..f3e2e94 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -82,6 +82,11 @@ class InstanceOfModifier(Modifier):
             tsfmd = field.types.modifier.transform(dctx)
             setattr(dest, field.name, tsfmd)
 
+    def _blank_object(self, cls: type[JObject]) -> JObject:
+        dest = cls.__new__(cls)
+        dest._set_blank()
+        return dest
+
     def _has_field_value(self, field: JField, keys: Sequence[str]) -> bool:
         return field.json_name in keys or field.name in keys
 
@@ -109,6 +114,7 @@ class InstanceOfModifier(Modifier):
         else:
             pvalue = None
         soft_apply_mode = False
+        fill_blanks = ctx.ctxcfg.fill_dest_blanks
         if ctx.original is not None:
             dest = ctx.original
             if pvalue is not None:
@@ -119,10 +125,12 @@ class InstanceOfModifier(Modifier):
                 dest = exist_item
                 soft_apply_mode = True
             else:
-                dest = cls()
+                dest = self._blank_object(cls)
+                fill_blanks = True
                 ctx.mgraph.putp(pvalue, dest)
         else:
-            dest = cls()
+            dest = self._blank_object(cls)
+            fill_blanks = True
             ctx.mgraph.put(dest)
 
         # strictness check
@@ -158,7 +166,7 @@ class InstanceOfModifier(Modifier):
                         if ctx.val.get(crefname) is not None:
                             setattr(dest, refname, ctx.val.get(crefname))
                     pass
-                elif ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
+                elif fill_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
@@ -174,7 +182,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
+                if fill_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
@@ -185,6 +193,8 @@ class InstanceOfModifier(Modifier):
         for cname in nonnull_ref_lists:
             if getattr(dest, cname) is None:
                 setattr(dest, cname, [])
+        if ctx.original is None and not soft_apply_mode:
+            dest._put_to_graph()
         return dest
 
     def tojson(self, ctx: Ctx) -> Any:
-- 
2.43.0


From 53b364b5a3d0c3ee2f21fd911ba52e986af7385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:59 +0000
Subject: [PATCH 30/71] fix: changing collections of new objects recorded
 previous values

---
 jsonclasses/jsonclassify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a04d5f3..4acfff0 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -799,6 +799,8 @@ def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
 
 def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(odict.keypath)
     field = self.__class__.cdef.field_named(name)
     if self.__class__.cdef.jconf.reset_all_fields or \
@@ -836,6 +838,8 @@ def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
 
 def __olist_will_change__(self, olist: OwnedList) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(olist.keypath)
     try:
         field = self.__class__.cdef.field_named(name)
-- 
2.43.0


From 693f9b096099b0a7e68dd00ec7e4b1ca08ee541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:06 +0000
Subject: [PATCH 31/71] fix: tsupdated defaulted to a naive local time

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..96447ef 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
-- 
2.43.0


From 53b06d536bf8791c892341f76cd80c9009aa0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:43 +0000
Subject: [PATCH 32/71] fix: previous values of collections in any and union
 fields were not recorded

---
 jsonclasses/jsonclassify.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 4acfff0..931f0fd 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -808,12 +808,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            value = getattr(self, name)
+            if isinstance(value, dict):
+                self.previous_values[name] = unowned_copy_dict(value)
+            if isinstance(value, list):
+                self.previous_values[name] = unowned_copy_list(value)
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
@@ -852,12 +851,11 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            value = getattr(self, name)
+            if isinstance(value, dict):
+                self.previous_values[name] = unowned_copy_dict(value)
+            if isinstance(value, list):
+                self.previous_values[name] = unowned_copy_list(value)
 
 
 def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
-- 
2.43.0


From ebb0a485818aea719b0121483e2980f7da8013bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:18 +0000
Subject: [PATCH 33/71] fix: unlinking from the other side left is_modified
 false and marked new objects

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 931f0fd..cd9382a 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -958,7 +958,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        item._is_modified = True
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From 8673265a6fd04798bb0acc0ef4907fd7101f6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 34/71] fix: replacing an item of a referenced list kept the
 old reference key

---
 jsonclasses/jsonclassify.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index cd9382a..50a6b54 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -879,7 +879,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             if len(rlist) != len(olist):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
-                rlist.insert(idx, val._id)
+                list.insert(rlist, idx, val._id)
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
             self, val, concat_keypath(olist.keypath, idx)))
@@ -900,13 +900,12 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._modified_fields.add(fname)
             self._is_modified = True
         flist = getattr(self, fname)
-        if isinstance(flist, list):
-            if len(flist) != len(olist):
-                # TODO: reorder flist here
-                # TODO: replace the underneath implementation
-                match = next((v for v in flist if v._id == val), "PLACEHOLDER")
-                if match != "PLACEHOLDER":
-                    flist.remove(match)
+        if isinstance(flist, list) and val not in olist:
+            # TODO: reorder flist here
+            # TODO: replace the underneath implementation
+            match = next((v for v in flist if v._id == val), None)
+            if match is not None:
+                flist.remove(match)
         return
     try:
         field = cdef.field_named(olist.keypath)
@@ -919,9 +918,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val is not None and val._id in rlist:
-                    rlist.remove(val._id)
+            if val is not None and val._id in rlist:
+                list.remove(rlist, val._id)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 9c9a60c8ca6c7e019c366fb3c7554f15176c79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:47 +0000
Subject: [PATCH 35/71] fix: swapping items of a linked list lost one of them

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 50a6b54..1e21642 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -912,7 +912,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     except ValueError:
         field = None
     if field and field.fdef.is_ref:
-        self.__unlink_field__(field, [val])
+        if not any(item is val for item in olist):
+            self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
             ## TODO: replace the underneath implementation
             rkes = cdef.jconf.ref_name_strategy
-- 
2.43.0


From 76585009674382ee6301b137d994a4ebfcdbcc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:40 +0000
Subject: [PATCH 36/71] fix: appending to a referenced list with unloaded keys
 lost the new key

---
 jsonclasses/jsonclassify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 1e21642..780fac5 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -876,9 +876,10 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val._id is None:
-                    raise ValueError('a referenced object must have a valid primary key')
+            if val._id is None:
+                raise ValueError('a referenced object must have a valid primary key')
+            keys = [item._id for item in olist if isjsonobject(item)]
+            if rlist.count(val._id) < keys.count(val._id):
                 list.insert(rlist, idx, val._id)
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
-- 
2.43.0


From 3ef6a866afcdeca61fbbf53848102f45d6600cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:46 +0000
Subject: [PATCH 37/71] fix: sorting a referenced list left its reference keys
 unsorted

---
 jsonclasses/jsonclassify.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 780fac5..99fc476 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -929,11 +929,21 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
 
 
 def __olist_sor__(self, olist: OwnedList) -> None:
-    # TODO: sort local keys here
+    cdef = self.__class__.cdef
+    name = self._local_key_map.get(olist.keypath, olist.keypath)
+    try:
+        field = cdef.field_named(olist.keypath)
+    except ValueError:
+        field = None
+    if field is not None and field.is_local_many_ref:
+        rlist = getattr(self, cdef.jconf.ref_name_strategy(field))
+        keys = [item._id for item in olist if isjsonobject(item)]
+        list.sort(rlist, key=lambda key: (
+            keys.index(key) if key in keys else len(keys)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-        self._modified_fields.add(olist.keypath)
+        self._modified_fields.add(name)
 
 
 def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
-- 
2.43.0


From 16dc843c5112e05a4c7198a117d89c9295999ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:09 +0000
Subject: [PATCH 38/71] fix: assigning reference keys lost keys of objects
 already linked

---
 jsonclasses/jsonclassify.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 99fc476..a7bdf14 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -701,8 +701,6 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 self.__original_setattr__(name, value)
                 setattr(self, field_name, None)
         elif field.fdef.ftype == FType.LIST:
-            olist = to_owned_list(self, value or [], name)
-            self.__original_setattr__(name, olist)
             if (value is None) or (value is []):
                 setattr(self, field_name, [])
             else:
@@ -715,7 +713,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
-            value = olist
+            value = to_owned_list(self, value or [], name)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
-- 
2.43.0


From 27b11b7fafb47b53f43053b4c783a13f48c78b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:20 +0000
Subject: [PATCH 39/71] fix: swapping items of a referenced list misordered its
 reference keys

---
 jsonclasses/jsonclassify.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a7bdf14..9af6293 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -879,6 +879,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             keys = [item._id for item in olist if isjsonobject(item)]
             if rlist.count(val._id) < keys.count(val._id):
                 list.insert(rlist, idx, val._id)
+            self.__align_local_keys__(field, olist)
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
             self, val, concat_keypath(olist.keypath, idx)))
@@ -934,16 +935,23 @@ def __olist_sor__(self, olist: OwnedList) -> None:
     except ValueError:
         field = None
     if field is not None and field.is_local_many_ref:
-        rlist = getattr(self, cdef.jconf.ref_name_strategy(field))
-        keys = [item._id for item in olist if isjsonobject(item)]
-        list.sort(rlist, key=lambda key: (
-            keys.index(key) if key in keys else len(keys)))
+        self.__align_local_keys__(field, olist)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
         self._modified_fields.add(name)
 
 
+def __align_local_keys__(self: JObject,
+                         field: JField,
+                         olist: OwnedList) -> None:
+    """Put the reference keys of a fully loaded list in the list's order."""
+    rlist = getattr(self, self.__class__.cdef.jconf.ref_name_strategy(field))
+    keys = [item._id for item in olist if isjsonobject(item)]
+    if len(rlist) == len(keys) and all(key in keys for key in rlist):
+        list.__setitem__(rlist, slice(None), keys)
+
+
 def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
     items: list[JObject] = []
     if field.fdef.ftype == FType.INSTANCE:
@@ -1101,6 +1109,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_.__olist_add__ = __olist_add__
     class_.__olist_del__ = __olist_del__
     class_.__olist_sor__ = __olist_sor__
+    class_.__align_local_keys__ = __align_local_keys__
     class_.__unlink_field__ = __unlink_field__
     class_.__link_field__ = __link_field__
     class_.__link_graph__ = __link_graph__
-- 
2.43.0


From f4b1cc2debad9de224901a2b2643cb640b8386b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:27 +0000
Subject: [PATCH 40/71] fix: linking from the other side dropped reference keys
 of unloaded objects

---
 jsonclasses/jsonclassify.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 9af6293..b015cdf 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -1007,7 +1007,15 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             if not isinstance(getattr(item, other_field.name), list):
-                setattr(item, other_field.name, [self])
+                if other_field.is_local_many_ref:
+                    # linked objects are not loaded, their keys remain
+                    tsfm = item.__class__.cdef.jconf.ref_name_strategy
+                    keys = list(getattr(item, tsfm(other_field)))
+                    setattr(item, other_field.name, [self])
+                    rlist = getattr(item, tsfm(other_field))
+                    list.extend(rlist, [k for k in keys if k not in rlist])
+                else:
+                    setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
                 if self not in getattr(item, other_field.name):
-- 
2.43.0


From b3640a457d839eff56c54bcc39babdada89ea36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:37 +0000
Subject: [PATCH 41/71] fix: equal but distinct objects were not linked

---
 jsonclasses/jsonclassify.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index b015cdf..a54df4c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -535,7 +535,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if not __has_object__(self._unlinked_objects[field_name], obj):
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -545,8 +545,8 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    self._unlinked_objects[field_name] = [
+        item for item in self._unlinked_objects[field_name] if item is not obj]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -680,6 +680,21 @@ def __is_private_attr__(name: str) -> bool:
     return name.startswith('_')
 
 
+def __has_object__(objects: list[Any], obj: JObject) -> bool:
+    """Returns true if this very object is in the list."""
+    return any(item is obj for item in objects)
+
+
+def __is_same_value__(field: JField, value: Any, current: Any) -> bool:
+    """Returns true if setting the value doesn't change the field."""
+    if not field.fdef.is_ref:
+        return value == current
+    if isinstance(value, list) and isinstance(current, list):
+        return len(value) == len(current) and all(
+            a is b for a, b in zip(value, current))
+    return value is current
+
+
 def __setattr__(self: JObject, name: str, value: Any) -> None:
     # use original setattr for private fields
     if __is_private_attr__(name):
@@ -734,7 +749,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
+    if hasattr(self, name) and \
+            __is_same_value__(field, value, getattr(self, name)):
         return
     # track modified and previous value
     if not self.is_new:
@@ -981,8 +997,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
-                    other_list.remove(self)
+                if __has_object__(other_list, self):
+                    del other_list[next(
+                        i for i, v in enumerate(other_list) if v is self)]
                     item._add_unlinked_object(other_field.name, self)
 
 
@@ -1002,7 +1019,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
@@ -1018,7 +1035,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                     setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                if not __has_object__(getattr(item, other_field.name), self):
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
-- 
2.43.0


From 4ff2b0ddcc03a45f6a431f6eec5bf5f5f9da8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:02 +0000
Subject: [PATCH 42/71] fix: repeated objects in input were not recognized by
 camelized primary keys

---
 jsonclasses/modifiers/instanceof_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index f3e2e94..5f35c96 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -109,8 +109,8 @@ class InstanceOfModifier(Modifier):
         cls = cast(type[JObject], ctx.fdef.inst_cls)
         pfield = cls.cdef.primary_field
         if pfield:
-            pkey = pfield.name
-            pvalue = cast(Union[str, int, None], ctx.val.get(pkey))
+            pvalue = cast(Union[str, int, None],
+                          self._get_field_value(pfield, ctx))
         else:
             pvalue = None
         soft_apply_mode = False
-- 
2.43.0


From 0c9abb04c05c2cee5e75d5e7bf519b379e78bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:59 +0000
Subject: [PATCH 43/71] fix: validators of object fields saw the value as the
 owner

---
 jsonclasses/ctx.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index 9b3dec9..73a14d0 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -190,12 +190,15 @@ class Ctx(NamedTuple):
 
     def nexto(self: Ctx, val: Any, key: str | int, fdef: FDef) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
-        return Ctx(root=self.root, owner=val, parent=val, holder=self.owner,
-                   val=val, original=None, ctxcfg=self.ctxcfg, keypatho=[],
-                   fkeypatho=[],
+        return Ctx(root=self.root, owner=self.owner, parent=self.parent,
+                   holder=self.owner,
+                   val=val, original=None, ctxcfg=self.ctxcfg,
+                   keypatho=[*self.keypatho, key],
+                   fkeypatho=[*self.fkeypatho, ekey],
                    keypathr=[*self.keypathr, key],
                    fkeypathr=[*self.fkeypathr, ekey],
-                   keypathp=[], fkeypathp=[],
+                   keypathp=[*self.keypathp, key],
+                   fkeypathp=[*self.fkeypathp, ekey],
                    keypathh=[key], fkeypathh=[ekey], fdef=fdef,
                    operator=self.operator,
                    mgraph=self.mgraph, idchain=self.idchain,
@@ -220,14 +223,15 @@ class Ctx(NamedTuple):
 
     def nextoc(self: Ctx, val: Any, key: str | int, fdef: FDef, c: str) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
-        return Ctx(root=self.root, owner=val, parent=val, holder=self.owner,
+        return Ctx(root=self.root, owner=self.owner, parent=self.parent,
+                   holder=self.owner,
                    val=val, original=None, ctxcfg=self.ctxcfg,
-                   keypatho=[],
-                   fkeypatho=[],
+                   keypatho=[*self.keypatho, key],
+                   fkeypatho=[*self.fkeypatho, ekey],
                    keypathr=[*self.keypathr, key],
                    fkeypathr=[*self.fkeypathr, ekey],
-                   keypathp=[],
-                   fkeypathp=[],
+                   keypathp=[*self.keypathp, key],
+                   fkeypathp=[*self.fkeypathp, ekey],
                    keypathh=[key],
                    fkeypathh=[ekey],
                    fdef=fdef,
-- 
2.43.0


From 534c7dde97fef8c12cb973d6a9a136d42fe3b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:15 +0000
Subject: [PATCH 44/71] fix: isthis and isobj took any two objects without
 primary keys as the same

---
 jsonclasses/modifiers/isobj_modifier.py  | 4 +++-
 jsonclasses/modifiers/isthis_modifier.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index f0d35f4..8060a8d 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -22,6 +22,8 @@ class IsObjModifier(Modifier):
         transformed = self.getter.modifier.transform(ctx)
         if transformed is None:
             ctx.raise_vexc('comparing value not found')
+        if transformed is ctx.val:
+            return
         this = cast(JObject | ObjRef, ctx.val)
         that = cast(JObject | ObjRef, transformed)
         if isjsonobject(this):
@@ -36,6 +38,6 @@ class IsObjModifier(Modifier):
         else:
             that_cls = that.cls
             that_id = that.id
-        if that_cls == this_cls and that_id == this_id:
+        if this_id is not None and that_cls == this_cls and that_id == this_id:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/modifiers/isthis_modifier.py b/jsonclasses/modifiers/isthis_modifier.py
index 22b42c6..14516a8 100644
--- a/jsonclasses/modifiers/isthis_modifier.py
+++ b/jsonclasses/modifiers/isthis_modifier.py
@@ -15,6 +15,6 @@ class IsThisModifier(Modifier):
         if ctx.val is ctx.owner:
             return None
         if ctx.val.__class__ == ctx.owner.__class__:
-            if ctx.val._id == ctx.owner._id:
+            if ctx.val._id is not None and ctx.val._id == ctx.owner._id:
                 return None
         ctx.raise_vexc('value is not this')
-- 
2.43.0


From 6ce0cbcce2f27768417788188bb9d10a64a4dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:14 +0000
Subject: [PATCH 45/71] fix: optional items in collection annotations were
 required

---
 jsonclasses/rtypes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 40d8ff5..21ed8e7 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -107,7 +107,7 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 match_data = match('^Optional\\[(.*)\\]', anytypes)
                 assert match_data is not None
                 item_type = match_data.group(1)
-                return str_to_types(item_type, opt=True)
+                return str_to_types(item_type, opt=True).nullable
             elif match('^[Ll]ist\\[', anytypes):
                 match_data = match('[Ll]ist\\[(.*)\\]', anytypes)
                 assert match_data is not None
@@ -134,13 +134,13 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
             if len(union_args) != len(union_results):
                 opt = True
             if len(union_results) == 1:
-                return str_to_types(union_results[0], opt)
+                return str_to_types(union_results[0], opt).nullable
             else:
                 results = []
                 for t in union_results:
                     results.append(str_to_types(t, True))
                 union = types.union(results)
-                return union if opt else union.required
+                return union.nullable if opt else union.required
 
 
 def to_types(anytypes: Any, opt: bool = False) -> Types:
@@ -188,13 +188,13 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
             else:
                 types_to_build_union.append(arg)
         if len(types_to_build_union) == 1:
-            return to_types(types_to_build_union[0], not required)
+            return to_types(types_to_build_union[0], not required).nullable
         else:
             results = []
             for t in types_to_build_union:
                 results.append(to_types(t, True))
             union = types.union(results)
-            return union if not required else union.required
+            return union.nullable if not required else union.required
     elif get_origin(anytypes) == Annotated:
         annotated_args = get_args(anytypes)
         len_args = len(annotated_args)
-- 
2.43.0


From 4204471054fda008a256d85fe7712eec8a19ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:05 +0000
Subject: [PATCH 46/71] fix: named types in unions were never resolved

---
 jsonclasses/modifiers/union_modifier.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 6c16b05..d5c5407 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -3,10 +3,11 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Any
 from ..excs import ValidationException
 from .modifier import Modifier
-from ..rtypes import rtypes
+from ..rtypes import rtypes, rnamedtypes
 from ..fdef import FDef, FType
 if TYPE_CHECKING:
     from ..ctx import Ctx
+    from ..types import Types
 
 
 class UnionModifier(Modifier):
@@ -20,12 +21,22 @@ class UnionModifier(Modifier):
         fdef._ftype = FType.UNION
         fdef._raw_union_types = [rtypes(t) for t in self.type_list]
 
+    def _union_types(self, ctx: Ctx) -> list[Types]:
+        union_types = ctx.fdef.raw_union_types
+        for i, types in enumerate(union_types):
+            if types.fdef._cdef is None:
+                types.fdef._cdef = ctx.owner.__class__.cdef
+            if types.fdef._unresolved_name:
+                cdef = types.fdef._cdef
+                types = rnamedtypes(types, cdef.jconf.cgraph, cdef.name)
+                types.fdef._cdef = cdef
+                union_types[i] = types
+        return union_types
+
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in self._union_types(ctx):
             try:
                 return types.modifier.transform(ctx.alterfdef(types.fdef))
             except:
@@ -35,9 +46,7 @@ class UnionModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in self._union_types(ctx):
             try:
                 types.modifier.validate(ctx.alterfdef(types.fdef))
                 return
@@ -48,9 +57,7 @@ class UnionModifier(Modifier):
     def serialize(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in self._union_types(ctx):
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
@@ -62,9 +69,7 @@ class UnionModifier(Modifier):
     def tojson(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in self._union_types(ctx):
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
-- 
2.43.0


From dbd6d58f35b63491d25e49c8db15ab166e700593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:32 +0000
Subject: [PATCH 47/71] fix: defining a subclass broke relationships and names
 of its parent

---
 jsonclasses/cdef.py  |  2 ++
 jsonclasses/types.py | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 27da2c8..e93cf21 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -73,6 +73,8 @@ class CDef:
             else:
                 types = rtypes(field.type)
                 default = field.default
+            if types.fdef._cdef is not None:  # inherited or shared types
+                types = types._unowned_copy()
             types.fdef._cdef = self
             jfield = JField(cdef=self, name=name, default=default, types=types)
             self._camelized_field_names.append(jfield.json_name)
diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 96447ef..367ab34 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -4,7 +4,7 @@ from ast import Call
 from typing import Callable, Any, Optional
 from datetime import date, datetime, timedelta, timezone
 from enum import Enum
-from copy import deepcopy
+from copy import copy, deepcopy
 from .jobject import JObject
 from .fdef import FDef
 from .modifiers import (BoolModifier, ChainedModifier, FValModifier, FObjModifier,
@@ -96,6 +96,18 @@ class Types:
                 arg.define(self.fdef)
             self.modifier = modifier
 
+    def _unowned_copy(self) -> Types:
+        """A copy of this types which another class definition can own.
+        """
+        result = copy(self)
+        result.fdef = copy(self.fdef)
+        result.fdef._cdef = None
+        result.fdef._inst_cls = None
+        result.fdef._enum_class = None
+        result.fdef._resolved_item_types = None
+        result.fdef._resolved_union_types = None
+        return result
+
     @property
     def invalid(self) -> Types:
         """Fields marked with invalid will never be valid, thus these fields
-- 
2.43.0


From fb5eb9f02083dd2ba969c8b8b7149a23eb7fbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:55 +0000
Subject: [PATCH 48/71] fix: objects of subclasses were linked from one side
 only

---
 jsonclasses/cdef.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index e93cf21..b5f1495 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -278,16 +278,16 @@ class CDef:
     def rfield(
             self: CDef, fcls: type[JObject], fname: Optional[str],
             fkey: Optional[str]) -> Optional[JField]:
-        for field in self._tuple_fields:
-            if field.foreign_class is fcls:
-                if fname is not None:
-                    if field.name == fname:
-                        return field
-                elif fkey is not None:
-                    if field.fdef.foreign_key == fkey:
-                        return field
-        else:
-            return None
+        for cls in fcls.__mro__:
+            for field in self._tuple_fields:
+                if field.foreign_class is cls:
+                    if fname is not None:
+                        if field.name == fname:
+                            return field
+                    elif fkey is not None:
+                        if field.fdef.foreign_key == fkey:
+                            return field
+        return None
 
     def _resolve_ref_types_if_needed(self: CDef) -> None:
         if self._ref_types_resolved is False:
-- 
2.43.0


From 50004c63fd3f9e5766872e6fdae6ff691a6f689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:51 +0000
Subject: [PATCH 49/71] fix: union fields read input with the first type even
 when its result is not valid

---
 jsonclasses/modifiers/union_modifier.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index d5c5407..fc7bebc 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -36,12 +36,17 @@ class UnionModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
+        results = []
         for types in self._union_types(ctx):
+            newctx = ctx.alterfdef(types.fdef)
             try:
-                return types.modifier.transform(ctx.alterfdef(types.fdef))
+                val = types.modifier.transform(newctx)
+                results.append(val)
+                types.modifier.validate(newctx.nval(val))
+                return val
             except:
                 continue
-        return ctx.val
+        return results[0] if results else ctx.val
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From cff7585353c300ab0e7870f02821f37be3727a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:57 +0000
Subject: [PATCH 50/71] fix: save skipped the hooks of objects in union fields
 and dropped invalid values

---
 jsonclasses/modifiers/union_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index fc7bebc..3c81706 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -5,6 +5,7 @@ from ..excs import ValidationException
 from .modifier import Modifier
 from ..rtypes import rtypes, rnamedtypes
 from ..fdef import FDef, FType
+from ..mgraph import MGraph
 if TYPE_CHECKING:
     from ..ctx import Ctx
     from ..types import Types
@@ -63,13 +64,13 @@ class UnionModifier(Modifier):
         if ctx.val is None:
             return None
         for types in self._union_types(ctx):
+            newctx = ctx.alterfdef(types.fdef)
             try:
-                newctx = ctx.alterfdef(types.fdef)
-                types.modifier.validate(newctx)
-                return types.modifier.serialize(newctx)
+                types.modifier.validate(newctx._replace(mgraph=MGraph()))
             except ValidationException:
                 continue
-        return None
+            return types.modifier.serialize(newctx)
+        return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
         if ctx.val is None:
-- 
2.43.0


From 73493232b1be13f35fd8bc8c3ffe269d5493b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:25 +0000
Subject: [PATCH 51/71] fix: union fields accepted input which every type
 refused

---
 jsonclasses/modifiers/union_modifier.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 3c81706..a0970f1 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -38,15 +38,22 @@ class UnionModifier(Modifier):
         if ctx.val is None:
             return None
         results = []
+        refused = False
         for types in self._union_types(ctx):
             newctx = ctx.alterfdef(types.fdef)
             try:
                 val = types.modifier.transform(newctx)
-                results.append(val)
+            except Exception:
+                refused = True
+                continue
+            try:
                 types.modifier.validate(newctx.nval(val))
-                return val
-            except:
+            except ValidationException:
+                results.append(val)
                 continue
+            return val
+        if refused:
+            ctx.raise_vexc('value is not of any provided type')
         return results[0] if results else ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-- 
2.43.0


From 1a47705f72175b685159ebd4fcf3a1ee04b5b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:33 +0000
Subject: [PATCH 52/71] fix: validation and save hooks skipped distinct objects
 with the same primary key

---
 jsonclasses/mgraph.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..9a0acc2 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -12,11 +12,9 @@ class MarkClassTable:
         self._memory_id_table = {}
 
     def put(self, object: JObject) -> None:
+        self._memory_id_table[hex(id(object))] = object
         pk = object._id
-        if pk is None:
-            memory_id = hex(id(object))
-            self._memory_id_table[memory_id] = object
-        else:
+        if pk is not None:
             self.putp(pk, object)
 
     def putp(self, pk: Union[str, int], object: JObject) -> None:
@@ -26,24 +24,10 @@ class MarkClassTable:
         self._primary_key_table[str(pk)] = object
 
     def has(self, object: JObject) -> bool:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return True
-        memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return True
-        return False
+        return self.get(object) is not None
 
     def get(self, object: JObject) -> Optional[JObject]:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return self._primary_key_table.get(str(pk))
-        memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return self._memory_id_table.get(memory_id)
-        return None
+        return self.getm(id(object))
 
     def getp(self, pk: Union[str, int]) -> Optional[JObject]:
         return self._primary_key_table.get(str(pk))
-- 
2.43.0


From 46634a3577f5a851dbb0724e1309dfae9150d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 53/71] fix: union fields accepted incomplete objects over
 later matching types

---
 jsonclasses/modifiers/union_modifier.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index a0970f1..2ccf0c2 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -38,23 +38,25 @@ class UnionModifier(Modifier):
         if ctx.val is None:
             return None
         results = []
-        refused = False
         for types in self._union_types(ctx):
             newctx = ctx.alterfdef(types.fdef)
             try:
                 val = types.modifier.transform(newctx)
             except Exception:
-                refused = True
                 continue
             try:
-                types.modifier.validate(newctx.nval(val))
+                types.modifier.validate(
+                    newctx.nval(val)._replace(mgraph=MGraph()))
             except ValidationException:
                 results.append(val)
                 continue
             return val
-        if refused:
-            ctx.raise_vexc('value is not of any provided type')
-        return results[0] if results else ctx.val
+        val = results[0] if results else ctx.val
+        try:
+            self.validate(ctx.nval(val)._replace(mgraph=MGraph()))
+        except ValidationException:
+            return val
+        ctx.raise_vexc('value is not of any provided type')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From 371fe0064dcee0362314e0858ac5f0585bf9c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 54/71] fix: an object refused by one type of a union was
 accepted unchecked by the next

---
 jsonclasses/mgraph.py                   | 11 +++++++++++
 jsonclasses/modifiers/union_modifier.py |  7 +++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index 9a0acc2..18f470d 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -69,6 +69,17 @@ class MGraph:
              memid: int) -> Optional[JObject]:
         return self.class_table(cls).getm(memid)
 
+    def copy(self) -> MGraph:
+        result = MGraph()
+        result.update(self)
+        return result
+
+    def update(self, other: MGraph) -> None:
+        for name, other_table in other._class_tables.items():
+            table = self._class_tables.setdefault(name, MarkClassTable())
+            table._primary_key_table.update(other_table._primary_key_table)
+            table._memory_id_table.update(other_table._memory_id_table)
+
     def __iter__(self) -> Iterator:
         lst = []
         for ct in self._class_tables.values():
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 2ccf0c2..3a62b8d 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -62,11 +62,14 @@ class UnionModifier(Modifier):
         if ctx.val is None:
             return
         for types in self._union_types(ctx):
+            mgraph = ctx.mgraph.copy()
             try:
-                types.modifier.validate(ctx.alterfdef(types.fdef))
-                return
+                types.modifier.validate(
+                    ctx.alterfdef(types.fdef)._replace(mgraph=mgraph))
             except ValidationException:
                 continue
+            ctx.mgraph.update(mgraph)
+            return
         ctx.raise_vexc('value is not of any provided type')
 
     def serialize(self, ctx: Ctx) -> Any:
-- 
2.43.0


From 52a923b3e81503b8fca0a68fbd439ef189212f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:19 +0000
Subject: [PATCH 55/71] fix: output of any fields shared the live lists and
 dicts of the object

---
 jsonclasses/modifiers/any_modifier.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jsonclasses/modifiers/any_modifier.py b/jsonclasses/modifiers/any_modifier.py
index a212e25..e58dbb8 100644
--- a/jsonclasses/modifiers/any_modifier.py
+++ b/jsonclasses/modifiers/any_modifier.py
@@ -1,7 +1,10 @@
 """module for alnum modifier."""
 from __future__ import annotations
+from typing import Any, TYPE_CHECKING
 from ..fdef import FDef, FType
 from .modifier import Modifier
+if TYPE_CHECKING:
+    from ..ctx import Ctx
 
 
 class AnyModifier(Modifier):
@@ -9,3 +12,13 @@ class AnyModifier(Modifier):
 
     def define(self, fdef: FDef) -> None:
         fdef._ftype = FType.ANY
+
+    def tojson(self, ctx: Ctx) -> Any:
+        return self._copy_collections(ctx.val)
+
+    def _copy_collections(self, val: Any) -> Any:
+        if isinstance(val, list):
+            return [self._copy_collections(v) for v in val]
+        if isinstance(val, dict):
+            return {k: self._copy_collections(v) for k, v in val.items()}
+        return val
-- 
2.43.0


From ea28ce9c0eb3fce8f27da092da03edfc94c7b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:33 +0000
Subject: [PATCH 56/71] fix: types reused as items or union members in another
 class kept the first class's graph

---
 jsonclasses/fdef.py                     | 3 ++-
 jsonclasses/modifiers/union_modifier.py | 3 ++-
 jsonclasses/types.py                    | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index a99c6a1..dbb0e08 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -344,7 +344,8 @@ class FDef:
             return cast(Types, None)
         if self._resolved_item_types is not None:
             return self._resolved_item_types
-        self._resolved_item_types = rtypes(self.raw_item_types)
+        self._resolved_item_types = rtypes(
+            self.raw_item_types)._unowned_copy()
         self._resolved_item_types.fdef._cdef = self.cdef
         self._resolved_item_types = rnamedtypes(
             self._resolved_item_types,
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 3a62b8d..eddda94 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -20,7 +20,8 @@ class UnionModifier(Modifier):
 
     def define(self, fdef: FDef) -> None:
         fdef._ftype = FType.UNION
-        fdef._raw_union_types = [rtypes(t) for t in self.type_list]
+        fdef._raw_union_types = [
+            rtypes(t)._unowned_copy() for t in self.type_list]
 
     def _union_types(self, ctx: Ctx) -> list[Types]:
         union_types = ctx.fdef.raw_union_types
diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 367ab34..27161ca 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -106,6 +106,9 @@ class Types:
         result.fdef._enum_class = None
         result.fdef._resolved_item_types = None
         result.fdef._resolved_union_types = None
+        if result.fdef._raw_union_types is not None:
+            result.fdef._raw_union_types = [
+                t._unowned_copy() for t in result.fdef._raw_union_types]
         return result
 
     @property
-- 
2.43.0


From 6bde998a49ecb48ea520556f545db23f3fddfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:17 +0000
Subject: [PATCH 57/71] fix: output omitted relationships of a referenced
 object named like the reference before

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 5f35c96..0ad0491 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -201,6 +201,7 @@ class InstanceOfModifier(Modifier):
         from ..jobject import JObject
         if ctx.val is None:
             return None
+        holder_path = ctx.keypatho
         ctx = ctx.rebased()
         val = cast(JObject, ctx.val)
         retval = {}
@@ -221,8 +222,8 @@ class InstanceOfModifier(Modifier):
                 if field.foreign_field:
                     isrf = field.foreign_field.fdef == ctx.fdef
                     if not isrf:
-                        if len(ctx.keypathr) > 1:
-                            key = ctx.keypathr[-2]
+                        if len(holder_path) > 1:  # an item of a collection
+                            key = holder_path[-2]
                             isrf = field.foreign_field.name == key
             if fd.fstore == FStore.LOCAL_KEY:
                 if val.is_partial:
-- 
2.43.0


From 256db7879ba62c4a5d1cfb6126b809a105de0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:18 +0000
Subject: [PATCH 58/71] fix: key paths which name no field raised
 AttributeError, camelized ones too

---
 jsonclasses/jsonclassify.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a54df4c..8a4da21 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -88,10 +88,18 @@ def _set(self: JObject,
 
 
 def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
+    cdef = self.__class__.cdef
     for key, value in kwargs.items():
         items = keypath_split(key)
+        field = next((f for f in cdef.fields if len(items) > 0
+                      and items[0] in (f.name, f.json_name)), None)
+        if field is None:
+            if cdef.jconf.strict_input:
+                raise ValidationException({key: 'key is not allowed'}, self)
+            continue
+        items[0] = field.name
         dest = getattr(self, items[0])
-        fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        fdef = field.types.fdef
         if fdef.write_rule in (WriteRule.NO_WRITE, WriteRule.WRITE_ONCE):
             continue
         used_items = [items[0]]
-- 
2.43.0


From 0819d9644eb7108b99e5af697a9f56973f2e843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:42 +0000
Subject: [PATCH 59/71] fix: numbers and datetimes out of range raised
 OverflowError instead of being refused

---
 jsonclasses/modifiers/datetime_modifier.py | 2 +-
 jsonclasses/modifiers/float_modifier.py    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 77a0a6a..0af2699 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -25,7 +25,7 @@ class DatetimeModifier(TypeModifier):
                 if retval.tzinfo is not None:
                     return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
-            except ValueError:
+            except (ValueError, OverflowError):
                 ctx.raise_vexc('wrong datetime format')
         elif type(ctx.val) is date:
             retval = datetime(ctx.val.year,
diff --git a/jsonclasses/modifiers/float_modifier.py b/jsonclasses/modifiers/float_modifier.py
index db16f28..d7edc01 100644
--- a/jsonclasses/modifiers/float_modifier.py
+++ b/jsonclasses/modifiers/float_modifier.py
@@ -19,5 +19,8 @@ class FloatModifier(TypeModifier):
         if ctx.val is None:
             return None
         if type(ctx.val) is int:
-            return float(ctx.val)
+            try:
+                return float(ctx.val)
+            except OverflowError:
+                return ctx.val
         return ctx.val
-- 
2.43.0


From 5d103f13ac3b17742ef675871ee5c00f662f4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:19 +0000
Subject: [PATCH 60/71] fix: validating a required list of references without a
 value raised AttributeError

---
 jsonclasses/modifiers/required_modifier.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/modifiers/required_modifier.py b/jsonclasses/modifiers/required_modifier.py
index caf7467..40417df 100644
--- a/jsonclasses/modifiers/required_modifier.py
+++ b/jsonclasses/modifiers/required_modifier.py
@@ -24,19 +24,19 @@ class RequiredModifier(Modifier):
             return
         if storage == FStore.LOCAL_KEY:
             if ctx.val is None:  # check key presence
-                jconf: JConf = ctx.holder.__class__.cdef.jconf
-                ko = str(ctx.keypathh[0])
-                field = ctx.holder.__class__.cdef.field_named(ko)
+                jconf: JConf = ctx.owner.__class__.cdef.jconf
+                ko = str(ctx.keypatho[0])
+                field = ctx.owner.__class__.cdef.field_named(ko)
                 local_key = jconf.ref_name_strategy(field)
-                if isinstance(ctx.holder, dict):
-                    if ctx.holder.get(local_key) is None:
+                if isinstance(ctx.owner, dict):
+                    if ctx.owner.get(local_key) is None:
                         ctx.raise_vexc('value required')
-                elif isjsonobject(ctx.holder):
+                elif isjsonobject(ctx.owner):
                     try:
-                        local_key_value = getattr(ctx.holder, local_key)
+                        local_key_value = getattr(ctx.owner, local_key)
                     except AttributeError:
                         ctx.raise_vexc('value required')
-                    if local_key_value is None:
+                    if local_key_value is None or local_key_value == []:
                         ctx.raise_vexc('value required')
             return
         if ctx.val is None:
-- 
2.43.0


From b0e0b41ec517600c4ea48a9d77fc6e79f9f5757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 61/71] fix: including or completing an object recorded loads
 as previous values and broke tracking

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8a4da21..78db048 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -400,11 +400,13 @@ def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
+        saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
+        saved_previous_values = dict(self._previous_values)
         self._orm_complete()
         self._is_modified = saved_is_modified
         self._modified_fields = saved_modified_fields
+        self._previous_values = saved_previous_values
     return self
 
 
@@ -418,6 +420,7 @@ def include(self: JObject, field_name: str) -> JObject:
         cls = field.fdef.item_types.fdef.inst_cls
     modified_fields = self.modified_fields
     is_modified = self.is_modified
+    previous_values = dict(self.previous_values)
     if field.fdef.fstore == FStore.LOCAL_KEY:
         if field.fdef.ftype == FType.INSTANCE:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
@@ -452,6 +455,7 @@ def include(self: JObject, field_name: str) -> JObject:
             setattr(self, field.name, result)
     setattr(self, '_modified_fields', set(modified_fields))
     setattr(self, '_is_modified', is_modified)
+    setattr(self, '_previous_values', previous_values)
     return self
 
 def _orm_complete(self: JObject) -> JObject:
-- 
2.43.0


From dce09845475efe8767683a162363c7c2339050a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:03 +0000
Subject: [PATCH 62/71] fix: link commands for keys lost them on first use and
 raised for unknown ones

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 78db048..6cce613 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -516,6 +516,8 @@ def _mark_not_new(self: JObject) -> None:
 def _link_local_keys(self: JObject, fname: str, key: str | int) -> None:
     field = self.__class__.cdef.field_named(fname)
     ids_name = self.__class__.cdef.jconf.ref_name_strategy(field)
+    if getattr(self, fname) is None:
+        setattr(self, fname, [])
     if getattr(self, ids_name) is None:
         setattr(self, ids_name, [])
     getattr(self, ids_name).append(key)
@@ -524,7 +526,7 @@ def _link_local_keys(self: JObject, fname: str, key: str | int) -> None:
 def _unlink_local_keys(self: JObject, fname: str, key: str | int) -> None:
     field = self.__class__.cdef.field_named(fname)
     ids_name = self.__class__.cdef.jconf.ref_name_strategy(field)
-    if getattr(self, ids_name) is None:
+    if key not in (getattr(self, ids_name) or []):
         return
     getattr(self, ids_name).remove(key)
 
-- 
2.43.0


From 778e4b65e4428e3a7be61f440ced796f5db244d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:10 +0000
Subject: [PATCH 63/71] fix: filter by types failed on an item its transforms
 reject

---
 jsonclasses/modifiers/filter_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/filter_modifier.py b/jsonclasses/modifiers/filter_modifier.py
index 4c746d5..5839f75 100644
--- a/jsonclasses/modifiers/filter_modifier.py
+++ b/jsonclasses/modifiers/filter_modifier.py
@@ -20,8 +20,8 @@ class FilterModifier(Modifier):
         if isinstance(self.callback, Types):
             result = []
             for v in ctx.val:
-                tsfmd = self.callback.modifier.transform(ctx.nval(v))
                 try:
+                    tsfmd = self.callback.modifier.transform(ctx.nval(v))
                     self.callback.modifier.validate(ctx.nval(tsfmd))
                     result.append(v)
                 except:
-- 
2.43.0


From a4a6de01cb9b87d435d2b0a03f0943cef40349cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:56 +0000
Subject: [PATCH 64/71] fix: output of an inherited reference included the way
 back

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 0ad0491..87c789e 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -225,6 +225,11 @@ class InstanceOfModifier(Modifier):
                         if len(holder_path) > 1:  # an item of a collection
                             key = holder_path[-2]
                             isrf = field.foreign_field.name == key
+                        elif len(holder_path) == 1:  # an inherited field
+                            isrf = (field.foreign_field.name == holder_path[0]
+                                    and issubclass(
+                                        ctx.fdef.cdef.cls,
+                                        field.foreign_field.cdef.cls))
             if fd.fstore == FStore.LOCAL_KEY:
                 if val.is_partial:
                     if field.name not in val._partial_picks:
-- 
2.43.0


From b3e534a1419d29853c28ad55f5b5c7c36a2b8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 65/71] fix: oneisvalid and vmsg failed on types whose
 transforms reject the value

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 2 +-
 jsonclasses/modifiers/validate_modifier.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index 8fbf1cf..d222eb2 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -25,8 +25,8 @@ class OneIsValidModifier(Modifier):
         for item in self.subroutines:
             from ..types import Types
             if isinstance(item, Types):
-                tresult = item.modifier.transform(ctx)
                 try:
+                    tresult = item.modifier.transform(ctx)
                     item.modifier.validate(ctx.nval(tresult))
                     return
                 except ValidationException:
diff --git a/jsonclasses/modifiers/validate_modifier.py b/jsonclasses/modifiers/validate_modifier.py
index b88fdd1..ad582e3 100644
--- a/jsonclasses/modifiers/validate_modifier.py
+++ b/jsonclasses/modifiers/validate_modifier.py
@@ -24,8 +24,8 @@ class ValidateModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         from ..types import Types
         if isinstance(self.validator, Types):
-            tresult = self.validator.modifier.transform(ctx)
             try:
+                tresult = self.validator.modifier.transform(ctx)
                 self.validator.modifier.validate(ctx.nval(tresult))
                 return
             except ValidationException:
-- 
2.43.0


From 50e94392e6dec7c2d37cb3b4ae905c66d12a4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 66/71] fix: guards of types whose transforms reject raised
 validation errors

---
 jsonclasses/jsonclassify.py             | 2 +-
 jsonclasses/modifiers/cancu_modifier.py | 2 +-
 jsonclasses/modifiers/canr_modifier.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 6cce613..acdafe8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -608,8 +608,8 @@ def _can_cu_check_common(self: JObject,
     for callback in callbacks:
         if isinstance(callback, Types):
             ctx = Ctx.rootctx(self, CtxCfg())
-            tval = callback.modifier.transform(ctx)
             try:
+                tval = callback.modifier.transform(ctx)
                 callback.modifier.validate(ctx.nval(tval))
             except ValidationException:
                 raise UnauthorizedActionException(f'cannot {action}')
diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 71745c0..5836365 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -40,8 +40,8 @@ class CanCUModifier(Modifier):
                 ctx.raise_vexc(result)
             raise ValueError('invalid modifier')
         else:
-            transformed = self.checker.modifier.transform(ctx)
             try:
+                transformed = self.checker.modifier.transform(ctx)
                 self.checker.modifier.validate(ctx.nval(transformed))
             except ValidationException:
                 ctx.raise_vexc('operation is not permitted')
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 44b4c38..7080995 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -41,8 +41,8 @@ class CanRModifier(Modifier):
                 return None
             raise ValueError('invalid modifier')
         else:
-            transformed = self.checker.modifier.transform(ctx)
             try:
+                transformed = self.checker.modifier.transform(ctx)
                 self.checker.modifier.validate(ctx.nval(transformed))
                 return ctx.val
             except ValidationException:
-- 
2.43.0


From 34a26e8cc85d1149ddc6991442a263d03a298571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:30 +0000
Subject: [PATCH 67/71] fix: toint and tofloat raised ValueError for text which
 is not a number

---
 jsonclasses/modifiers/tofloat_modifier.py | 5 ++++-
 jsonclasses/modifiers/toint_modifier.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/tofloat_modifier.py b/jsonclasses/modifiers/tofloat_modifier.py
index 8b36aaf..dc20ff6 100644
--- a/jsonclasses/modifiers/tofloat_modifier.py
+++ b/jsonclasses/modifiers/tofloat_modifier.py
@@ -11,4 +11,7 @@ class ToFloatModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         is_str_or_bool = type(ctx.val) is bool or type(ctx.val) is str
-        return float(ctx.val) if is_str_or_bool else ctx.val
+        try:
+            return float(ctx.val) if is_str_or_bool else ctx.val
+        except ValueError:  # not the text of a number
+            return ctx.val
diff --git a/jsonclasses/modifiers/toint_modifier.py b/jsonclasses/modifiers/toint_modifier.py
index 88aec1b..20dbdec 100644
--- a/jsonclasses/modifiers/toint_modifier.py
+++ b/jsonclasses/modifiers/toint_modifier.py
@@ -11,4 +11,7 @@ class ToIntModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         is_str_or_bool = type(ctx.val) is bool or type(ctx.val) is str
-        return int(ctx.val) if is_str_or_bool else ctx.val
+        try:
+            return int(ctx.val) if is_str_or_bool else ctx.val
+        except ValueError:  # not the text of a number
+            return ctx.val
-- 
2.43.0


From 29b17e35c8bbcfa21761eca0890ca6787e00dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 68/71] fix: isobjof kept the class of the first class graph
 its chain was used in

---
 jsonclasses/modifiers/isobjof_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/isobjof_modifier.py b/jsonclasses/modifiers/isobjof_modifier.py
index ea9caee..e1321d7 100644
--- a/jsonclasses/modifiers/isobjof_modifier.py
+++ b/jsonclasses/modifiers/isobjof_modifier.py
@@ -15,7 +15,8 @@ class IsObjOfModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             ctx.raise_vexc('none is not object of a class')
-        if type(self.cls) is str:
-            self.cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(self.cls).cls
-        if not isinstance(ctx.val, self.cls):
-            ctx.raise_vexc(f'value is not instance of {self.cls.__name__}')
+        cls = self.cls
+        if type(cls) is str:
+            cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(cls).cls
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
-- 
2.43.0


From 8786ab043663687e86c1ed74ad383ebf6aabcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 69/71] fix: salt raised ValueError for text which bcrypt
 refuses

---
 jsonclasses/modifiers/salt_modifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/salt_modifier.py b/jsonclasses/modifiers/salt_modifier.py
index 5f9e747..ac0d17a 100644
--- a/jsonclasses/modifiers/salt_modifier.py
+++ b/jsonclasses/modifiers/salt_modifier.py
@@ -17,5 +17,8 @@ class SaltModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         from bcrypt import hashpw, gensalt
         if type(ctx.val) is str:
-            return hashpw(ctx.val.encode(), gensalt()).decode('utf-8')
+            try:
+                return hashpw(ctx.val.encode(), gensalt()).decode('utf-8')
+            except ValueError:
+                ctx.raise_vexc('value cannot be salted')
         return ctx.val
-- 
2.43.0


From 9eaf90246d27bc22d4811db285b2ed95d30bcefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 70/71] fix: checkpw raised ValueError for text which bcrypt
 refuses

---
 jsonclasses/modifiers/checkpw_modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/checkpw_modifier.py b/jsonclasses/modifiers/checkpw_modifier.py
index 83221fe..a7f42dc 100644
--- a/jsonclasses/modifiers/checkpw_modifier.py
+++ b/jsonclasses/modifiers/checkpw_modifier.py
@@ -23,5 +23,9 @@ class CheckpwModifier(Modifier):
             ctx.raise_vexc('value is incorrect')
         if type(ctx.val) is not str:
             ctx.raise_vexc('value is incorrect')
-        if not checkpw(against_val.encode(), ctx.val.encode()):
+        try:
+            matches = checkpw(against_val.encode(), ctx.val.encode())
+        except ValueError:
+            matches = False
+        if not matches:
             ctx.raise_vexc('value is incorrect')
-- 
2.43.0


From 35faba2d6059ef01fd612d99182c7a4b5cea7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 71/71] fix: fval failed on an empty list of references

---
 jsonclasses/modifiers/fval_modifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/fval_modifier.py b/jsonclasses/modifiers/fval_modifier.py
index fa08cb9..07dcbe8 100644
--- a/jsonclasses/modifiers/fval_modifier.py
+++ b/jsonclasses/modifiers/fval_modifier.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 from typing import Any, Callable, cast, TYPE_CHECKING
 from ..objref import ObjRef
 from ..jobject import JObject
-from ..fdef import FStore
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -24,7 +23,7 @@ class FValModifier(Modifier):
         val = cast(JObject, ctx.val)
         field = val.__class__.cdef.field_named(field_name)
         obj = getattr(val, field_name)
-        if field.fdef.fstore == FStore.LOCAL_KEY:
+        if field.is_local_one_ref:
             if obj is not None:
                 return obj
             else:
-- 
2.43.0

