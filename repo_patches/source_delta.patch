From 3d3c690c376dc994204369aac0f5235ee0435b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/82] fix: pad unions to their full size

Tail padding computed from the last member is placed at offset 0 in a union,
so a union larger than its largest member (union { int i; char c[6]; }) was
generated too small.
---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..90b6d18 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -853,6 +853,12 @@ class CursorHandler(ClangHandler):
             return
         # try to fix bitfields without padding first
         self._fixup_record_bitfields_type(s)
+        if isinstance(s, typedesc.Union):
+            # all members start at offset 0, so that padding only has an effect
+            # when it covers the whole union, and is only needed when no member does.
+            if all(m.bits < s.size * 8 for m in s.members):
+                self._make_padding(s.members, 0, 0, s.size * 8)
+            return
         # No need to lookup members in a global var.
         # Just fix the padding
         members = []
-- 
2.43.0


From 96bd3c2b085199d072ee7daed2aeec66ac58db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/82] fix: give function pointers the size of the target's
 pointers

A CFUNCTYPE always has the size of a local pointer, so records holding a
function pointer had the wrong layout for targets with another pointer size.
---
 ctypeslib/codegen/codegenerator.py | 4 ++++
 ctypeslib/data/pointer_type.tpl    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..6456306 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -144,6 +144,10 @@ class Generator:
             # else:
             return "%s * %s" % (self.type_name(t.typ, generate), t.size)
         if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):
+            if self.cross_arch_code_generation:
+                # a ctypes function pointer always has the size of a pointer of the local platform
+                self.enable_pointer_type()
+                return "FUNCTION_POINTER_T(%s)" % self.type_name(t.typ, generate)
             return self.type_name(t.typ, generate)
         if isinstance(t, typedesc.PointerType):
             pointer_class = self.enable_pointer_type()
diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 558eecf..0ae7b54 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -1,6 +1,8 @@
 # if local wordsize is same as target, keep ctypes pointer function.
 if ctypes.sizeof(ctypes.c_void_p) == __POINTER_SIZE__:
     POINTER_T = ctypes.POINTER
+    def FUNCTION_POINTER_T(functype):
+        return functype
 else:
     class IncorrectWordSizeError(TypeError):
         pass
@@ -38,3 +40,4 @@ else:
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
         ctypes._pointer_t_type_cache[clsname] = _class
         return _class
+    FUNCTION_POINTER_T = POINTER_T
-- 
2.43.0


From 0ca0584478313215f6b01dc0ab258cd0bf25828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 03/82] fix: cache emulated pointer types per module and per
 pointee

The cache was an attribute of the ctypes package keyed by class name: loading
a second module replaced the first one's pointer types, and pointers to
different types of the same name (function types, other modules' records)
were the same type.
---
 ctypeslib/data/pointer_type.tpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 0ae7b54..a1344ac 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -13,7 +13,7 @@ else:
     # ['__module__', 'from_param', '_type_', '__dict__', '__weakref__', '__doc__']
     # but the class should be submitted to a unique instance for each base type
     # to that if A == B, POINTER_T(A) == POINTER_T(B)
-    ctypes._pointer_t_type_cache = {}
+    _pointer_t_type_cache = {}
     def POINTER_T(pointee):
         # a pointer should have the same length as LONG
         fake_ptr_base_type = ctypes.__REPLACEMENT_TYPE__
@@ -23,8 +23,8 @@ else:
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
-        if clsname in ctypes._pointer_t_type_cache:
-            return ctypes._pointer_t_type_cache[clsname]
+        if pointee in _pointer_t_type_cache:
+            return _pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
             _type_ = '__REPLACEMENT_TYPE_CHAR__'
@@ -38,6 +38,6 @@ else:
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
-        ctypes._pointer_t_type_cache[clsname] = _class
+        _pointer_t_type_cache[pointee] = _class
         return _class
     FUNCTION_POINTER_T = POINTER_T
-- 
2.43.0


From 9a855545951a1a461dc9c23e53f6d3af869805c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 04/82] fix: size emulated pointers like a pointer of the
 target, not like a long

On targets with long wider than a pointer (avr, msp430) pointers were
generated too large.
---
 ctypeslib/codegen/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 6456306..75546f1 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -75,9 +75,8 @@ class Generator:
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
-        # assuming a LONG also has the same sizeof than a pointer.
         word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
-        word_type = self.parser.get_ctypes_name(TypeKind.ULONG)
+        word_type = "c_uint%d" % (word_size * 8)
         # pylint: disable=protected-access
         word_char = getattr(ctypes, word_type)._type_
         # replacing template values
-- 
2.43.0


From 80bc862fbd608710df768b1a283fae041b0a47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/82] fix: give each parser its own type conversion table

The table was a class attribute adapted in place by every new parser, so that
creating a parser for another target changed the output of existing ones.
---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..2904cb9 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -77,6 +77,8 @@ class Clang_Parser:
         self.tu = None
         self.tu_options = None
         self.flags = flags
+        # the conversion table is adapted to the target of this instance
+        self.ctypes_typename = dict(Clang_Parser.ctypes_typename)
         self.ctypes_sizes = {}
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
-- 
2.43.0


From 9cafbb2074e0f2f92e10ec4aff00fdba7fa6426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 06/82] fix: map a double of the size of a float to c_float

On avr double and long double have 4 bytes but were generated as c_double.
---
 ctypeslib/codegen/clangparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 2904cb9..ab4a001 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -289,10 +289,12 @@ typedef void* pointer_t;""",
         # 2015-01 reverse until better solution is found
         # the idea is that you cannot assume a c_double will be same format as a c_long_double.
         # at least this pass size TU
+        if size0 == size1:
+            self.ctypes_typename[TypeKind.DOUBLE] = "c_float"
         if size1 != size2:
             self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_long_double_t"
         else:
-            self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_double"
+            self.ctypes_typename[TypeKind.LONGDOUBLE] = self.ctypes_typename[TypeKind.DOUBLE]
 
         self.ctypes_sizes[TypeKind.FLOAT] = size0
         self.ctypes_sizes[TypeKind.DOUBLE] = size1
-- 
2.43.0


From 54ad26642e1d218f3e652a62aee778b387b1ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 07/82] fix: keep records that were forward declared before
 their definition

A record first seen as a forward declaration never got a location, so that it
was dropped from the output although it was defined later. The size of the
definition was not taken over either.
---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 90b6d18..2f95ef7 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -694,7 +694,11 @@ class CursorHandler(ClangHandler):
                 self.set_comment(obj, cursor)
                 declared_instance = True
         else:
+            # complete an earlier forward declaration
             obj = self.get_registered(name)
+            obj.size, obj.align = size, align
+            self.set_location(obj, cursor)
+            self.set_comment(obj, cursor)
             declared_instance = False
         # capture members declaration
         members = []
-- 
2.43.0


From 7c353fb2cbf32b71e4c7a8b59fd4c4b2b35907a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 08/82] fix: generate valid code for variables of union and
 record array type

A union variable was rendered as the repr of its description and an array of
records as 'struct_T * 2()', so that the generated module did not load.
---
 ctypeslib/codegen/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 75546f1..83221c0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -394,16 +394,16 @@ class Generator:
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
-            elif isinstance(tp.typ.typ, typedesc.Structure):
+            elif typedesc.is_record(tp.typ.typ):
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = "(%s)()" % self.type_name(tp.typ, False)
             else:
                 if tp.init is not None:
                     init_value = tp.init
                 else:
                     init_value = self.type_name(tp.typ, False) + "()"
 
-        elif isinstance(tp.typ, typedesc.Structure):
+        elif typedesc.is_record(tp.typ):
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
-- 
2.43.0


From 0a5ba180943aa917f2b57a570a049842fd7b5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 09/82] fix: choose the storage units of bitfields from the
 layout of the compiler

Bitfields of a group all got the type of the first one, which lost their
signedness, moved members and overlapped neighbours. Zero-width bitfields
produced code that does not load, and bitfields of unions were laid out one
after the other.
---
 ctypeslib/codegen/cursorhandler.py | 265 ++++++++++++++++-------------
 1 file changed, 151 insertions(+), 114 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2f95ef7..838e14a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -740,11 +740,16 @@ class CursorHandler(ClangHandler):
         return obj
 
     def _fixup_record_bitfields_type(self, s):
-        """Fix the bitfield packing issue for python ctypes, by changing the
-        bitfield type, and respecting compiler alignement rules.
+        """Give the bitfields of a record the types that makes ctypes lay them
+        out like the compiler did.
 
-        This method should be called AFTER padding to have a perfect continuous
-        layout.
+        ctypes allocates bitfields from storage units: consecutive bitfields
+        of types of the same size share a unit until it is full.
+        So we choose the storage units, from the offsets given by the
+        compiler, and then
+          - type each bitfield as an integer of the size of its unit, that has
+            the signedness of the bitfield,
+          - fill each unit with padding bitfields.
 
         There is one very special case:
             struct bytes3 {
@@ -754,96 +759,138 @@ class CursorHandler(ClangHandler):
             };
 
         where we would need to actually put a2 in the int32 bitfield.
-
-        We also need to change the member type to the smallest type possible
-        that can contains the number of bits.
-        Otherwise ctypes has strange bitfield rules packing stuff to the biggest
-        type possible.
-
-        ** but at the same time, if a bitfield member is from type x, we need to
-        respect that
         """
-        # phase 1, make bitfield, relying upon padding.
-        bitfields = []
-        bitfield_members = []
-        current_bits = 0
-        for m in s.members:
-            if m.is_bitfield:
-                bitfield_members.append(m)
-                if m.is_padding:
-                    # compiler says this ends the bitfield
-                    size = current_bits
-                    bitfields.append((size, bitfield_members))
-                    bitfield_members = []
-                    current_bits = 0
-                else:
-                    # size of padding is not included
-                    current_bits += m.bits
-            elif len(bitfield_members) == 0:
-                # no opened bitfield
+        if not any(m.is_bitfield for m in s.members):
+            return
+        if isinstance(s, typedesc.Union):
+            self._fixup_union_bitfields_type(s)
+            return
+        if any(m.offset < 0 for m in s.members):
+            return
+        # unnamed bitfields do not have to be there
+        named = [m for m in s.members if not (m.is_bitfield and m.is_anonymous)]
+        units = self._bitfield_units(s, s.members)
+        if units is None:
+            units = self._bitfield_units(s, named)
+        if units is None:
+            log.warning("%s: ctypes can not represent the layout of these bitfields", s.name)
+            return
+        # now fill the units
+        members = []
+        prev_size = None
+        for start, end, unit in units:
+            if not any(m.is_bitfield for m in unit):
+                members.extend(unit)
+                prev_size = None
                 continue
+            size = end - start
+            if prev_size and prev_size < size and members[-1].offset + members[-1].bits == start * 8:
+                # otherwise, ctypes would extend the previous unit
+                members.append(self._make_bitfield_separator(start * 8))
+            prev_size = size
+            offset = start * 8
+            for m in sorted(unit, key=lambda x: x.offset):
+                if m.offset > offset:
+                    members.append(self._make_bitfield_padding(offset, m.offset - offset, size))
+                if not m.is_bitfield:
+                    m.is_bitfield = True
+                    m.comment = "Promoted to bitfield member and type"
+                    log.info("%s.%s promoted to bitfield member and type", s.name, m.name)
+                self._set_bitfield_type(m, size)
+                members.append(m)
+                offset = m.offset + m.bits
+            if offset < end * 8:
+                members.append(self._make_bitfield_padding(offset, end * 8 - offset, size))
+        s.members = members
+
+    def _bitfield_units(self, s, members):
+        """Group members in storage units of 1, 2, 4 or 8 bytes. Members that
+        are not in such a unit are alone.
+        Returns a sorted list of (first byte, end byte, members),
+        or None when that is not possible."""
+        units = []
+        others = []
+        for m in members:
+            first, last = m.offset // 8, (m.offset + m.bits + 7) // 8
+            if not m.is_bitfield:
+                others.append((first, last, [m]))
+            elif units and first < units[-1][1]:
+                units[-1] = (units[-1][0], max(last, units[-1][1]), units[-1][2] + [m])
             else:
-                # we reach the end of the bitfield. Make calculations.
-                size = current_bits
-                bitfields.append((size, bitfield_members))
-                bitfield_members = []
-                current_bits = 0
-        if current_bits != 0:
-            size = current_bits
-            bitfields.append((size, bitfield_members))
-
-        # compilers tend to reduce the size of the bitfield
-        # to the bf_size
-        # set the proper type name for the bitfield.
-        for bf_size, members in bitfields:
-            name = members[0].type.name
-            pad_bits = 0
-            if bf_size <= 8:  # use 1 byte - type = char
-                # prep the padding bitfield size
-                pad_bits = 8 - bf_size
-            elif bf_size <= 16:  # use 2 byte
-                pad_bits = 16 - bf_size
-            elif bf_size <= 32:  # use 2 byte
-                pad_bits = 32 - bf_size
-            elif bf_size <= 64:  # use 2 byte
-                name = 'c_uint64'  # also the 3 bytes + char thing
-                pad_bits = 64 - bf_size
-            else:
-                name = 'c_uint64'
-                pad_bits = bf_size % 64 - bf_size
-            # change the type to harmonise the bitfield
-            log.debug('_fixup_record_bitfield_size: fix type to %s', name)
-            # set the whole bitfield to the appropriate type size.
-            for m in members:
-                m.type.name = name
-                if m.is_padding:
-                    # this is the last field.
-                    # reduce the size of this padding field to the
-                    m.bits = pad_bits
-            # and remove padding if the size is 0
-            if members[-1].is_padding and members[-1].bits == 0:
-                s.members.remove(members[-1])
-
-        # phase 2 - integrate the special 3 Bytes + char fix
-        for bf_size, members in bitfields:
-            if True or bf_size == 24:
-                # we need to check for a 3bytes + char corner case
-                m = members[-1]
-                i = s.members.index(m)
-                if len(s.members) > i + 1:
-                    # has to exists, no arch is aligned on 24 bits.
-                    next_member = s.members[i + 1]
-                    if next_member.bits == 8:
-                        # next_member field is a char.
-                        # it will be aggregated in a 32 bits space
-                        # we need to make it a member of 32bit bitfield
-                        next_member.is_bitfield = True
-                        next_member.comment = "Promoted to bitfield member and type (was char)"
-                        next_member.type = m.type
-                        log.info("%s.%s promoted to bitfield member and type", s.name, next_member.name)
+                units.append((first, last, [m]))
+        done = []
+        while units:
+            unit = units.pop(0)
+            best = None
+            for size in (1, 2, 4, 8):
+                for start in range(unit[0], unit[1] - size - 1, -1):
+                    if start < 0 or start + size < unit[1] or start + size > s.size:
                         continue
-        #
-        return
+                    inside = [x for x in done + units + others
+                              if x[0] < start + size and start < x[1]]
+                    promoted = [x for x in inside if x in others]
+                    if (any(x[0] < start or x[1] > start + size for x in inside) or
+                            not all(self._is_integer(x[2][0].type) for x in promoted)):
+                        continue
+                    cost = (len(promoted), start % size != 0)
+                    if best is None or cost < best[0]:
+                        best = (cost, start, size, inside)
+            if best is None:
+                return None
+            _, start, size, inside = best
+            content = list(unit[2])
+            for x in inside:
+                content.extend(x[2])
+                for group in (done, units, others):
+                    if x in group:
+                        group.remove(x)
+            done.append((start, start + size, content))
+        return sorted(done + others, key=lambda x: x[:2])
+
+    def _fixup_union_bitfields_type(self, s):
+        """The bitfields of an union all start at the first bit. """
+        members = []
+        for m in s.members:
+            if m.is_bitfield:
+                size = next(n for n in (1, 2, 4, 8) if m.bits <= n * 8)
+                if size > s.size and m.is_anonymous:
+                    # unnamed bitfields do not have to be there
+                    continue
+                if members and members[-1].is_bitfield:
+                    # otherwise, ctypes would continue the previous unit
+                    members.append(self._make_bitfield_separator(0))
+                self._set_bitfield_type(m, size)
+            members.append(m)
+        s.members = members
+
+    @staticmethod
+    def _is_integer(_type):
+        while isinstance(_type, typedesc.Typedef):
+            _type = _type.typ
+        return isinstance(_type, typedesc.Enumeration) or (
+            isinstance(_type, typedesc.FundamentalType) and
+            _type.name not in ('void', 'c_float', 'c_double', 'c_longdouble'))
+
+    @staticmethod
+    def _set_bitfield_type(member, size):
+        _type = member.type
+        while isinstance(_type, typedesc.Typedef):
+            _type = _type.typ
+        if isinstance(_type, typedesc.Enumeration):
+            signed = any(v.value < 0 for v in _type.values)
+        else:
+            signed = _type.name not in ('c_bool', 'c_ubyte') and not _type.name.startswith('c_u')
+        name = 'c_%sint%d' % ('' if signed else 'u', size * 8)
+        member.type = typedesc.FundamentalType(name, size, size)
+
+    @staticmethod
+    def _make_bitfield_padding(offset, length, size):
+        return typedesc.Field('PADDING_', typedesc.FundamentalType('c_uint%d' % (size * 8), size, size),
+                              offset, length, is_bitfield=True, is_padding=True)
+
+    def _make_bitfield_separator(self, offset):
+        _type = typedesc.FundamentalType(self.get_ctypes_name(TypeKind.CHAR_U), 1, 1)
+        return typedesc.Field('PADDING_', typedesc.ArrayType(_type, 0), offset, 0, is_padding=True)
 
     def _fixup_record(self, s):
         """Fixup padding on a record"""
@@ -852,6 +899,8 @@ class CursorHandler(ClangHandler):
             log.debug('FIXUP_STRUCT: no members')
             s.members = []
             return
+        # zero-width bitfields have already done their work on the offsets
+        s.members = [m for m in s.members if not m.is_bitfield or m.bits > 0]
         if s.size == 0:
             log.debug('FIXUP_STRUCT: struct has size %d', s.size)
             return
@@ -862,6 +911,7 @@ class CursorHandler(ClangHandler):
             # when it covers the whole union, and is only needed when no member does.
             if all(m.bits < s.size * 8 for m in s.members):
                 self._make_padding(s.members, 0, 0, s.size * 8)
+            self._number_padding(s.members)
             return
         # No need to lookup members in a global var.
         # Just fix the padding
@@ -869,8 +919,6 @@ class CursorHandler(ClangHandler):
         member = None
         offset = 0
         padding_nb = 0
-        member = None
-        prev_member = None
         # create padding fields
         # DEBUG FIXME: why are s.members already typedesc objet ?
         # fields = self.fields[s.name]
@@ -898,13 +946,11 @@ class CursorHandler(ClangHandler):
                     members,
                     padding_nb,
                     offset,
-                    length,
-                    prev_member)
+                    length)
             if member.type is None:
                 log.error('FIXUP_STRUCT: %s.type is None', member.name)
             members.append(member)
             offset = member.offset + member.bits
-            prev_member = member
         # tail padding if necessary
         if s.size * 8 != offset:
             length = s.size * 8 - offset
@@ -915,11 +961,11 @@ class CursorHandler(ClangHandler):
                 members,
                 padding_nb,
                 offset,
-                length,
-                prev_member)
+                length)
         if len(members) > 0:
             offset = members[-1].offset + members[-1].bits
         # go
+        self._number_padding(members)
         s.members = members
         log.debug("FIXUP_STRUCT: size:%d offset:%d", s.size * 8, offset)
         # if member and not member.is_bitfield:
@@ -931,27 +977,18 @@ class CursorHandler(ClangHandler):
     _fixup_Structure = _fixup_record
     _fixup_Union = _fixup_record
 
+    @staticmethod
+    def _number_padding(members):
+        for i, m in enumerate(m for m in members if m.is_padding):
+            m.name = 'PADDING_%d' % i
+
     def _make_padding(
-            self, members, padding_nb, offset, length, prev_member=None):
+            self, members, padding_nb, offset, length):
         """Make padding Fields for a specifed size."""
         name = 'PADDING_%d' % padding_nb
         padding_nb += 1
         log.debug("_make_padding: for %d bits", length)
-        if (length % 8) != 0 or (prev_member is not None and prev_member.is_bitfield):
-            if length > 32:
-                typename = "c_uint64"
-            elif length > 16:
-                typename = "c_uint32"
-            elif length > 8:
-                typename = "c_uint16"
-            else:
-                typename = "c_uint8"
-            padding = typedesc.Field(name,
-                                     typedesc.FundamentalType(typename, 1, 1),
-                                     offset, length, is_bitfield=True, is_padding=True)
-            members.append(padding)
-            return padding_nb
-        elif length > 8:
+        if length > 8:
             pad_bytes = length // 8
             padding = typedesc.Field(name,
                                      typedesc.ArrayType(
@@ -1093,7 +1130,7 @@ class CursorHandler(ClangHandler):
             self.register(_decl_name, _type)
         return typedesc.Field(name, _type, offset, bits,
                               is_bitfield=cursor.is_bitfield(),
-                              is_anonymous=cursor.is_anonymous())
+                              is_anonymous=cursor.is_anonymous() or not cursor.spelling)
 
     #############################
     # PREPROCESSING
-- 
2.43.0


From 3f2bc355b9c2b27a911ae73d7451dbf78a8f7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 10/82] fix: do not promote the members of an empty anonymous
 record

---
 ctypeslib/codegen/codegenerator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 83221c0..553d033 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -708,8 +708,10 @@ class Generator:
                 if f.name == '':
                     unnamed_fields[f] = "_%d" % len(unnamed_fields)
                 # otherwise, we want to keep that field's name
-        if unnamed_fields:
-            unnamed_fields_str = ", ".join("'%s'" % _ for _ in unnamed_fields.values())
+        # an empty record has no members to promote
+        anonymous = [name for f, name in unnamed_fields.items() if f.type.members]
+        if anonymous:
+            unnamed_fields_str = ", ".join("'%s'" % _ for _ in anonymous)
             print("%s_anonymous_ = (%s,)" % (prefix, unnamed_fields_str), file=self.stream)
         if len(fields) > 0:
             print("%s_fields_ = [" % prefix, file=self.stream)
-- 
2.43.0


From 77d3d974e94053345310220a047907f398c4e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 11/82] fix: name the unnamed enumerations of records

---
 ctypeslib/codegen/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..69a4251 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -145,7 +145,8 @@ class ClangHandler(object):
         if name == '':
             # if cursor.is_anonymous():
             # a unnamed object at the root TU
-            if (cursor.semantic_parent
+            # or an unnamed enumeration in a record
+            if (cursor.kind == CursorKind.ENUM_DECL or cursor.semantic_parent
                 and cursor.semantic_parent.kind == CursorKind.TRANSLATION_UNIT):
                 name = self.make_python_name(cursor.get_usr())
                 log.debug('get_unique_name: root unnamed type kind %s',cursor.kind)
-- 
2.43.0


From c824b59f8d1a215a55c5175fb09d15d9fb87bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 12/82] fix: take array and function parameters as the pointers
 they are

---
 ctypeslib/codegen/cursorhandler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 838e14a..164cf16 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -172,10 +172,19 @@ class CursorHandler(ClangHandler):
         attributes = []
         extern = False
         obj = typedesc.Function(name, returns, attributes, extern)
-        for arg in cursor.get_arguments():
+        # the parameters as the function gets them: arrays and functions
+        # are pointers there
+        _ftype = cursor.type.get_canonical()
+        _decayed = []
+        if _ftype.kind == TypeKind.FUNCTIONPROTO:
+            _decayed = list(_ftype.argument_types())
+        for i, arg in enumerate(cursor.get_arguments()):
             arg_obj = self.parse_cursor(arg)
             # if arg_obj is None:
             #    code.interact(local=locals())
+            _kind = arg.type.get_canonical().kind
+            if i < len(_decayed) and _kind != _decayed[i].kind and self.is_pointer_type(_decayed[i]):
+                arg_obj.typ = self.parse_cursor_type(_decayed[i])
             obj.add_argument(arg_obj)
         # code.interact(local=locals())
         self.register(name, obj)
-- 
2.43.0


From f3bde2a1c12488ae22a180bd38ad6ca20f700037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 13/82] fix: resolve typeof types

---
 ctypeslib/codegen/typehandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 1c535ef..f6bb4db 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -1,6 +1,6 @@
 """Handler for Type nodes from the clang AST tree."""
 
-from clang.cindex import TypeKind
+from clang.cindex import CursorKind, TypeKind
 
 from ctypeslib.codegen import typedesc
 from ctypeslib.codegen.util import log_entity
@@ -264,6 +264,10 @@ class TypeHandler(ClangHandler):
         Returns the canonical type instead.
         """
         _decl = _cursor_type.get_declaration()
+        _canonical = _cursor_type.get_canonical()
+        if _decl.kind == CursorKind.NO_DECL_FOUND and not self.is_unexposed_type(_canonical):
+            # not a named type, a typeof(int *) for example
+            return self.parse_cursor_type(_canonical)
         name = self.get_unique_name(_decl)  # _cursor)
         if self.is_registered(name):
             obj = self.get_registered(name)
-- 
2.43.0


From 24cea9c1a239cf76762e83b42d17589fa38fcabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 14/82] fix: evaluate the initializers of variables like the
 compiler

---
 ctypeslib/codegen/codegenerator.py | 10 +++--
 ctypeslib/codegen/cursorhandler.py | 65 +++++++++++++++++++++++++++---
 ctypeslib/codegen/util.py          | 56 +++++++++++++++++++++++++
 3 files changed, 123 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 553d033..670361b 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -377,7 +377,7 @@ class Generator:
             return
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
             if isinstance(tp.typ.typ, typedesc.FundamentalType) and (
-                tp.typ.typ.name in ["c_ubyte", "c_char", "c_wchar"]
+                tp.typ.typ.name in ["c_byte", "c_ubyte", "c_char", "c_wchar"]
             ):
                 # string
                 # FIXME a char * is not a python string.
@@ -389,7 +389,11 @@ class Generator:
                 # array of number
                 # CARE: size of elements must match size of array
                 # init_value = repr(tp.init)
-                init_value = "[%s]" % ",".join([str(x) for x in tp.init])
+                if isinstance(tp.init, list):
+                    init_value = "[%s]" % ",".join([str(x) for x in tp.init])
+                else:
+                    # a pointer
+                    init_value = self.type_name(tp.typ, False) + "()"
                 # we do NOT want Variable to be described as ctypes object
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
@@ -398,7 +402,7 @@ class Generator:
                 self._generate(tp.typ.typ)
                 init_value = "(%s)()" % self.type_name(tp.typ, False)
             else:
-                if tp.init is not None:
+                if isinstance(tp.init, list):
                     init_value = tp.init
                 else:
                     init_value = self.type_name(tp.typ, False) + "()"
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 164cf16..341a060 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -80,7 +80,18 @@ class CursorHandler(ClangHandler):
 
     @log_entity
     def DECL_REF_EXPR(self, cursor):  # noqa
-        return cursor.displayname
+        # an enumerator
+        value = util.evaluate_number(cursor)
+        return cursor.displayname if value is None else value
+
+    @log_entity
+    def PAREN_EXPR(self, cursor):  # noqa
+        value = util.evaluate_number(cursor)
+        return self.UNEXPOSED_EXPR(cursor) if value is None else value
+
+    CSTYLE_CAST_EXPR = PAREN_EXPR
+    CONDITIONAL_OPERATOR = PAREN_EXPR
+    CXX_UNARY_EXPR = PAREN_EXPR
 
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
@@ -286,7 +297,7 @@ class CursorHandler(ClangHandler):
                 self.get_unique_name(cursor))
             log.error(st)
             raise RuntimeError(st)
-        elif self.is_array_type(_ctype) or _ctype.kind == TypeKind.RECORD:  # noqa
+        elif self.is_array_type(_ctype) or _ctype.kind in (TypeKind.RECORD, TypeKind.ENUM):  # noqa
             _type = self.parse_cursor_type(_ctype)
         elif self.is_pointer_type(_ctype):
             # for example, extern Function pointer
@@ -348,7 +359,39 @@ class CursorHandler(ClangHandler):
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
                 init_value = init_value[0][1]
-        return init_value
+                if isinstance(init_value, list) and len(init_value) == 1:
+                    # a scalar in braces
+                    init_value = init_value[0]
+        return self._convert_init_value(_ctype, init_value)
+
+    def _convert_init_value(self, _ctype, value):
+        """Converts the value of an initializer to the kind of the variable."""
+        _ctype = _ctype.get_canonical()
+        if self.is_array_type(_ctype) and isinstance(value, list):
+            _element = _ctype.get_array_element_type()
+            if _element.kind in self._char_kinds and len(value) == 1 and isinstance(value[0], str) and len(value[0]) != 1:
+                # a string in braces
+                return value[0]
+            return [self._convert_init_value(_element, v) for v in value]
+        if _ctype.kind == TypeKind.ENUM or (
+                self.is_fundamental_type(_ctype) and _ctype.kind not in self._char_kinds):
+            if isinstance(value, str) and len(value) == 1:
+                value = ord(value)
+            elif isinstance(value, float) and _ctype.kind == TypeKind.BOOL:
+                value = bool(value)
+            elif isinstance(value, float) and _ctype.kind not in self._float_kinds:
+                value = int(value)
+            if _ctype.kind in self._signed_kinds and isinstance(value, int):
+                _half = 1 << (_ctype.get_size() * 8 - 1)
+                value = (value + _half) % (2 * _half) - _half
+        elif _ctype.kind in self._char_kinds and isinstance(value, float):
+            value = int(value)
+        return value
+
+    _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR, TypeKind.WCHAR,
+                   TypeKind.CHAR16, TypeKind.CHAR32]
+    _signed_kinds = [TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]
+    _float_kinds = [TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE]
 
     def _get_var_decl_init_value(self, _ctype, children):
         """
@@ -437,7 +480,7 @@ class CursorHandler(ClangHandler):
                 value = s[offset + 1:-offset - 1]
                 return value
             # we strip string delimiters
-            return value[1:-1]
+            return util.unescape_c_literal(value[1:-1])
         elif cursor.kind == CursorKind.MACRO_INSTANTIATION:  # noqa
             # prefix = value[:3].split('"')[0]
             return value
@@ -478,6 +521,15 @@ class CursorHandler(ClangHandler):
             # value = clang.cindex.conf.lib.clang_EvalResult_getAsInt(evaluated)
             # clang.cindex.conf.lib.clang_EvalResult_dispose(evaluated)
 
+        if tokens and cursor.kind in (CursorKind.INTEGER_LITERAL, CursorKind.FLOATING_LITERAL):  # noqa
+            value = util.evaluate_number(cursor)
+            if value is not None:
+                return value
+        elif cursor.kind == CursorKind.CHARACTER_LITERAL:  # noqa
+            value = util.evaluate_number(cursor)
+            if value is not None and not 0 <= value < 128:
+                # not a character everywhere
+                return value
         log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([str(t.spelling) for t in tokens]))
         if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut that works for unicode
@@ -592,7 +644,10 @@ class CursorHandler(ClangHandler):
 
     @log_entity
     def _operator_handling(self, cursor):
-        """Returns a string with the literal that are part of the operation."""
+        """Returns the value of the operation, or a string with its literals."""
+        value = util.evaluate_number(cursor)
+        if value is not None:
+            return value
         values = self._literal_handling(cursor)
         retval = ''.join([str(val) for val in values])
         log.debug('cursor.type.kind:%s', cursor.type.kind.name)
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f73248..47dc40f 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -4,9 +4,12 @@
 
 from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
+from clang.cindex import conf
 from collections.abc import Iterable
 
+import ctypes
 import logging
+import math
 import re
 
 from ctypeslib.codegen import typedesc
@@ -190,7 +193,60 @@ def body_is_all_string_tokens(macro_body):
     return False
 
 
+def _eval_function(name, restype, argtype=ctypes.c_void_p):
+    func = getattr(conf.lib, name)
+    func.restype = restype
+    func.argtypes = [argtype]
+    return func
+
+
+def evaluate_number(cursor):
+    """
+    Returns the number that the compiler computes for a constant expression,
+    or None when it is not a constant number.
+    """
+    result = _eval_function('clang_Cursor_Evaluate', ctypes.c_void_p, Cursor)(cursor)
+    if not result:
+        return None
+    try:
+        kind = _eval_function('clang_EvalResult_getKind', ctypes.c_int)(result)
+        if kind == 1:  # CXEval_Int
+            if _eval_function('clang_EvalResult_isUnsignedInt', ctypes.c_uint)(result):
+                return _eval_function('clang_EvalResult_getAsUnsigned', ctypes.c_ulonglong)(result)
+            return _eval_function('clang_EvalResult_getAsLongLong', ctypes.c_longlong)(result)
+        if kind == 2:  # CXEval_Float
+            value = _eval_function('clang_EvalResult_getAsDouble', ctypes.c_double)(result)
+            return value if math.isfinite(value) else None
+        return None
+    finally:
+        _eval_function('clang_EvalResult_dispose', None)(result)
+
+
+_c_escape_regex = re.compile(
+    r"\\(\n|x[0-9a-fA-F]+|[0-7]{1,3}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|.)", re.DOTALL
+)
+_c_simple_escapes = {
+    'a': '\a', 'b': '\b', 'e': '\x1b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '\n': ''
+}
+
+
+def unescape_c_literal(value):
+    """Returns the characters of a C string or character literal."""
+
+    def _char(match):
+        escape = match.group(1)
+        if escape[0] in 'xuU' and len(escape) > 1:
+            return chr(int(escape[1:], 16))
+        if escape[0] in '01234567':
+            return chr(int(escape, 8))
+        return _c_simple_escapes.get(escape, escape)
+
+    return _c_escape_regex.sub(_char, value)
+
+
 __all__ = [
+    'evaluate_number',
+    'unescape_c_literal',
     'get_cursor',
     'get_cursors',
     'get_tu',
-- 
2.43.0


From 2774a9e63df396f5df2721fa8e99de5245dfa867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 15/82] fix: generate macros with the value they have in C, or
 as comments

Suffixes in any case and order, octal, binary and hexadecimal floating
numbers, signs, nested parentheses, adjacent strings and escape sequences were
lost or gave a module which cannot be loaded.
---
 ctypeslib/codegen/codegenerator.py | 11 ++--
 ctypeslib/codegen/cursorhandler.py | 54 ++++++++++---------
 ctypeslib/codegen/util.py          | 83 ++++++++++++++++++++++++++++++
 3 files changed, 119 insertions(+), 29 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 670361b..b0c4714 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -229,13 +229,12 @@ class Generator:
                     body = float_value
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
-                if sum(x=='(' for x in body) != sum(x==')' for x in body):
-                    # unbalanced parens means comment
-                    print("# %s = %s # macro" % (macro.name, body), file=self.stream)
-                else:
+                if util.is_python_expression(body):
                     print("%s = %s # macro" % (macro.name, body), file=self.stream)
-                self.macros += 1
-                self.names.append(macro.name)
+                    self.macros += 1
+                    self.names.append(macro.name)
+                else:
+                    print("# %s = %s # macro" % (macro.name, body), file=self.stream)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 341a060..4113409 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -487,13 +487,9 @@ class CursorHandler(ClangHandler):
         elif cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
             c = value[-1]
             if c in ['"', "'"]:
-                value = re.sub('''^L%s''' % c , c, value)
-            else:
-                # unsigned int / long int / unsigned long int / long long int / unsigned long long int
-                # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
-                # FIXME combinaisons of u/U, l/L, ll/LL, and combined, plus z/Z combined with u/U
-                value = re.sub("(u|U|l|L|ul|UL|ll|LL|ull|ULL|z|Z|zu|ZU)$", "", value)
-            return value
+                value = re.sub('''^(L|u8|u|U)%s''' % c , c, value)
+                return repr(util.unescape_c_literal(value[1:-1]))
+            return util.python_number_literal(value)
         else:
             pass
         return value
@@ -605,10 +601,11 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.is_registered(value):
+                    macro = self.get_registered(value) if self.is_registered(value) else None
+                    if isinstance(macro, typedesc.Macro) and not macro.args:
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
-                        value = self.get_registered(value).body
+                        value = macro.body
                         log.debug("Found MACRO_DEFINITION token identifier : %s", value)
                     else:
                         value = typedesc.UndefinedIdentifier(value)
@@ -1232,22 +1229,26 @@ class CursorHandler(ClangHandler):
             # if len(unknowns) > 0:
             #     value = tokens
             # elif len(tokens) == 2:
-            if len(tokens) == 2:
+            constant = None
+            if self._is_function_like(cursor):
+                # #107, differentiate between function-like macro and expression in ()
+                str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
+                args = ''.join(str_tokens).replace(',', ', ')
+                str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
+                value = ''.join(str_tokens)
+            else:
+                constant = util.python_constant(tokens[1:])
+            if args is not None:
+                pass
+            elif constant is not None:
                 # #define key value
+                value = constant
+            elif len(tokens) == 2:
                 value = tokens[1]
-            elif len(tokens) == 3 and tokens[1] == '-':
-                value = ''.join(tokens[1:])
-            elif tokens[1] == '(':
-                # #107, differentiate between function-like macro and expression in ()
-                # valid tokens for us are are '()[0-9],.e' and terminating LluU
-                if any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
-                    # function macro or an expression.
-                    str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
-                    args = ''.join(str_tokens).replace(',', ', ')
-                    str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
-                    value = ''.join(str_tokens)
-                else:
-                    value = ''.join((str(_) for _ in tokens[1:tokens.index(')') + 1]))
+            elif (tokens[1] == '(' and tokens[-1] == ')' and
+                    not any(isinstance(x, typedesc.UndefinedIdentifier) for x in tokens)):
+                # an expression
+                value = ''.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
@@ -1280,6 +1281,13 @@ class CursorHandler(ClangHandler):
         obj.comment = comment
         return True
 
+    @staticmethod
+    def _is_function_like(cursor):
+        """A parenthesis next to the name begins the arguments of a macro"""
+        tokens = [t for _, t in zip(range(2), cursor.get_tokens())]
+        return (len(tokens) == 2 and tokens[1].spelling == '(' and
+                tokens[0].extent.end.offset == tokens[1].extent.start.offset)
+
     @log_entity
     def MACRO_INSTANTIATION(self, cursor):
         """We could use this to count instantiations
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 47dc40f..63a2cf1 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -7,6 +7,7 @@ from clang.cindex import TranslationUnit
 from clang.cindex import conf
 from collections.abc import Iterable
 
+import ast
 import ctypes
 import logging
 import math
@@ -244,8 +245,90 @@ def unescape_c_literal(value):
     return _c_escape_regex.sub(_char, value)
 
 
+def python_number_literal(value):
+    """Returns a C number as a Python literal, anything else as it is."""
+    match = re.match(r"^(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)([uUlLzZ]*)$", value)
+    if match:
+        digits = match.group(1)
+        if re.match(r"^0[0-7]+$", digits):
+            return "0o" + digits[1:]
+        return digits
+    if re.match(r"^0[xX][0-9a-fA-F.]*[pP][+-]?[0-9]+[fFlL]?$", value):
+        return repr(float.fromhex(value.rstrip("fFlL")))
+    return value
+
+
+def python_constant(tokens):
+    """
+    Returns the Python literal for the tokens of a number with signs, of a
+    character or of strings, in parentheses or not; None for anything else.
+    """
+    if not all(isinstance(token, str) for token in tokens):
+        return None
+    tokens = list(tokens)
+    if tokens and all(token_is_string(token) for token in tokens):
+        if len(tokens) == 1:
+            return tokens[0]
+        return repr("".join(ast.literal_eval(token) for token in tokens))
+    negative = False
+    while tokens and tokens[0] in ("-", "+", "("):
+        if tokens[0] == "(":
+            if tokens[-1] != ")":
+                return None
+            tokens = tokens[1:-1]
+            if not negative and tokens and all(token_is_string(token) for token in tokens):
+                return python_constant(tokens)
+        else:
+            negative ^= tokens[0] == "-"
+            tokens = tokens[1:]
+    if len(tokens) != 1:
+        return None
+    number = tokens[0]
+    if number[:1] in ("-", "+"):
+        # the value of another macro
+        negative ^= number[0] == "-"
+        number = number[1:]
+    if not re.match(r"^(0[xX][0-9a-fA-F]+|0[bBo][0-7]+|[0-9]+)$", number):
+        number = from_c_float_literal(number)
+        if number is None:
+            return None
+    return "-" + number if negative else number
+
+
+def is_python_expression(text):
+    """Is this text an expression of constants that Python computes like C"""
+
+    def number(node):
+        if isinstance(node, ast.Constant):
+            return isinstance(node.value, (int, float)) and not isinstance(node.value, bool)
+        if isinstance(node, ast.UnaryOp):
+            return isinstance(node.op, (ast.UAdd, ast.USub, ast.Invert)) and number(node.operand)
+        if isinstance(node, ast.BinOp):
+            return isinstance(node.op, (
+                ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor
+            )) and number(node.left) and number(node.right)
+        return False
+
+    def constant(node):
+        if isinstance(node, ast.Tuple):
+            return all(constant(element) for element in node.elts)
+        return (isinstance(node, ast.Constant) and isinstance(node.value, str)) or number(node)
+
+    try:
+        tree = ast.parse(text, mode="eval").body
+        if not constant(tree):
+            return False
+        eval(compile(ast.Expression(tree), "<macro>", "eval"), {"__builtins__": {}})
+    except (SyntaxError, ValueError, TypeError, OverflowError, MemoryError, RecursionError):
+        return False
+    return True
+
+
 __all__ = [
     'evaluate_number',
+    'is_python_expression',
+    'python_constant',
+    'python_number_literal',
     'unescape_c_literal',
     'get_cursor',
     'get_cursors',
-- 
2.43.0


From 9e050d69206380ff698bfabbb0439313d68bd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 16/82] fix: reach names that are keywords of Python or mangled
 in a class through globals()

---
 ctypeslib/codegen/codegenerator.py | 55 ++++++++++++++++++------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index b0c4714..b25ab11 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals
 
 import collections
 import ctypes
+import keyword
 import logging
 import os
 import pkgutil
@@ -162,10 +163,21 @@ class Generator:
         # elif isinstance(t, typedesc.Structure):
         # elif isinstance(t, typedesc.Typedef):
         # elif isinstance(t, typedesc.Union):
-        return t.name
+        if t.name.startswith("__"):
+            # Python mangles these names in the body of a class
+            return "globals()['%s']" % t.name
+        return self.identifier(t.name)
         # All typedesc typedefs should be handled
         # raise TypeError('This typedesc should be handled %s'%(t))
 
+    @staticmethod
+    def identifier(name):
+        """Returns the Python expression for a name of the module, which can be
+        a keyword of Python."""
+        if keyword.iskeyword(name):
+            return "globals()['%s']" % name
+        return name
+
     ################################################################
 
     _aliases = 0
@@ -216,7 +228,7 @@ class Generator:
             else:  # we assume it's a list
                 print("# %s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
         elif isinstance(macro.body, bool):
-            print("%s = %s # macro" % (macro.name, macro.body), file=self.stream)
+            print("%s = %s # macro" % (self.identifier(macro.name), macro.body), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         elif isinstance(macro.body, str):
@@ -230,7 +242,7 @@ class Generator:
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
                 if util.is_python_expression(body):
-                    print("%s = %s # macro" % (macro.name, body), file=self.stream)
+                    print("%s = %s # macro" % (self.identifier(macro.name), body), file=self.stream)
                     self.macros += 1
                     self.names.append(macro.name)
                 else:
@@ -238,7 +250,7 @@ class Generator:
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
-            print("%s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
+            print("%s = %s # macro" % (self.identifier(macro.name), " ".join([str(_) for _ in macro.body])), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         else:
@@ -248,7 +260,7 @@ class Generator:
             if float_value is not None:
                 body = float_value
             # or anything else that might be a valid python literal...
-            print("%s = %s # macro" % (macro.name, body), file=self.stream)
+            print("%s = %s # macro" % (self.identifier(macro.name), body), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         return
@@ -268,7 +280,7 @@ class Generator:
             "int32_t": "c_int32",
             "int64_t": "c_int64",
         }
-        name = self.type_name(tp)  # tp.name
+        name = self.identifier(tp.name)
         if isinstance(tp.typ, typedesc.FundamentalType) and tp.name in sized_types:
             print("%s = ctypes.%s" % (name, sized_types[tp.name]), file=self.stream)
             self.names.append(tp.name)
@@ -282,12 +294,12 @@ class Generator:
             #    self._generate(tp.typ)
             self._generate(tp.typ)
         # generate actual typedef code.
-        if tp.name != self.type_name(tp.typ):
+        if self.type_name(tp) != self.type_name(tp.typ):
             print("%s = %s" % (name, self.type_name(tp.typ)), file=self.stream)
 
             if isinstance(tp.typ, typedesc.Enumeration):
-                print("%s__enumvalues = %s__enumvalues" % (name, self.type_name(tp.typ)), file=self.stream)
-                self.names.append("%s__enumvalues" % name)
+                print("%s__enumvalues = %s__enumvalues" % (tp.name, tp.typ.name), file=self.stream)
+                self.names.append("%s__enumvalues" % tp.name)
 
         self.names.append(tp.name)
         self._typedefs += 1
@@ -355,7 +367,7 @@ class Generator:
             self._generate(tp.typ)
             # calling convention does not matter for in_dll...
             libname = self.get_sharedlib(dll_library, "cdecl")
-            print("%s = (%s).in_dll(%s, '%s')" % (tp.name, self.type_name(tp.typ), libname, tp.name), file=self.stream)
+            print("%s = (%s).in_dll(%s, '%s')" % (self.identifier(tp.name), self.type_name(tp.typ), libname, tp.name), file=self.stream)
             self.names.append(tp.name)
             # wtypes.h contains IID_IProcessInitControl, for example
             return
@@ -371,7 +383,7 @@ class Generator:
         # el
         if isinstance(tp.init, typedesc.FunctionType):
             _args = [x for x in tp.typ.iterArgNames()]
-            print("%s = %s # args: %s" % (tp.name, self.type_name(tp.init), _args), file=self.stream)
+            print("%s = %s # args: %s" % (self.identifier(tp.name), self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
             return
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
@@ -434,7 +446,7 @@ class Generator:
                 init_value = 0
         #
         # print it out
-        print("%s = %s # Variable %s" % (tp.name, init_value, self.type_name(tp.typ, False)), file=self.stream)
+        print("%s = %s # Variable %s" % (self.identifier(tp.name), init_value, self.type_name(tp.typ, False)), file=self.stream)
         #
         self.names.append(tp.name)
 
@@ -443,7 +455,7 @@ class Generator:
     def EnumValue(self, tp):
         # FIXME should be in parser
         value = int(tp.value)
-        print("%s = %d" % (tp.name, value), file=self.stream)
+        print("%s = %d" % (self.identifier(tp.name), value), file=self.stream)
         self.names.append(tp.name)
         self._enumvalues += 1
 
@@ -499,7 +511,7 @@ class Generator:
             else:
                 enum_ctype = 'ctypes.c_int' if has_negative else 'ctypes.c_uint'
 
-            print("%s = %s # enum" % (tp.name, enum_ctype), file=self.stream)
+            print("%s = %s # enum" % (self.identifier(tp.name), enum_ctype), file=self.stream)
             self.names.append(tp.name)
         self._enumtypes += 1
 
@@ -723,9 +735,6 @@ class Generator:
             for f in fields:
                 fieldname = unnamed_fields.get(f, f.name)
                 type_name = self.type_name(f.type)
-                # handle "__" prefixed names by using a wrapper
-                if type_name.startswith("__"):
-                    type_name = "globals()['%s']" % type_name
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
                     print("    ('%s', %s)," % (fieldname, type_name), file=self.stream)
@@ -863,11 +872,15 @@ class Generator:
             print("# %s %s" % func.location, file=self.stream)
         # Generate the function decl code
         print("try:", file=self.stream)
-        print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
-        print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
+        name = self.identifier(func.name)
+        if name == func.name:
+            print("    %s = %s.%s" % (name, libname, func.name), file=self.stream)
+        else:
+            print("    %s = getattr(%s, '%s')" % (name, libname, func.name), file=self.stream)
+        print("    %s.restype = %s" % (name, self.type_name(func.returns)), file=self.stream)
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
-        print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
+        print("    %s.argtypes = [%s]" % (name, ", ".join(args)), file=self.stream)
         print("except AttributeError:", file=self.stream)
         print("    pass", file=self.stream)
 
@@ -885,7 +898,7 @@ class Generator:
             print(
                 '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
-                    funcname=func.name,
+                    funcname=name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
                     file=func.location[0],
                     line=func.location[1],
-- 
2.43.0


From 6a2e91f592f255852e5d76d7d8d1632b93362e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 17/82] fix: let emulated pointers be created as null pointers

A pointer variable made the module of a target with another pointer size
fail to load.
---
 ctypeslib/data/pointer_type.tpl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index a1344ac..c6fcd29 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -35,8 +35,10 @@ else:
                 return '%s(%d)'%(clsname, self.value)
             def contents(self):
                 raise IncorrectWordSizeError('This is not a ctypes pointer.')
-            def __init__(self, **args):
-                raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
+            def __init__(self, *args, **kwargs):
+                # only the null pointer can be created
+                if args or kwargs:
+                    raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
         _pointer_t_type_cache[pointee] = _class
         return _class
-- 
2.43.0


From d479ebb0cb9495c5e2d30ac59f023d1ea4c35b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 18/82] fix: let as_dict convert records that hold null
 pointers

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..be4c139 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -22,7 +22,7 @@ class AsDictMixin:
                     value = [type_.as_dict(v) for v in value]
                 else:
                     value = [i for i in value]
-            elif hasattr(value, "contents") and hasattr(value, "_type_"):
+            elif isinstance(value, ctypes._Pointer):
                 # pointer
                 try:
                     if not hasattr(type_, "as_dict"):
-- 
2.43.0


From 01d0a7b4db3283d7e3d2e72b8e72abcf0f84fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 19/82] fix: generate the type of a variable before the
 variable

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index b25ab11..5098649 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -381,6 +381,7 @@ class Generator:
         #    self._notfound_variables += 1
         #    return
         # el
+        self._generate(tp.typ)
         if isinstance(tp.init, typedesc.FunctionType):
             _args = [x for x in tp.typ.iterArgNames()]
             print("%s = %s # args: %s" % (self.identifier(tp.name), self.type_name(tp.init), _args), file=self.stream)
@@ -410,7 +411,6 @@ class Generator:
                 # init_value_type = self.type_name(tp.typ, False)
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
             elif typedesc.is_record(tp.typ.typ):
-                self._generate(tp.typ.typ)
                 init_value = "(%s)()" % self.type_name(tp.typ, False)
             else:
                 if isinstance(tp.init, list):
-- 
2.43.0


From bbd39cd192b450512b92914a4a5154e1a7e0e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 20/82] fix: apply the location filter when a single file name
 is translated

---
 ctypeslib/codegen/codegenerator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 5098649..e0d9d7c 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1186,10 +1186,9 @@ def translate_files(source_files, outfile=None, cfg: config.CodegenConfig=None):
     cfg = cfg or config.CodegenConfig()
     translator = CodeTranslator(cfg)
     translator.preload_dlls()
-    if isinstance(source_files, list):
-        translator.parse_input_files(source_files)
-    else:
-        translator.parse_input_file(source_files)
+    if isinstance(source_files, (str, os.PathLike)):
+        source_files = [source_files]
+    translator.parse_input_files(source_files)
     log.debug("Input was parsed")
     if outfile:
         return translator.generate_code(outfile)
-- 
2.43.0


From 18e02f50e6cd70c4ea502597c82abf9e4a6939a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 21/82] fix: pass the compiler and parsing options to the
 translation of a string

---
 ctypeslib/codegen/clangparser.py | 4 +++-
 ctypeslib/codegen/util.py        | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index ab4a001..66ea107 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -134,7 +134,9 @@ class Clang_Parser:
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
-        translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
+        if flags is None:
+            flags = self.flags
+        translation_unit = util.get_tu(input_data, lang, all_warnings, flags, self.tu_options)
         self._parse_tu_diagnostics(translation_unit, "memory_input.c")
         self.tu = translation_unit
         root = self.tu.cursor
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 63a2cf1..28625ba 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -18,7 +18,7 @@ from ctypeslib.codegen import typedesc
 log = logging.getLogger('utils')
 
 
-def get_tu(source, lang='c', all_warnings=False, flags=None):
+def get_tu(source, lang='c', all_warnings=False, flags=None, options=0):
     """Obtain a translation unit from source and language.
 
     By default, the translation unit is created from source file "t.<ext>"
@@ -28,6 +28,8 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     Supported languages are {c, cpp, objc}.
 
     all_warnings is a convenience argument to enable all compiler warnings.
+
+    options are the parsing options of the translation unit.
     """
     args = list(flags or [])
     name = 'memory_input.c'
@@ -42,7 +44,7 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     if all_warnings:
         args += ['-Wall', '-Wextra']
 
-    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
+    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)], options=options)
 
 
 def get_cursor(source, spelling):
-- 
2.43.0


From d4fa8ea05ab80a57a54d2fb7029995f8af802e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 22/82] fix: load preloaded libraries under their names in the
 generated code

The names were replaced by Library objects in the configuration, and written
to the generated code as such.
---
 ctypeslib/codegen/codegenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e0d9d7c..7a3f267 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -984,7 +984,7 @@ class Generator:
     def generate_code(self, items):
         print(
             "\n".join(
-                ["ctypes.CDLL('%s', ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
+                ["ctypes.CDLL(%r, ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
             ),
             file=self.imports,
         )
@@ -1041,14 +1041,15 @@ class CodeTranslator:
     """
     def __init__(self, cfg: config.CodegenConfig):
         self.cfg = cfg
+        self.preloaded_dlls = []
         self.parser = None
         self.generator = None
         self.items = []
         self.filtered_items = []
 
     def preload_dlls(self):
-        # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        # the generated code loads them by name, here they only have to be found
+        self.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From 45fc92a036a80a9e00baebc062682a0c5a47a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 23/82] fix: do not share the lists of a configuration with all
 others

---
 ctypeslib/codegen/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 0f8c6ca..cbc9657 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -40,6 +40,12 @@ class CodegenConfig:
 
     def __init__(self):
         self._init_types()
+        # do not share lists between configurations
+        self.symbols = []
+        self.expressions = []
+        self.preloaded_dlls = []
+        self.known_symbols = {}
+        self.searched_dlls = []
         self.clang_opts = []
         if sys.platform == 'darwin':
             try:
-- 
2.43.0


From 9be289355fa47237f2073d77fb00525537ced24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 24/82] fix: write the output file in the encoding that it
 declares

---
 ctypeslib/clang2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index df7a857..d441afa 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -96,8 +96,8 @@ class Output:
             self.stream = sys.stdout
             self.output_file = None
         else:
-            # pylint: disable-next=unspecified-encoding,consider-using-with
-            self.stream = open(options.output, "w")
+            # pylint: disable-next=consider-using-with
+            self.stream = open(options.output, "w", encoding="utf-8")
             self.output_file = self.stream
 
     def __enter__(self):
-- 
2.43.0


From bad276312d282f1d2d9fa1af3d7386bbd4721aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 25/82] fix: generate the types of the members of base classes
 in their order

---
 ctypeslib/codegen/codegenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7a3f267..460170e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -569,7 +569,8 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        depends = set()
+        # keep the order, a set would make the order of the output random
+        depends = {}
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
@@ -582,8 +583,8 @@ class Generator:
             del self.done[struct]
         # checks members dependencies in bases
         for b in struct.bases:
-            depends.update([self.get_undeclared_type(m.type) for m in b.members])
-        depends.discard(None)
+            depends.update((self.get_undeclared_type(m.type), True) for m in b.members)
+        depends.pop(None, None)
         if len(depends) > 0:
             log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
             for dep in depends:
-- 
2.43.0


From b464d42297f8ad8887bf75b9ba5d5da4c7f1669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 26/82] fix: remove the temporary file of the standard input,
 and copy it byte by byte

---
 ctypeslib/clang2py.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index d441afa..6983cfe 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -67,23 +67,37 @@ class Input:
 
     def __init__(self, options):
         self.files = []
-        self._stdin = None
-        for in_file in options.files:
-            # stdin case
-            if in_file == sys.stdin:
-                # pylint: disable-next=consider-using-with
-                _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
-                _stdin.write(in_file.read())
-                in_file = _stdin
-            self.files.append(in_file.name)
-            in_file.close()
+        # the temporary files
+        self._stdin = []
+        try:
+            for in_file in options.files:
+                # stdin case
+                if in_file == sys.stdin:
+                    in_file = self._copy(in_file)
+                self.files.append(in_file.name)
+                in_file.close()
+        except BaseException:
+            self._remove()
+            raise
+
+    def _copy(self, in_file):
+        """Copy stdin to a temporary file, whatever its encoding is"""
+        source = in_file.buffer.read() if hasattr(in_file, "buffer") else in_file.read().encode()
+        # pylint: disable-next=consider-using-with
+        copy = tempfile.NamedTemporaryFile(mode="wb", prefix="stdin", suffix=".c", delete=False)
+        self._stdin.append(copy)
+        copy.write(source)
+        return copy
+
+    def _remove(self):
+        for copy in self._stdin:
+            os.remove(copy.name)
 
     def __enter__(self):
         return self
 
     def __exit__(self, exc_type, exc_value, ecx_tb):
-        if self._stdin:
-            os.remove(self._stdin.name)
+        self._remove()
         return False
 
 
-- 
2.43.0


From 40d7f5f17da75cdf40a250ed3468a5fe4a1b3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 27/82] fix: keep the flags in the header of the output on a
 line

---
 ctypeslib/clang2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 6983cfe..3ca9225 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -351,7 +351,7 @@ def main(argv=None):
             # start codegen
             if cfg.generate_comments:
                 outputs.stream.write("# generated by 'clang2py'\n")
-                outputs.stream.write(f"# flags '{' '.join(argv[1:])}'\n")
+                outputs.stream.write(f"# flags {' '.join(argv)!r}\n")
 
             # Preload libraries
             # [Library(name, mode=RTLD_GLOBAL) for name in options.preload]
-- 
2.43.0


From 1e3f856a43d2c905bfba4ba96122e9d8f0e0266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 28/82] fix: report the failure to write the end of the output

---
 ctypeslib/clang2py.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 3ca9225..fc34f20 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -122,6 +122,9 @@ class Output:
             self.output_file.close()
             # we do not want to delete the output file.
             # os.remove(self.output_file.name)
+        else:
+            # the interpreter may lose an error when it flushes at exit
+            self.stream.flush()
         # If an exception is supplied, and the method wishes to suppress the exception
         # (i.e., prevent it from being propagated), it should return a true value.
         return False
-- 
2.43.0


From a82fb1bb36768e5314630eec9d7af42d53aa987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 29/82] fix: generate docstrings that do not break the module

---
 ctypeslib/codegen/codegenerator.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 460170e..95e7e3a 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -882,8 +882,6 @@ class Generator:
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
         print("    %s.argtypes = [%s]" % (name, ", ".join(args)), file=self.stream)
-        print("except AttributeError:", file=self.stream)
-        print("    pass", file=self.stream)
 
         if self.generate_docstrings:
 
@@ -896,17 +894,17 @@ class Generator:
                     return "unknown"
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
-            print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
-                '    {file}:{line}"""'.format(
-                    funcname=name,
-                    args=", ".join(["%s %s" % i for i in argsAndTypes]),
-                    file=func.location[0],
-                    line=func.location[1],
-                    ret=typeString(func.returns),
-                ),
-                file=self.stream,
+            doc = "{ret} {funcname}({args})\n    {file}:{line}".format(
+                funcname=name,
+                args=", ".join(["%s %s" % i for i in argsAndTypes]),
+                file=func.location[0],
+                line=func.location[1],
+                ret=typeString(func.returns),
             )
+            doc = doc.replace("\\", "\\\\").replace('"', '\\"')
+            print('    %s.__doc__ = """%s"""' % (name, doc), file=self.stream)
+        print("except AttributeError:", file=self.stream)
+        print("    pass", file=self.stream)
 
         self.names.append(func.name)
         self._functiontypes += 1
-- 
2.43.0


From 81d230f06a4384efae6437a28d440f1964fc192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 30/82] fix: keep the locations in comments on a line

---
 ctypeslib/codegen/codegenerator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 95e7e3a..b13bdf8 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -207,7 +207,7 @@ class Generator:
             log.info("Ignoring %s with no location", macro.name)
             return
         if self.generate_locations:
-            print("# %s:%s" % macro.location, file=self.stream)
+            self.print_location("# %s:%s", macro.location)
         if self.generate_comments:
             self.print_comment(macro)
 
@@ -732,7 +732,7 @@ class Generator:
         if len(fields) > 0:
             print("%s_fields_ = [" % prefix, file=self.stream)
             if self.generate_locations and body.struct.location:
-                print("    # %s %s" % body.struct.location, file=self.stream)
+                self.print_location("    # %s %s", body.struct.location)
             for f in fields:
                 fieldname = unnamed_fields.get(f, f.name)
                 type_name = self.type_name(f.type)
@@ -870,7 +870,7 @@ class Generator:
         argnames = [a or "p%d" % (i + 1) for i, a in enumerate(func.iterArgNames())]
 
         if self.generate_locations and func.location:
-            print("# %s %s" % func.location, file=self.stream)
+            self.print_location("# %s %s", func.location)
         # Generate the function decl code
         print("try:", file=self.stream)
         name = self.identifier(func.name)
@@ -932,7 +932,7 @@ class Generator:
             return
         # verbose output with location.
         if self.generate_locations and item.location:
-            print("# %s:%d" % item.location, file=self.stream)
+            self.print_location("# %s:%d", item.location)
         if self.generate_comments:
             self.print_comment(item)
         log.debug("generate %s, %s", item.__class__.__name__, item.name)
@@ -944,6 +944,10 @@ class Generator:
         mth(item, *args)
         return
 
+    def print_location(self, template, location):
+        # there may be line breaks in the name of the file
+        print(" ".join((template % location).splitlines()), file=self.stream)
+
     def print_comment(self, item):
         if item.comment is None:
             return
-- 
2.43.0


From 31a72c0827f46ba884c9b74fc9e2b52fe5154eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 31/82] fix: accept the name of a library in the style of the
 linker

---
 ctypeslib/library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d584b9c..0124fd8 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -23,7 +23,10 @@ class LibraryMeta(type):
             # Maybe 'name' is not a library name in the linker style,
             # give CDLL a last chance to find the library.
             path = name
-        return CDLL(path, mode=mode)
+        dll = CDLL(path, mode=mode)
+        # the code generator writes the path that the library is loaded from
+        dll._filepath = path
+        return dll
 
 
 class Library(metaclass=LibraryMeta):
-- 
2.43.0


From 043948945e9091116dcaa285a7bad30090773901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 32/82] fix: find all the symbols that a library exports

---
 ctypeslib/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index 0124fd8..aa6f687 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -49,7 +49,8 @@ class Library(metaclass=LibraryMeta):
         output = subprocess.check_output(cmd, universal_newlines=True)
         for line in output.split('\n'):
             fields = line.split(' ', 2)
-            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S"):
+            # global symbols: code, data, common and bss, weak, unique and indirect ones
+            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S", "B", "C", "V", "W", "i", "u"):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
-- 
2.43.0


From 32f6f396396f31656e880c0b940cb8ab3dbe8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 33/82] fix: do not confuse libraries of the same file name

---
 ctypeslib/codegen/codegenerator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index b13bdf8..9cc3561 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -818,11 +818,15 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+        name = library._name
+        if self._c_libraries.get(name, library._filepath) != library._filepath:
+            # another library has the same file name, in another directory
+            name = library._filepath
+        if name not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (name, stub_comment, library._filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[name] = library._filepath
+        return "_libraries[%r]" % name
 
     _STRING_defined = False
 
-- 
2.43.0


From ef8443d8b3c720f44868623909da471aa8e412ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 34/82] fix: leave the dictionary of the caller of bind alone

---
 ctypeslib/data/structure_type.tpl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index be4c139..19715d8 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -65,6 +65,8 @@ class Structure(ctypes.Structure, AsDictMixin):
 
     @classmethod
     def bind(cls, bound_fields):
+        # the dictionary of the caller stays as it is
+        bound_fields = dict(bound_fields)
         fields = {}
         for name, type_ in cls._fields_:
             if hasattr(type_, "restype"):
-- 
2.43.0


From 342bdd8188810897a22d289e35edca9ec3319640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 35/82] fix: bind records with bit-fields and padding

---
 ctypeslib/data/structure_type.tpl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 19715d8..c660311 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -68,7 +68,7 @@ class Structure(ctypes.Structure, AsDictMixin):
         # the dictionary of the caller stays as it is
         bound_fields = dict(bound_fields)
         fields = {}
-        for name, type_ in cls._fields_:
+        for name, type_ in (f[:2] for f in cls._fields_):
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -93,8 +93,6 @@ class Structure(ctypes.Structure, AsDictMixin):
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                else:
-                    fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
-- 
2.43.0


From b873f518b8427af1dadc6d95a85ab09b5fad3f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 36/82] fix: bind records with callbacks that ctypes can not
 make

---
 ctypeslib/data/structure_type.tpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index c660311..e8cfd67 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -86,6 +86,9 @@ class Structure(ctypes.Structure, AsDictMixin):
                         default_ = type_(0).restype().value
                     except TypeError:
                         default_ = None
+                    except AttributeError:
+                        # ctypes has no callbacks with such a result
+                        continue
                     fields[name] = type_((
                         lambda default_: lambda *args: default_)(default_))
             else:
-- 
2.43.0


From 117c280f83472a1e934afda448751aacab427c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 37/82] fix: convert arrays of arrays in as_dict

---
 ctypeslib/data/structure_type.tpl | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index e8cfd67..14d2775 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -15,7 +15,10 @@ class AsDictMixin:
                 continue
             value = getattr(self, field)
             type_ = type(value)
-            if hasattr(value, "_length_") and hasattr(value, "_type_"):
+            if hasattr(value, "_length_") and hasattr(value._type_, "_length_"):
+                # array of arrays
+                value = AsDictMixin._array_as_list(value)
+            elif hasattr(value, "_length_") and hasattr(value, "_type_"):
                 # array
                 type_ = type_._type_
                 if hasattr(type_, 'as_dict'):
@@ -40,6 +43,18 @@ class AsDictMixin:
         return result
 
 
+    @staticmethod
+    def _array_as_list(array):
+        type_ = array._type_
+        if hasattr(type_, "as_dict"):
+            return [type_.as_dict(v) for v in array]
+        if hasattr(type_, "_length_") and type_._type_ is ctypes.c_char:
+            return [v.value for v in array]
+        if hasattr(type_, "_length_"):
+            return [AsDictMixin._array_as_list(v) for v in array]
+        return list(array)
+
+
 class Structure(ctypes.Structure, AsDictMixin):
 
     def __init__(self, *args, **kwds):
-- 
2.43.0


From 4a251029a7f886b10ad5697a2cb805ad7a63c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 38/82] fix: complete a forward declaration of a union

---
 ctypeslib/codegen/clangparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 66ea107..d8dbab8 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -212,14 +212,14 @@ class Clang_Parser:
             log.debug("register: %s already defined: %s", name, obj.name)
             return self.all[name]
         if name in self.all:
-            if not isinstance(self.all[name], typedesc.Structure) or (self.all[name].members is not None):
+            if not typedesc.is_record(self.all[name]) or (self.all[name].members is not None):
                 # code.interact(local=locals())
                 raise DuplicateDefinitionException(
                     f"register: {name} which has a previous incompatible definition: {obj.name}"
                     f"\ndefined here: {obj.location}"
                     f"\npreviously defined here: {self.all[name].location}"
                 )
-            if isinstance(self.all[name], typedesc.Structure) and (self.all[name].members is None):
+            if typedesc.is_record(self.all[name]) and (self.all[name].members is None):
                 return obj
         log.debug("register: %s ", name)
         self.all[name] = obj
-- 
2.43.0


From fca73b364236dd75e8905d84355d5bae9c6bb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 39/82] fix: complete a forward declaration of an enumeration

---
 ctypeslib/codegen/cursorhandler.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 4113409..6970323 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -161,10 +161,16 @@ class CursorHandler(ClangHandler):
         """Gets the enumeration declaration."""
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
-            return self.get_registered(name)
-        align = cursor.type.get_align()
-        size = cursor.type.get_size()
-        obj = self.register(name, typedesc.Enumeration(name, size, align))
+            obj = self.get_registered(name)
+            if obj.values or not cursor.is_definition():
+                return obj
+            # complete an earlier forward declaration
+            obj.size = cursor.type.get_size()
+            obj.align = cursor.type.get_align()
+        else:
+            align = cursor.type.get_align()
+            size = cursor.type.get_size()
+            obj = self.register(name, typedesc.Enumeration(name, size, align))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         # parse all children
-- 
2.43.0


From 51f5b9486a7588f374d83115dd459c1bb448db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 40/82] fix: use the definition of a variable that is declared
 before

---
 ctypeslib/codegen/cursorhandler.py | 16 +++++++++++++++-
 ctypeslib/codegen/typedesc.py      |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6970323..9299b58 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -274,7 +274,10 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: name: %s', name)
         # Check for a previous declaration in the register
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if not self._VAR_DECL_completes(cursor, obj):
+                return obj
+            self.remove_registered(name)
         # get the typedesc object
         _type, extern = self._VAR_DECL_type(cursor)
         # transform the ctypes values into ctypeslib
@@ -284,10 +287,21 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: _init:%s', init_value)
         log.debug('VAR_DECL: location:%s', getattr(cursor, 'location'))
         obj = self.register(name, typedesc.Variable(name, _type, init_value, extern))
+        obj.defined = cursor.is_definition()
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return True
 
+    def _VAR_DECL_completes(self, cursor, obj):
+        """Tells if a declaration has what an earlier one of the variable
+        lacks: the initial value, or the number of elements of an array."""
+        if not isinstance(obj, typedesc.Variable) or obj.defined:
+            return False
+        if cursor.is_definition():
+            return True
+        return (isinstance(obj.typ, typedesc.ArrayType) and obj.typ.size == 0 and
+                cursor.type.get_canonical().kind == TypeKind.CONSTANTARRAY)
+
     def _VAR_DECL_type(self, cursor):  # noqa
         """Generates a typedesc object from a Variable declaration."""
         # Get the type
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index ca2d191..5a9b0ad 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -273,6 +273,8 @@ class Variable(T):
         self.typ = typ
         self.init = init
         self.extern = extern
+        # declared with its initial value
+        self.defined = False
 
 ################################################################
 
-- 
2.43.0


From 76f40f93bd5fbff9ba2d7f3c093ccb1cc5d6bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 41/82] fix: use the prototype of a function that is declared
 without

---
 ctypeslib/codegen/cursorhandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9299b58..6359d3f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -184,7 +184,11 @@ class CursorHandler(ClangHandler):
         # FIXME to UT
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if not isinstance(obj, typedesc.Function) or obj.arguments or not list(cursor.get_arguments()):
+                return obj
+            # the earlier declaration is not a prototype
+            self.remove_registered(name)
         returns = self.parse_cursor_type(cursor.type.get_result())
         attributes = []
         extern = False
-- 
2.43.0


From d3dd66e1e812f7788ea94cc33fa299c5b80e027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 42/82] fix: translate C++ references

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 ctypeslib/codegen/handler.py       | 5 ++++-
 ctypeslib/codegen/typehandler.py   | 9 +++++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6359d3f..628a4ec 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1158,6 +1158,8 @@ class CursorHandler(ClangHandler):
             bits = cursor.get_bitfield_width()
         else:
             bits = cursor.type.get_size() * 8
+            if self.is_reference_type(cursor.type.get_canonical()):
+                bits = self.get_ctypes_size(TypeKind.POINTER)
             if bits < 0:
                 log.warning('Bad source code, bitsize == %d <0 on %s', bits, name)
                 bits = 0
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 69a4251..f6afa1b 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -178,7 +178,10 @@ class ClangHandler(object):
                 t.kind in self.parser.ctypes_typename.keys())
 
     def is_pointer_type(self, t):
-        return t.kind == TypeKind.POINTER
+        return t.kind == TypeKind.POINTER or self.is_reference_type(t)
+
+    def is_reference_type(self, t):
+        return t.kind in (TypeKind.LVALUEREFERENCE, TypeKind.RVALUEREFERENCE)
 
     def is_array_type(self, t):
         return (t.kind == TypeKind.CONSTANTARRAY or
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index f6bb4db..3c1d283 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -55,8 +55,6 @@ class TypeHandler(ClangHandler):
     # OBJCSEL
     # COMPLEX
     # BLOCKPOINTER
-    # LVALUEREFERENCE
-    # RVALUEREFERENCE
     # OBJCINTERFACE
     # OBJCOBJECTPOINTER
     # FUNCTIONNOPROTO
@@ -128,6 +126,9 @@ class TypeHandler(ClangHandler):
         # get pointer size
         size = _cursor_type.get_size()  # not size of pointee
         align = _cursor_type.get_align()
+        if self.is_reference_type(_cursor_type):
+            # those are of the referenced object
+            size = align = self.get_ctypes_size(TypeKind.POINTER) // 8
         log.debug(
             "POINTER: size:%d align:%d typ:%s",
             size, align, _type.kind)
@@ -164,6 +165,10 @@ class TypeHandler(ClangHandler):
             obj.comment = comment
         return obj
 
+    # the address of the object
+    LVALUEREFERENCE = POINTER
+    RVALUEREFERENCE = POINTER
+
     @log_entity
     def _array_handler(self, _cursor_type):
         """
-- 
2.43.0


From d50ff50bf9e343f3f4c0a9081f9a84bcad141a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 43/82] fix: give pointers the size of the target with -m32

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 9cc3561..a59f426 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -112,6 +112,9 @@ class Generator:
         word_size = self.parser.get_ctypes_size(TypeKind.LONG) // 8
         pointer_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
         longdouble_size = self.parser.get_ctypes_size(TypeKind.LONGDOUBLE) // 8
+        if pointer_size != ctypes.sizeof(ctypes.c_void_p):
+            # -m32, for example
+            self.cross_arch_code_generation = True
         # replacing template values
         headers = headers.replace("__FLAGS__", str(self.parser.flags))
         headers = headers.replace("__WORD_SIZE__", str(word_size))
-- 
2.43.0


From 9a54afc190ce34c5064f27336b0c7b8360d86ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 44/82] fix: translate the declarations of extern "C" blocks

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 628a4ec..1300b7f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -145,6 +145,9 @@ class CursorHandler(ClangHandler):
     UNEXPOSED_DECL = ClangHandler._pass_through_children
     """Undexposed declaration. Go and see children. """
 
+    LINKAGE_SPEC = ClangHandler._pass_through_children
+    """extern "C". Go and see children. """
+
     @log_entity
     def ENUM_CONSTANT_DECL(self, cursor):  # noqa
         """Gets the enumeration values"""
-- 
2.43.0


From dee9ccd167c7b97985d9c3a973cb4fe379223f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 45/82] fix: lay out classes with a base class as the compiler
 does

---
 ctypeslib/codegen/codegenerator.py | 25 +++--------
 ctypeslib/codegen/cursorhandler.py | 67 +++++++++++++++++++++++++++---
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a59f426..0f8f9ac 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -572,26 +572,18 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        # keep the order, a set would make the order of the output random
-        depends = {}
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
             self._generate(struct.get_head(), False)
             return
-        # look in bases class for dependencies
+        # a base class has to be complete
         # FIXME - need a real dependency graph maker
+        for b in struct.bases:
+            self._generate(b)
         # remove myself, just in case.
         if struct in self.done:
             del self.done[struct]
-        # checks members dependencies in bases
-        for b in struct.bases:
-            depends.update((self.get_undeclared_type(m.type), True) for m in b.members)
-        depends.pop(None, None)
-        if len(depends) > 0:
-            log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
-            for dep in depends:
-                self._generate(dep)
 
         # checks members dependencies
         # test_record_ordering head does not mean declared. _fields_ mean declared
@@ -644,9 +636,8 @@ class Generator:
             return
         log.debug("Head start for %s inline:%s", head.name, inline)
         for struct in head.struct.bases:
-            self._generate(struct.get_head())
-            # add dependencies
-            self.more[struct] = True
+            # a base class has to be complete
+            self._generate(struct)
         basenames = [self.type_name(b) for b in head.struct.bases]
         if basenames:
             # method_names = [m.name for m in head.struct.members if type(m) is typedesc.Method]
@@ -704,12 +695,6 @@ class Generator:
         if fields:
             print("%s_pack_ = 1 # source:%s" % (prefix, body.struct.packed), file=self.stream)
 
-        if body.struct.bases:
-            if len(body.struct.bases) == 1:  # its a Struct or a simple Class
-                self._generate(body.struct.bases[0].get_body(), inline)
-            else:  # we have a multi-parent inheritance
-                for b in body.struct.bases:
-                    self._generate(b.get_body(), inline)
         # field definition normally span several lines.
         # Before we generate them, we need to 'import' everything they need.
         # So, call type_name for each field once,
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 1300b7f..cc1a5a1 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -3,7 +3,7 @@
 import logging
 import re
 
-from clang.cindex import CursorKind, LinkageKind, TypeKind, TokenKind
+from clang.cindex import CursorKind, LinkageKind, TypeKind, TokenKind, conf
 
 from ctypeslib.codegen import typedesc, util
 from ctypeslib.codegen.handler import ClangHandler
@@ -734,7 +734,7 @@ class CursorHandler(ClangHandler):
         bases = []
         for c in cursor.get_children():
             if c.kind == CursorKind.CXX_BASE_SPECIFIER:  # noqa
-                bases.append(self.get_registered(self.get_unique_name(c)))
+                bases.append((c, self.parse_cursor_type(c.type.get_canonical())))
                 log.debug("got base class %s", c.displayname)
         size = cursor.type.get_size()
         align = cursor.type.get_align()
@@ -743,7 +743,7 @@ class CursorHandler(ClangHandler):
             # produce an empty structure declaration
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
-            obj = _output_type(name, align, None, bases, size, packed=False)
+            obj = _output_type(name, align, None, [], size, packed=False)
             self.set_location(obj, cursor)
             self.set_comment(obj, cursor)
             return self.register(name, obj)
@@ -770,13 +770,13 @@ class CursorHandler(ClangHandler):
             if not cursor.is_definition():
                 # just save the spot, don't look at members == None
                 log.debug('cursor %s is not on a definition', name)
-                obj = _output_type(name, align, None, bases, size, packed=False)
+                obj = _output_type(name, align, None, [], size, packed=False)
                 return self.register(name, obj)
             else:
                 log.debug('cursor %s is a definition', name)
                 # save the type in the registry. Useful for not looping in case of
                 # members with forward references
-                obj = _output_type(name, align, None, bases, size, packed=False)
+                obj = _output_type(name, align, None, [], size, packed=False)
                 self.register(name, obj)
                 self.set_location(obj, cursor)
                 self.set_comment(obj, cursor)
@@ -823,10 +823,67 @@ class CursorHandler(ClangHandler):
         obj = self.get_registered(name)
         obj.members = members
         # obj.packed = packed
+        base = self._fixup_record_bases(cursor, obj, bases, declared_instance)
         # final fixup
         self._fixup_record(obj)
+        if base is not None:
+            obj.members.remove(base)
+            obj.bases.append(base.type)
         return obj
 
+    def _fixup_record_bases(self, cursor, s, bases, may_inherit):
+        """Adds the fields of the base class to a record.
+        Returns one field for all of them, when the record can inherit them
+        from the base class."""
+        if len(bases) != 1:
+            return None
+        spec, base = bases[0]
+        if (conf.lib.clang_isVirtualBase(spec) or base.members is None or
+                base.size != spec.type.get_size()):
+            return None
+        offset = 0
+        if self._is_dynamic(cursor) and not self._is_dynamic(spec.type.get_canonical().get_declaration()):
+            # after the pointer to the virtual table
+            offset = max(self.get_ctypes_size(TypeKind.POINTER) // 8, base.align)
+        bits = base.size * 8
+        if may_inherit and offset == 0 and bits <= min([m.offset for m in s.members] + [s.size * 8]):
+            field = typedesc.Field(base.name, base, 0, bits)
+            s.members.insert(0, field)
+            return field
+        # there are members in the padding of the base, for example
+        hidden = self._field_names(s.members)
+        s.members[:0] = [f for f in self._all_fields(base, offset * 8)
+                         if hidden.isdisjoint(self._field_names([f]))]
+        return None
+
+    def _field_names(self, members):
+        names = set()
+        for m in members:
+            names |= {m.name} if m.name else self._field_names(m.type.members or [])
+        return names
+
+    def _all_fields(self, s, offset):
+        """Returns the fields of a record that is in another one."""
+        fields = []
+        for b in s.bases:
+            fields.extend(self._all_fields(b, offset))
+        for m in s.members:
+            if not m.is_padding:
+                fields.append(typedesc.Field(m.name, m.type, m.offset + offset, m.bits,
+                                             is_bitfield=m.is_bitfield, is_anonymous=m.is_anonymous))
+        return fields
+
+    def _is_dynamic(self, cursor):
+        """Tells if a class has a pointer to a virtual table."""
+        for c in (cursor.get_definition() or cursor).get_children():
+            if c.kind == CursorKind.CXX_BASE_SPECIFIER:  # noqa
+                if (conf.lib.clang_isVirtualBase(c) or
+                        self._is_dynamic(c.type.get_canonical().get_declaration())):
+                    return True
+            elif c.is_virtual_method():
+                return True
+        return False
+
     def _fixup_record_bitfields_type(self, s):
         """Give the bitfields of a record the types that makes ctypes lay them
         out like the compiler did.
-- 
2.43.0


From 768d120b17a627ac2a67740617f8e214ce408fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 46/82] fix: accept a standard of C++ among the compiler
 options

---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index d8dbab8..0a343be 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -247,6 +247,8 @@ class Clang_Parser:
         architecture is not the same as local
         """
         # NOTE: one could also use the __SIZEOF_x__ MACROs to obtain sizes.
+        # a standard of C++ is no standard of this source
+        _flags = [flag for flag in _flags or [] if not flag.startswith(("-std=", "--std="))]
         translation_unit = util.get_tu(
             """
 typedef short short_t;
-- 
2.43.0


From 41e22fda27e7d28216efe433161004cd0f1d50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 47/82] fix: translate the alias declarations of C++

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index cc1a5a1..b5b616e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -273,6 +273,9 @@ class CursorHandler(ClangHandler):
         self.set_comment(obj, cursor)
         return obj
 
+    # using name = type
+    TYPE_ALIAS_DECL = TYPEDEF_DECL
+
     @log_entity
     def VAR_DECL(self, cursor):  # noqa
         """Handles Variable declaration."""
-- 
2.43.0


From 1b7069474577c0c35320a0ab1616d554f41535b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 48/82] fix: generate valid names for the operators of C++

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 0f8f9ac..f9d3350 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -176,8 +176,8 @@ class Generator:
     @staticmethod
     def identifier(name):
         """Returns the Python expression for a name of the module, which can be
-        a keyword of Python."""
-        if keyword.iskeyword(name):
+        a keyword of Python, or the operator of a class of C++."""
+        if keyword.iskeyword(name) or not name.isidentifier():
             return "globals()['%s']" % name
         return name
 
-- 
2.43.0


From 0fe1efa0647af43fa397eb5f54d701aabd3dd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 49/82] fix: generate valid statements for names with a $

---
 ctypeslib/codegen/codegenerator.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index f9d3350..7a020ad 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -472,7 +472,7 @@ class Generator:
             print("# values for enumeration '%s'" % tp.name, file=self.stream)
         else:
             print("# values for unnamed enumeration", file=self.stream)
-        print("%s__enumvalues = {" % tp.name, file=self.stream)
+        print("%s = {" % self.identifier(tp.name + "__enumvalues"), file=self.stream)
         for item in tp.values:
             print("    %s: '%s'," % (int(item.value), item.name), file=self.stream)
         print("}", file=self.stream)
@@ -602,10 +602,11 @@ class Generator:
             if len(undefined_head_dependencies) == 0:
                 # generate this head and body in one go
                 # if struct.get_head() not in self.done:
-                if struct.name not in self.head_generated:
+                if struct.name not in self.head_generated and struct.name.isidentifier():
                     self._generate(struct.get_head(), True)
                     self._generate(struct.get_body(), True)
                 else:
+                    self._generate(struct.get_head(), False)
                     self._generate(struct.get_body(), False)
             else:
                 # generate this head first, to avoid recursive issue, then the dep, then this body
@@ -639,7 +640,14 @@ class Generator:
             # a base class has to be complete
             self._generate(struct)
         basenames = [self.type_name(b) for b in head.struct.bases]
-        if basenames:
+        if not head.struct.name.isidentifier():
+            # with a $ in it
+            base = basenames[0] if basenames else type(head.struct).__name__
+            print(
+                "%s = type(%s)('%s', (%s,), {})\n" % (self.identifier(head.struct.name), base, head.struct.name, base),
+                file=self.stream,
+            )
+        elif basenames:
             # method_names = [m.name for m in head.struct.members if type(m) is typedesc.Method]
             print(
                 "class %s(%s):" % (head.struct.name, ", ".join(basenames)),
@@ -652,7 +660,7 @@ class Generator:
                 print("class %s(Structure):" % head.struct.name, file=self.stream)
             elif isinstance(head.struct, typedesc.Union):
                 print("class %s(Union):" % head.struct.name, file=self.stream)
-        if not inline:
+        if not inline and head.struct.name.isidentifier():
             print("    pass\n", file=self.stream)
         # special empty struct
         if inline and not head.struct.members:
@@ -683,7 +691,7 @@ class Generator:
         # handled inline Vs dependent
         log.debug("body inline:%s for structure %s", inline, body.struct.name)
         if not inline:
-            prefix = "%s." % body.struct.name
+            prefix = "%s." % self.identifier(body.struct.name)
         else:
             prefix = "    "
         if methods:
-- 
2.43.0


From 5f1e56c49ece0b3fcbf350da6393729e36ed07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 50/82] fix: give nullptr_t the size of the target

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7a020ad..3d660cd 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -922,6 +922,9 @@ class Generator:
         if _type.name in ["None", "c_long_double_t", "c_uint128", "c_int128"]:
             self.enable_fundamental_type_wrappers()
             return _type.name
+        if _type.name == "c_void_p" and self.cross_arch_code_generation:
+            # of the size of a pointer of the target
+            return "%s(None)" % self.enable_pointer_type()
         return "ctypes.%s" % _type.name
 
     ########
-- 
2.43.0


From 65c3ff459fba2cd9a0b291be9eda2975a11a0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 51/82] fix: do not take an enumeration for the value of a
 variable

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index b5b616e..e5f0c1d 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -462,7 +462,8 @@ class CursorHandler(ClangHandler):
         # shorcuts.
         if not child.kind.is_expression() and not child.kind.is_declaration():
             raise CursorKindException(child.kind)
-        if child.kind == CursorKind.CALL_EXPR:  # noqa
+        if child.kind in (CursorKind.CALL_EXPR, CursorKind.ENUM_DECL):  # noqa
+            # an enumeration is part of the type
             raise CursorKindException(child.kind)
         # POD init values handling.
         # As of clang 3.3, int, double literals are exposed.
-- 
2.43.0


From 1d63026e399222f301f19894ed580889a6f6aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 52/82] fix: use the values of literals and casts of C++

---
 ctypeslib/codegen/cursorhandler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e5f0c1d..c7ec46b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -92,6 +92,14 @@ class CursorHandler(ClangHandler):
     CSTYLE_CAST_EXPR = PAREN_EXPR
     CONDITIONAL_OPERATOR = PAREN_EXPR
     CXX_UNARY_EXPR = PAREN_EXPR
+    CXX_BOOL_LITERAL_EXPR = PAREN_EXPR
+    CXX_FUNCTIONAL_CAST_EXPR = PAREN_EXPR
+    CXX_STATIC_CAST_EXPR = PAREN_EXPR
+    CXX_REINTERPRET_CAST_EXPR = PAREN_EXPR
+    CXX_CONST_CAST_EXPR = PAREN_EXPR
+
+    def CXX_NULL_PTR_LITERAL_EXPR(self, cursor):  # noqa
+        return None
 
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
-- 
2.43.0


From 1e9e7387998bfeefe0355a22a9dfac0baaec9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 53/82] fix: let a scalar in empty braces be zero

---
 ctypeslib/codegen/cursorhandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index c7ec46b..3e991c9 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -396,10 +396,13 @@ class CursorHandler(ClangHandler):
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
-                init_value = init_value[0][1]
+                _kind, init_value = init_value[0]
                 if isinstance(init_value, list) and len(init_value) == 1:
                     # a scalar in braces
                     init_value = init_value[0]
+                elif _kind == CursorKind.INIT_LIST_EXPR and not init_value:  # noqa
+                    # a scalar in empty braces
+                    init_value = None
         return self._convert_init_value(_ctype, init_value)
 
     def _convert_init_value(self, _ctype, value):
-- 
2.43.0


From d6097e82b6f53b3fac83222071070af55df3c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 54/82] fix: do not use source text for the value of a variable

The address of an object, or an expression that is not handled, generated
names and operators of C, modules that do not load, or wrong strings. Print
the floating-point values that are not finite as Python needs them.
---
 ctypeslib/codegen/codegenerator.py |  1 +
 ctypeslib/codegen/cursorhandler.py | 29 +++++++++++++++++++++--------
 ctypeslib/codegen/util.py          | 17 ++++++++++++++++-
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 3d660cd..863532f 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -447,6 +447,7 @@ class Generator:
             else:
                 # integers
                 init_value = 0
+        init_value = util.python_float_literals(init_value)
         #
         # print it out
         print("%s = %s # Variable %s" % (self.identifier(tp.name), init_value, self.type_name(tp.typ, False)), file=self.stream)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 3e991c9..2a200a0 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -76,13 +76,19 @@ class CursorHandler(ClangHandler):
             ret.append(self.parse_cursor(child))
         if len(ret) == 1:
             return ret[0]
-        return ret
+        value = util.evaluate_number(cursor)
+        return ret if value is None else value
 
     @log_entity
     def DECL_REF_EXPR(self, cursor):  # noqa
-        # an enumerator
-        value = util.evaluate_number(cursor)
-        return cursor.displayname if value is None else value
+        # an enumerator. The address of an object has no value here
+        return util.evaluate_number(cursor)
+
+    ARRAY_SUBSCRIPT_EXPR = DECL_REF_EXPR
+    MEMBER_REF_EXPR = DECL_REF_EXPR
+    COMPOUND_LITERAL_EXPR = DECL_REF_EXPR
+    CALL_EXPR = DECL_REF_EXPR
+    GENERIC_SELECTION_EXPR = DECL_REF_EXPR
 
     @log_entity
     def PAREN_EXPR(self, cursor):  # noqa
@@ -421,12 +427,15 @@ class CursorHandler(ClangHandler):
             elif isinstance(value, float) and _ctype.kind == TypeKind.BOOL:
                 value = bool(value)
             elif isinstance(value, float) and _ctype.kind not in self._float_kinds:
-                value = int(value)
+                value = int(value) if abs(value) < float('inf') else None
+            elif isinstance(value, str):
+                # the address of a string
+                value = True if _ctype.kind == TypeKind.BOOL else None
             if _ctype.kind in self._signed_kinds and isinstance(value, int):
                 _half = 1 << (_ctype.get_size() * 8 - 1)
                 value = (value + _half) % (2 * _half) - _half
         elif _ctype.kind in self._char_kinds and isinstance(value, float):
-            value = int(value)
+            value = int(value) if abs(value) < float('inf') else None
         return value
 
     _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR, TypeKind.WCHAR,
@@ -473,7 +482,7 @@ class CursorHandler(ClangHandler):
         # shorcuts.
         if not child.kind.is_expression() and not child.kind.is_declaration():
             raise CursorKindException(child.kind)
-        if child.kind in (CursorKind.CALL_EXPR, CursorKind.ENUM_DECL):  # noqa
+        if child.kind == CursorKind.ENUM_DECL:  # noqa
             # an enumeration is part of the type
             raise CursorKindException(child.kind)
         # POD init values handling.
@@ -482,6 +491,9 @@ class CursorHandler(ClangHandler):
         # but really it depends...
         if child.kind.is_unexposed():
             # recurse until we find a literal kind
+            if len(list(child.get_children())) > 1:
+                # a selection or an operation
+                return child.kind, util.evaluate_number(child)
             init_value = self._get_var_decl_init_value(_ctype, child.get_children())
             if len(init_value) == 0:
                 init_value = None
@@ -685,7 +697,8 @@ class CursorHandler(ClangHandler):
     def _operator_handling(self, cursor):
         """Returns the value of the operation, or a string with its literals."""
         value = util.evaluate_number(cursor)
-        if value is not None:
+        if value is not None or cursor.type.get_canonical().kind == TypeKind.POINTER:  # noqa
+            # an address has no value here
             return value
         values = self._literal_handling(cursor)
         retval = ''.join([str(val) for val in values])
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 28625ba..211735d 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -219,12 +219,27 @@ def evaluate_number(cursor):
             return _eval_function('clang_EvalResult_getAsLongLong', ctypes.c_longlong)(result)
         if kind == 2:  # CXEval_Float
             value = _eval_function('clang_EvalResult_getAsDouble', ctypes.c_double)(result)
-            return value if math.isfinite(value) else None
+            return value
         return None
     finally:
         _eval_function('clang_EvalResult_dispose', None)(result)
 
 
+def python_float_literals(value):
+    """
+    Returns the value, or a text for the value when it has numbers that are
+    not finite, that python has no literals for.
+    """
+    def text(val):
+        if isinstance(val, list):
+            return '[%s]' % ', '.join(text(v) for v in val)
+        if isinstance(val, float) and not math.isfinite(val):
+            return "float('%r')" % val
+        return repr(val)
+
+    return text(value) if isinstance(value, (list, float)) else value
+
+
 _c_escape_regex = re.compile(
     r"\\(\n|x[0-9a-fA-F]+|[0-7]{1,3}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|.)", re.DOTALL
 )
-- 
2.43.0


From 2f6d6c835730257852ff42f7f0d7b54730cc6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 55/82] fix: let a typedef name an unnamed enumeration that it
 uses first

The definition of an included file that is only used in a parameter raised a
DuplicateDefinitionException.
---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2a200a0..9cbfc5c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -281,6 +281,9 @@ class CursorHandler(ClangHandler):
             raise TypeError(
                 'Bad TYPEREF parsing in TYPEDEF_DECL: %s' %
                 _type.spelling)
+        if self.is_registered(name):
+            # the typedef gives its name to an unnamed enumeration
+            return self.get_registered(name)
         # register the type
         obj = self.register(name, typedesc.Typedef(name, p_type))
         self.set_location(obj, cursor)
-- 
2.43.0


From 564f49156d6436a09c82bc083315aa862139c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 56/82] fix: do not give unnamed records the names of other
 fields

An unnamed bit-field, or a field named _0, collided with the generated names
of unnamed records, also when promoted from another of them.
---
 ctypeslib/codegen/codegenerator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 863532f..656e330 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals
 
 import collections
 import ctypes
+import itertools
 import keyword
 import logging
 import os
@@ -670,6 +671,16 @@ class Generator:
         log.debug("Head finished for %s", head.name)
         self.head_generated.add(head.name)
 
+    def _field_names(self, fields):
+        """The names of the fields, and of the fields of unnamed records."""
+        names = set()
+        for f in fields:
+            names.add(f.name)
+            if f.name == '' and typedesc.is_record(f.type):
+                names |= self._field_names(
+                    m for m in f.type.members or () if isinstance(m, typedesc.Field))
+        return names
+
     def StructureBody(self, body, inline=False):
         if body.name in self.body_generated:
             log.debug("Skipping - Body already generated for %s", body.name)
@@ -711,7 +722,10 @@ class Generator:
             self.type_name(f.type)
 
         # unnamed fields get autogenerated names "_0", "_1", "_2", "_3", ...
+        # that no field has, not those promoted from unnamed fields either
         unnamed_fields = {}
+        names = self._field_names(fields)
+        numbered = ("_%d" % i for i in itertools.count() if "_%d" % i not in names)
         for f in fields:
             # _anonymous_ fields are fields of type Structure or Union,
             # that have no name.
@@ -719,7 +733,7 @@ class Generator:
                 # anonymous types can have a member name
                 # un-named anonymous record come here with a name == ''
                 if f.name == '':
-                    unnamed_fields[f] = "_%d" % len(unnamed_fields)
+                    unnamed_fields[f] = next(numbered)
                 # otherwise, we want to keep that field's name
         # an empty record has no members to promote
         anonymous = [name for f, name in unnamed_fields.items() if f.type.members]
-- 
2.43.0


From 7a1080de65c30ac480b364b71dfc4f8dfac6bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 57/82] fix: do not give unnamed records the names of other
 records

A member of an unnamed record type was laid out as the record that had the
generated name, as in struct node { struct { char c; } data; } and
struct node_data.
---
 ctypeslib/codegen/clangparser.py | 22 +++++++++++++++++++++-
 ctypeslib/codegen/handler.py     |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 0a343be..1d21451 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -4,7 +4,7 @@ import logging
 import os
 import collections
 
-from clang.cindex import Index, TranslationUnit
+from clang.cindex import CursorKind, Index, TranslationUnit
 from clang.cindex import TypeKind
 
 from ctypeslib.codegen import cursorhandler
@@ -75,6 +75,8 @@ class Clang_Parser:
         self._unhandled = []
         self.fields = {}
         self.tu = None
+        # the names of the records of a translation unit
+        self._record_names = (None, {})
         self.tu_options = None
         self.flags = flags
         # the conversion table is adapted to the target of this instance
@@ -226,6 +228,24 @@ class Clang_Parser:
         self.all_set.add((name, obj))
         return obj
 
+    _record_kinds = (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL)
+
+    def reserve_record_name(self, cursor, name):
+        """Gives a name to an unnamed record, unless another record has it."""
+        if self._record_names[0] is not self.tu:
+            self._record_names = (self.tu, self._get_record_names(self.tu.cursor, {}))
+        return self._record_names[1].setdefault((cursor.kind, name), cursor) == cursor
+
+    def _get_record_names(self, parent, names):
+        for node in parent.get_children():
+            if node.kind in self._record_kinds:
+                if node.spelling and '(' not in node.spelling:
+                    names[(node.kind, node.spelling)] = node
+                self._get_record_names(node, names)
+            elif node.kind in (CursorKind.NAMESPACE, CursorKind.LINKAGE_SPEC, CursorKind.UNEXPOSED_DECL):
+                self._get_record_names(node, names)
+        return names
+
     def get_registered(self, name):
         """Returns a registered type description"""
         return self.all[name]
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index f6afa1b..b39358d 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -123,6 +123,9 @@ class ClangHandler(object):
             name = '%s_%s' % (_premainer, field_name)
         else:
             name = '%s_%d' % (_premainer, _i)
+        # another record can have that name
+        while not self.parser.reserve_record_name(_cursor_decl, name):
+            name += '_'
         return name
 
     def get_unique_name(self, cursor, field_name=None):
-- 
2.43.0


From 7e75b47167527c48869d9fa62f5f42fd315cdc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 58/82] fix: do not take the size of a typedef from its name

---
 ctypeslib/codegen/codegenerator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 656e330..8259d09 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -285,7 +285,7 @@ class Generator:
             "int64_t": "c_int64",
         }
         name = self.identifier(tp.name)
-        if isinstance(tp.typ, typedesc.FundamentalType) and tp.name in sized_types:
+        if isinstance(tp.typ, typedesc.FundamentalType) and self._same_type(tp.typ.name, sized_types.get(tp.name)):
             print("%s = ctypes.%s" % (name, sized_types[tp.name]), file=self.stream)
             self.names.append(tp.name)
             return
@@ -309,6 +309,11 @@ class Generator:
         self._typedefs += 1
         return
 
+    @staticmethod
+    def _same_type(name, other):
+        """Tells if these are names of the same type of ctypes."""
+        return getattr(ctypes, name, name) is getattr(ctypes, other or "", None)
+
     def _get_real_type(self, tp):
         # FIXME, kinda useless really.
         if isinstance(tp, typedesc.Typedef):
-- 
2.43.0


From 26c61ec7430cb9aeaaf8696b0823bbbf2037e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 59/82] fix: translate complex and vector types

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 ctypeslib/codegen/handler.py       | 7 ++++++-
 ctypeslib/codegen/typehandler.py   | 9 ++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9cbfc5c..8a703bd 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -418,7 +418,7 @@ class CursorHandler(ClangHandler):
         """Converts the value of an initializer to the kind of the variable."""
         _ctype = _ctype.get_canonical()
         if self.is_array_type(_ctype) and isinstance(value, list):
-            _element = _ctype.get_array_element_type()
+            _element = _ctype.element_type
             if _element.kind in self._char_kinds and len(value) == 1 and isinstance(value[0], str) and len(value[0]) != 1:
                 # a string in braces
                 return value[0]
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index b39358d..9ec054b 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -190,7 +190,12 @@ class ClangHandler(object):
         return (t.kind == TypeKind.CONSTANTARRAY or
                 t.kind == TypeKind.INCOMPLETEARRAY or
                 t.kind == TypeKind.VARIABLEARRAY or
-                t.kind == TypeKind.DEPENDENTSIZEDARRAY)
+                t.kind == TypeKind.DEPENDENTSIZEDARRAY or
+                self.is_vector_type(t))
+
+    def is_vector_type(self, t):
+        """Types that have the layout of an array"""
+        return t.kind in (TypeKind.COMPLEX, TypeKind.VECTOR, TypeKind.EXTVECTOR)
 
     def is_unexposed_type(self, t):
         return t.kind == TypeKind.UNEXPOSED
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 3c1d283..2d58ff7 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -53,13 +53,11 @@ class TypeHandler(ClangHandler):
     # OBJCID
     # OBJCCLASS
     # OBJCSEL
-    # COMPLEX
     # BLOCKPOINTER
     # OBJCINTERFACE
     # OBJCOBJECTPOINTER
     # FUNCTIONNOPROTO
     # FUNCTIONPROTO
-    # VECTOR
     # MEMBERPOINTER
 
     ## const, restrict and volatile
@@ -184,7 +182,9 @@ class TypeHandler(ClangHandler):
             # FIXME: Incomplete Array handling at end of record.
             # https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
             # FIXME VARIABLEARRAY DEPENDENTSIZEDARRAY
-        _array_type = _type.get_array_element_type()  # .get_canonical()
+        _array_type = _type.element_type  # .get_canonical()
+        if self.is_vector_type(_type):
+            size = _type.get_size() // _array_type.get_size()
         if self.is_fundamental_type(_array_type):
             _subtype = self.parse_cursor_type(_array_type)
         elif self.is_pointer_type(_array_type):
@@ -209,6 +209,9 @@ class TypeHandler(ClangHandler):
     INCOMPLETEARRAY = _array_handler
     VARIABLEARRAY = _array_handler
     DEPENDENTSIZEDARRAY = _array_handler
+    COMPLEX = _array_handler
+    VECTOR = _array_handler
+    EXTVECTOR = _array_handler
 
     @log_entity
     def FUNCTIONPROTO(self, _cursor_type):
-- 
2.43.0


From bbf488e996646e340b2c4cd3a599d1006ed874ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 60/82] fix: translate atomic types

---
 ctypeslib/codegen/cursorhandler.py |  6 +++---
 ctypeslib/codegen/handler.py       | 17 +++++++++++++++--
 ctypeslib/codegen/typehandler.py   | 10 ++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 8a703bd..903d402 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -332,7 +332,7 @@ class CursorHandler(ClangHandler):
     def _VAR_DECL_type(self, cursor):  # noqa
         """Generates a typedesc object from a Variable declaration."""
         # Get the type
-        _ctype = cursor.type.get_canonical()
+        _ctype = self.get_value_type(cursor.type)
         extern = cursor.linkage in (LinkageKind.EXTERNAL, LinkageKind.UNIQUE_EXTERNAL)  # noqa
         log.debug('VAR_DECL: _ctype: %s ', _ctype.kind)
         # FIXME: Need working int128, long_double, etc.
@@ -371,7 +371,7 @@ class CursorHandler(ClangHandler):
         # get the init_value and special cases
         init_value = self._get_var_decl_init_value(cursor.type,
                                                    list(cursor.get_children()))
-        _ctype = cursor.type.get_canonical()
+        _ctype = self.get_value_type(cursor.type)
         if self.is_unexposed_type(_ctype):
             # string are not exposed
             init_value = '%s # UNEXPOSED TYPE. PATCH NEEDED.' % init_value
@@ -416,7 +416,7 @@ class CursorHandler(ClangHandler):
 
     def _convert_init_value(self, _ctype, value):
         """Converts the value of an initializer to the kind of the variable."""
-        _ctype = _ctype.get_canonical()
+        _ctype = self.get_value_type(_ctype)
         if self.is_array_type(_ctype) and isinstance(value, list):
             _element = _ctype.element_type
             if _element.kind in self._char_kinds and len(value) == 1 and isinstance(value[0], str) and len(value[0]) != 1:
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 9ec054b..29ee017 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -1,6 +1,6 @@
 """Abstract Handler with helper methods."""
 
-from clang.cindex import CursorKind, TypeKind, Cursor
+from clang.cindex import CursorKind, Type, TypeKind, Cursor, conf
 
 from ctypeslib.codegen import typedesc
 from ctypeslib.codegen.util import log_entity
@@ -191,7 +191,20 @@ class ClangHandler(object):
                 t.kind == TypeKind.INCOMPLETEARRAY or
                 t.kind == TypeKind.VARIABLEARRAY or
                 t.kind == TypeKind.DEPENDENTSIZEDARRAY or
-                self.is_vector_type(t))
+                self.is_vector_type(t) or
+                # has no declaration either
+                t.kind == TypeKind.ATOMIC)
+
+    def get_value_type(self, t):
+        """The canonical type of the values of a type that can be atomic"""
+        t = t.get_canonical()
+        if t.kind != TypeKind.ATOMIC:
+            return t
+        get_value_type = conf.lib.clang_Type_getValueType
+        get_value_type.argtypes, get_value_type.restype = [Type], Type
+        value_type = get_value_type(t)
+        value_type._tu = t._tu
+        return value_type
 
     def is_vector_type(self, t):
         """Types that have the layout of an array"""
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 2d58ff7..b001d48 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -213,6 +213,16 @@ class TypeHandler(ClangHandler):
     VECTOR = _array_handler
     EXTVECTOR = _array_handler
 
+    @log_entity
+    def ATOMIC(self, _cursor_type):
+        """Handles atomic types, which may be wider than their values."""
+        _type = self.get_value_type(_cursor_type)
+        size = _cursor_type.get_size()
+        if _type.get_size() == size:
+            return self.parse_cursor_type(_type)
+        _subtype = typedesc.FundamentalType(self.get_ctypes_name(TypeKind.CHAR_U), 1, 1)
+        return typedesc.ArrayType(_subtype, size)
+
     @log_entity
     def FUNCTIONPROTO(self, _cursor_type):
         """Handles function prototype."""
-- 
2.43.0


From 28f038454a3d3ce7c37e9fb48c54a0c427e194e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 61/82] fix: translate variables with complex initialisers

---
 ctypeslib/codegen/cursorhandler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 903d402..8d39fdd 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -692,16 +692,21 @@ class CursorHandler(ClangHandler):
 
     INTEGER_LITERAL = _literal_handling
     FLOATING_LITERAL = _literal_handling
-    IMAGINARY_LITERAL = _literal_handling
     STRING_LITERAL = _literal_handling
     CHARACTER_LITERAL = _literal_handling
 
+    @log_entity
+    def IMAGINARY_LITERAL(self, _cursor):
+        """Complex numbers have no value here."""
+        return None
+
     @log_entity
     def _operator_handling(self, cursor):
         """Returns the value of the operation, or a string with its literals."""
         value = util.evaluate_number(cursor)
-        if value is not None or cursor.type.get_canonical().kind == TypeKind.POINTER:  # noqa
-            # an address has no value here
+        _ctype = cursor.type.get_canonical()
+        if value is not None or _ctype.kind == TypeKind.POINTER or self.is_vector_type(_ctype):  # noqa
+            # an address has no value here, nor has a complex number
             return value
         values = self._literal_handling(cursor)
         retval = ''.join([str(val) for val in values])
-- 
2.43.0


From 8a0b562c7317610123eea45da0fc61fa8fb803c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 62/82] fix: raw strings with a delimiter of 16 characters

---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 8d39fdd..ec50fc5 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -531,8 +531,8 @@ class CursorHandler(ClangHandler):
             # we need to remove the raw-char-sequence prefix,suffix
             if value[0] == 'R':
                 s = value[1:]
-                # if there is no '(' in the 17 first char, its not valid
-                offset = s[:17].index('(')
+                # the delimiter has 16 characters at most, and no '('
+                offset = s.index('(')
                 delimiter = s[1:offset] # we skip the "
                 value = s[offset + 1:-offset - 1]
                 return value
-- 
2.43.0


From fd00d3705f4d3407b86ea8acb762c573c84447bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 63/82] fix: emulated pointers of 8 bytes on hosts with a long
 of 4 bytes

---
 ctypeslib/codegen/codegenerator.py | 3 ---
 ctypeslib/data/pointer_type.tpl    | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 8259d09..fb342eb 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -79,12 +79,9 @@ class Generator:
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
         word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
         word_type = "c_uint%d" % (word_size * 8)
-        # pylint: disable=protected-access
-        word_char = getattr(ctypes, word_type)._type_
         # replacing template values
         headers = headers.replace("__POINTER_SIZE__", str(word_size))
         headers = headers.replace("__REPLACEMENT_TYPE__", word_type)
-        headers = headers.replace("__REPLACEMENT_TYPE_CHAR__", word_char)
         print(headers, file=self.imports)
         return "POINTER_T"
 
diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index c6fcd29..e45202a 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -27,7 +27,7 @@ else:
             return _pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
-            _type_ = '__REPLACEMENT_TYPE_CHAR__'
+            _type_ = fake_ptr_base_type._type_
             _subtype_ = pointee
             def _sub_addr_(self):
                 return self.value
-- 
2.43.0


From 787fa6760e5e7e987756ad9563b9337e7d12f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 64/82] fix: arrays of wide characters with a string, and
 strings in braces or parentheses

---
 ctypeslib/codegen/codegenerator.py |  5 ++++-
 ctypeslib/codegen/cursorhandler.py | 23 ++++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index fb342eb..50cd8f5 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -408,7 +408,10 @@ class Generator:
                 # CARE: size of elements must match size of array
                 # init_value = repr(tp.init)
                 if isinstance(tp.init, list):
-                    init_value = "[%s]" % ",".join([str(x) for x in tp.init])
+                    init_value = "[%s]" % ",".join([repr(x) if isinstance(x, str) else str(x) for x in tp.init])
+                elif isinstance(tp.init, str):
+                    # a string of wide characters
+                    init_value = repr(tp.init)
                 else:
                     # a pointer
                     init_value = self.type_name(tp.typ, False) + "()"
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ec50fc5..378277b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -110,10 +110,19 @@ class CursorHandler(ClangHandler):
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
         """Returns a list of literal values."""
-        values = [self.parse_cursor(child)
-                  for child in list(cursor.get_children())]
+        values = []
+        for child in list(cursor.get_children()):
+            value = self.parse_cursor(child)
+            while child.kind == CursorKind.PAREN_EXPR:  # noqa
+                child = next(child.get_children())
+            if child.kind == CursorKind.STRING_LITERAL and isinstance(value, str):  # noqa
+                value = self._ArrayString(value)
+            values.append(value)
         return values
 
+    class _ArrayString(str):
+        """The characters of an array, in an initialiser list"""
+
     ################################
     # STATEMENTS handlers
 
@@ -412,6 +421,10 @@ class CursorHandler(ClangHandler):
                 elif _kind == CursorKind.INIT_LIST_EXPR and not init_value:  # noqa
                     # a scalar in empty braces
                     init_value = None
+                elif self.is_pointer_type(_ctype) and isinstance(init_value, str) and (
+                        _ctype.get_canonical().get_pointee().kind in self._integer_kinds):
+                    # the address of a string
+                    init_value = None
         return self._convert_init_value(_ctype, init_value)
 
     def _convert_init_value(self, _ctype, value):
@@ -419,7 +432,7 @@ class CursorHandler(ClangHandler):
         _ctype = self.get_value_type(_ctype)
         if self.is_array_type(_ctype) and isinstance(value, list):
             _element = _ctype.element_type
-            if _element.kind in self._char_kinds and len(value) == 1 and isinstance(value[0], str) and len(value[0]) != 1:
+            if self.is_fundamental_type(_element) and len(value) == 1 and isinstance(value[0], self._ArrayString):
                 # a string in braces
                 return value[0]
             return [self._convert_init_value(_element, v) for v in value]
@@ -444,6 +457,7 @@ class CursorHandler(ClangHandler):
     _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR, TypeKind.WCHAR,
                    TypeKind.CHAR16, TypeKind.CHAR32]
     _signed_kinds = [TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]
+    _integer_kinds = [TypeKind.USHORT, TypeKind.UINT, TypeKind.ULONG, TypeKind.ULONGLONG] + _signed_kinds[1:]
     _float_kinds = [TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE]
 
     def _get_var_decl_init_value(self, _ctype, children):
@@ -488,6 +502,9 @@ class CursorHandler(ClangHandler):
         if child.kind == CursorKind.ENUM_DECL:  # noqa
             # an enumeration is part of the type
             raise CursorKindException(child.kind)
+        while child.kind == CursorKind.PAREN_EXPR and self.is_array_type(child.type):  # noqa
+            # a string in parentheses
+            child = next(child.get_children())
         # POD init values handling.
         # As of clang 3.3, int, double literals are exposed.
         # float, long double, char , char* are not exposed directly in level1.
-- 
2.43.0


From efb7fbf6aa8e10dc643a8ab5411d1f5c8155746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:16 +0000
Subject: [PATCH 65/82] fix: sizes of char16_t, char32_t and wchar_t of C++

---
 ctypeslib/codegen/clangparser.py   | 20 ++++++++++++++++++--
 ctypeslib/codegen/cursorhandler.py | 13 +++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 1d21451..c84d240 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -1,5 +1,6 @@
 """clangparser - use clang to get preprocess a source code."""
 
+import ctypes
 import logging
 import os
 import collections
@@ -39,14 +40,16 @@ class Clang_Parser:
         "Converter",
     }
 
+    _signed_kinds = (TypeKind.SHORT, TypeKind.INT, TypeKind.LONG)
+
     # FIXME, macro definition __SIZEOF_DOUBLE__
     ctypes_typename = {
         TypeKind.VOID: "None",  # because ctypes.POINTER(None) == c_void_p
         TypeKind.BOOL: "c_bool",
         TypeKind.CHAR_U: "c_ubyte",  # ?? used for PADDING
         TypeKind.UCHAR: "c_ubyte",  # unsigned char
-        TypeKind.CHAR16: "c_wchar",  # char16_t
-        TypeKind.CHAR32: "c_wchar",  # char32_t
+        TypeKind.CHAR16: "TBD",  # char16_t
+        TypeKind.CHAR32: "TBD",  # char32_t
         TypeKind.USHORT: "c_ushort",
         TypeKind.UINT: "c_uint",
         TypeKind.ULONG: "TBD",
@@ -278,6 +281,9 @@ typedef long long longlong_t;
 typedef float float_t;
 typedef double double_t;
 typedef long double longdouble_t;
+typedef __WCHAR_TYPE__ wide_t;
+typedef __CHAR16_TYPE__ wide16_t;
+typedef __CHAR32_TYPE__ wide32_t;
 typedef void* pointer_t;""",
             flags=_flags,
         )
@@ -305,6 +311,16 @@ typedef void* pointer_t;""",
         self.ctypes_sizes[TypeKind.LONGLONG] = size
         self.ctypes_sizes[TypeKind.ULONGLONG] = size
 
+        size = util.get_cursor(translation_unit, "wide16_t").type.get_size() * 8
+        self.ctypes_typename[TypeKind.CHAR16] = f"c_uint{size:d}"
+        size = util.get_cursor(translation_unit, "wide32_t").type.get_size() * 8
+        self.ctypes_typename[TypeKind.CHAR32] = f"c_uint{size:d}"
+        # c_wchar has the size of the wchar_t of the local platform
+        wide_t = util.get_cursor(translation_unit, "wide_t").underlying_typedef_type
+        size = wide_t.get_size() * 8
+        if size != ctypes.sizeof(ctypes.c_wchar) * 8 or any("-target" in flag for flag in _flags):
+            self.ctypes_typename[TypeKind.WCHAR] = f"c_int{size:d}" if wide_t.kind in self._signed_kinds else f"c_uint{size:d}"
+
         # FIXME : Float && http://en.wikipedia.org/wiki/Long_double
         size0 = util.get_cursor(translation_unit, "float_t").type.get_size() * 8
         size1 = util.get_cursor(translation_unit, "double_t").type.get_size() * 8
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 378277b..05e36f6 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -437,7 +437,7 @@ class CursorHandler(ClangHandler):
                 return value[0]
             return [self._convert_init_value(_element, v) for v in value]
         if _ctype.kind == TypeKind.ENUM or (
-                self.is_fundamental_type(_ctype) and _ctype.kind not in self._char_kinds):
+                self.is_fundamental_type(_ctype) and not self._is_char_kind(_ctype.kind)):
             if isinstance(value, str) and len(value) == 1:
                 value = ord(value)
             elif isinstance(value, float) and _ctype.kind == TypeKind.BOOL:
@@ -450,12 +450,17 @@ class CursorHandler(ClangHandler):
             if _ctype.kind in self._signed_kinds and isinstance(value, int):
                 _half = 1 << (_ctype.get_size() * 8 - 1)
                 value = (value + _half) % (2 * _half) - _half
-        elif _ctype.kind in self._char_kinds and isinstance(value, float):
+        elif self._is_char_kind(_ctype.kind) and isinstance(value, float):
             value = int(value) if abs(value) < float('inf') else None
         return value
 
-    _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR, TypeKind.WCHAR,
-                   TypeKind.CHAR16, TypeKind.CHAR32]
+    _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR]
+
+    def _is_char_kind(self, kind):
+        """Tells if the values of this kind of type are characters."""
+        return kind in self._char_kinds or (
+            kind == TypeKind.WCHAR and self.get_ctypes_name(kind) == "c_wchar")
+
     _signed_kinds = [TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]
     _integer_kinds = [TypeKind.USHORT, TypeKind.UINT, TypeKind.ULONG, TypeKind.ULONGLONG] + _signed_kinds[1:]
     _float_kinds = [TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE]
-- 
2.43.0


From 39f5c480dff72c605212ee2da470a638cf7f6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 66/82] fix: members with names like those of padding

---
 ctypeslib/codegen/cursorhandler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 05e36f6..bed383c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1,5 +1,6 @@
 """Handler for Cursor nodes from the clang AST tree."""
 
+import itertools
 import logging
 import re
 
@@ -917,7 +918,8 @@ class CursorHandler(ClangHandler):
     def _field_names(self, members):
         names = set()
         for m in members:
-            names |= {m.name} if m.name else self._field_names(m.type.members or [])
+            if not m.is_padding:
+                names |= {m.name} if m.name else self._field_names(m.type.members or [])
         return names
 
     def _all_fields(self, s, offset):
@@ -1180,10 +1182,13 @@ class CursorHandler(ClangHandler):
     _fixup_Structure = _fixup_record
     _fixup_Union = _fixup_record
 
-    @staticmethod
-    def _number_padding(members):
-        for i, m in enumerate(m for m in members if m.is_padding):
-            m.name = 'PADDING_%d' % i
+    def _number_padding(self, members):
+        # with names that no member has
+        names = self._field_names(members)
+        numbered = (n for n in map('PADDING_{}'.format, itertools.count()) if n not in names)
+        for m in members:
+            if m.is_padding:
+                m.name = next(numbered)
 
     def _make_padding(
             self, members, padding_nb, offset, length):
-- 
2.43.0


From 9f4f965fddb0d186d984753d2235cc535fa52aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 67/82] fix: positional arguments for members with names like
 PADDING

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 14d2775..9a5e97a 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -67,7 +67,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def _field_names_(cls):
         if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
+            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING_'))
         else:
             return ()
 
-- 
2.43.0


From c8ad41390e354ea8a51181878a7126fd97d33ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 68/82] fix: keyword arguments for members named self

---
 ctypeslib/data/structure_type.tpl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 9a5e97a..f7c2b79 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -57,9 +57,10 @@ class AsDictMixin:
 
 class Structure(ctypes.Structure, AsDictMixin):
 
-    def __init__(self, *args, **kwds):
+    def __init__(*args, **kwds):
         # We don't want to use positional arguments fill PADDING_* fields
-
+        # a field can have the name self
+        self, args = args[0], args[1:]
         args = dict(zip(self.__class__._field_names_(), args))
         args.update(kwds)
         super(Structure, self).__init__(**args)
-- 
2.43.0


From 37e952911b017facb7e29e493c4c9c8d3e97fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 69/82] fix: helpers of derived records with the members of
 their bases

---
 ctypeslib/data/structure_type.tpl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index f7c2b79..d6b2c91 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -5,11 +5,9 @@ class AsDictMixin:
         if not isinstance(self, AsDictMixin):
             # not a structure, assume it's already a python object
             return self
-        if not hasattr(cls, "_fields_"):
-            return result
         # sys.version_info >= (3, 5)
-        # for (field, *_) in cls._fields_:  # noqa
-        for field_tuple in cls._fields_:  # noqa
+        # for (field, *_) in cls._members_():  # noqa
+        for field_tuple in cls._members_():  # noqa
             field = field_tuple[0]
             if field.startswith('PADDING_'):
                 continue
@@ -43,6 +41,11 @@ class AsDictMixin:
         return result
 
 
+    @classmethod
+    def _members_(cls):
+        # the members of the base classes come first
+        return [f for c in reversed(cls.__mro__) for f in vars(c).get('_fields_', ())]
+
     @staticmethod
     def _array_as_list(array):
         type_ = array._type_
@@ -67,14 +70,11 @@ class Structure(ctypes.Structure, AsDictMixin):
 
     @classmethod
     def _field_names_(cls):
-        if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING_'))
-        else:
-            return ()
+        return (f[0] for f in cls._members_() if not f[0].startswith('PADDING_'))
 
     @classmethod
     def get_type(cls, field):
-        for f in cls._fields_:
+        for f in cls._members_():
             if f[0] == field:
                 return f[1]
         return None
@@ -84,7 +84,7 @@ class Structure(ctypes.Structure, AsDictMixin):
         # the dictionary of the caller stays as it is
         bound_fields = dict(bound_fields)
         fields = {}
-        for name, type_ in (f[:2] for f in cls._fields_):
+        for name, type_ in (f[:2] for f in cls._members_()):
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
-- 
2.43.0


From fa7d5abcdddec1d98ce893f9523038d174fc0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:44 +0000
Subject: [PATCH 70/82] fix: translate long chains of records

---
 ctypeslib/codegen/codegenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 50cd8f5..97e1987 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1067,6 +1067,8 @@ class CodeTranslator:
     """
     def __init__(self, cfg: config.CodegenConfig):
         self.cfg = cfg
+        # records refer to other ones, in long chains
+        sys.setrecursionlimit(max(sys.getrecursionlimit(), 10000))
         self.preloaded_dlls = []
         self.parser = None
         self.generator = None
-- 
2.43.0


From 5f97b6be9f55b2f43681f0c35981a3f7efdc9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:52 +0000
Subject: [PATCH 71/82] fix: libraries that are not libclang

A library that loads but is not libclang stopped the import with an
AttributeError instead of leaving the choice to the next candidate.
---
 ctypeslib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 7774a27..3f57911 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -93,7 +93,8 @@ def __configure_clang_cindex():
                 cindex.Config.set_library_file(__library_path)
             # force-check that clang is configured properly
             clang_version()
-        except cindex.LibclangError:
+        except (cindex.LibclangError, AttributeError):
+            # not a library, or not libclang
             warnings.warn(f"Could not configure clang with library_path={__library_path}", RuntimeWarning)
             continue
         return __library_path
-- 
2.43.0


From 34ea955df11000990f010489908eff662200ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 72/82] fix: values of enumerations with a $ in the name of a
 typedef

The table of values of the typedef was assigned to a name that is no Python.
---
 ctypeslib/codegen/codegenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 97e1987..696323f 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -299,7 +299,8 @@ class Generator:
             print("%s = %s" % (name, self.type_name(tp.typ)), file=self.stream)
 
             if isinstance(tp.typ, typedesc.Enumeration):
-                print("%s__enumvalues = %s__enumvalues" % (tp.name, tp.typ.name), file=self.stream)
+                names = [self.identifier("%s__enumvalues" % n) for n in (tp.name, tp.typ.name)]
+                print("%s = %s" % tuple(names), file=self.stream)
                 self.names.append("%s__enumvalues" % tp.name)
 
         self.names.append(tp.name)
-- 
2.43.0


From 148eee58ba9690e65d3698a6b17504d0a2ce3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 73/82] fix: line breaks in the names of operators

The list of names was broken inside of a name with a blank, 'operator new' for
example, which left a string without its end.
---
 ctypeslib/codegen/codegenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 696323f..fcd391f 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1025,10 +1025,11 @@ class Generator:
         # text Wrapper doesn't work for the first line in certain cases.
         print(text, file=self.output)
         # doesn't work for the first line in certain cases.
-        wrapper = textwrap.TextWrapper(break_long_words=False, initial_indent="    ", subsequent_indent="    ")
-        text = "[%s]" % ", ".join([repr(str(n)) for n in sorted(self.names)])
+        wrapper = textwrap.TextWrapper(break_long_words=False, break_on_hyphens=False, initial_indent="    ", subsequent_indent="    ")
+        text = "[%s]" % ", ".join([repr(str(n)).replace(" ", "\0") for n in sorted(self.names)])
         for line in wrapper.wrap(text):
-            print(line, file=self.output)
+            # no line break in a name like 'operator new'
+            print(line.replace("\0", " "), file=self.output)
 
         return loops
 
-- 
2.43.0


From 4572f62a25017eded42dccb2858003e88dd477eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 74/82] fix: docstrings of functions with names that are no
 Python

The prototype had an expression, globals()['lambda'], in place of the name.
---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index fcd391f..af46b9a 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -916,7 +916,7 @@ class Generator:
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
             doc = "{ret} {funcname}({args})\n    {file}:{line}".format(
-                funcname=name,
+                funcname=func.name,
                 args=", ".join(["%s %s" % i for i in argsAndTypes]),
                 file=func.location[0],
                 line=func.location[1],
-- 
2.43.0


From f83c1b0f5aa825f23129c0fdc4f51c8b43d415a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:02 +0000
Subject: [PATCH 75/82] fix: names with characters that Python normalizes

Python reads an identifier with U+00B5 (micro sign), for example, as one with
U+03BC: __all__ had names that the module does not have, functions were looked
up under names that the library does not have, and members had names that no
attribute has.
---
 ctypeslib/codegen/codegenerator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index af46b9a..6042080 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -15,6 +15,7 @@ import os
 import pkgutil
 import sys
 import textwrap
+import unicodedata
 import io
 from io import StringIO
 
@@ -166,7 +167,7 @@ class Generator:
         # elif isinstance(t, typedesc.Union):
         if t.name.startswith("__"):
             # Python mangles these names in the body of a class
-            return "globals()['%s']" % t.name
+            return "globals()['%s']" % self.normal_form(t.name)
         return self.identifier(t.name)
         # All typedesc typedefs should be handled
         # raise TypeError('This typedesc should be handled %s'%(t))
@@ -179,6 +180,11 @@ class Generator:
             return "globals()['%s']" % name
         return name
 
+    @staticmethod
+    def normal_form(name):
+        """Returns the characters that Python has for those of an identifier."""
+        return unicodedata.normalize("NFKC", name) if name.isidentifier() else name
+
     ################################################################
 
     _aliases = 0
@@ -751,7 +757,7 @@ class Generator:
             if self.generate_locations and body.struct.location:
                 self.print_location("    # %s %s", body.struct.location)
             for f in fields:
-                fieldname = unnamed_fields.get(f, f.name)
+                fieldname = self.normal_form(unnamed_fields.get(f, f.name))
                 type_name = self.type_name(f.type)
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
@@ -895,7 +901,7 @@ class Generator:
         # Generate the function decl code
         print("try:", file=self.stream)
         name = self.identifier(func.name)
-        if name == func.name:
+        if name == self.normal_form(func.name):
             print("    %s = %s.%s" % (name, libname, func.name), file=self.stream)
         else:
             print("    %s = getattr(%s, '%s')" % (name, libname, func.name), file=self.stream)
@@ -1026,7 +1032,7 @@ class Generator:
         print(text, file=self.output)
         # doesn't work for the first line in certain cases.
         wrapper = textwrap.TextWrapper(break_long_words=False, break_on_hyphens=False, initial_indent="    ", subsequent_indent="    ")
-        text = "[%s]" % ", ".join([repr(str(n)).replace(" ", "\0") for n in sorted(self.names)])
+        text = "[%s]" % ", ".join([repr(str(n)).replace(" ", "\0") for n in sorted(map(self.normal_form, self.names))])
         for line in wrapper.wrap(text):
             # no line break in a name like 'operator new'
             print(line.replace("\0", " "), file=self.output)
-- 
2.43.0


From b75c1524d318a4879cd050d3f11fade5a037ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:29 +0000
Subject: [PATCH 76/82] fix: values of bool and char variables that the type
 can not have

---
 ctypeslib/codegen/cursorhandler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index bed383c..2289c3f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -441,18 +441,18 @@ class CursorHandler(ClangHandler):
                 self.is_fundamental_type(_ctype) and not self._is_char_kind(_ctype.kind)):
             if isinstance(value, str) and len(value) == 1:
                 value = ord(value)
-            elif isinstance(value, float) and _ctype.kind == TypeKind.BOOL:
+            if isinstance(value, (int, float)) and _ctype.kind == TypeKind.BOOL:
                 value = bool(value)
             elif isinstance(value, float) and _ctype.kind not in self._float_kinds:
                 value = int(value) if abs(value) < float('inf') else None
             elif isinstance(value, str):
                 # the address of a string
                 value = True if _ctype.kind == TypeKind.BOOL else None
-            if _ctype.kind in self._signed_kinds and isinstance(value, int):
-                _half = 1 << (_ctype.get_size() * 8 - 1)
-                value = (value + _half) % (2 * _half) - _half
         elif self._is_char_kind(_ctype.kind) and isinstance(value, float):
             value = int(value) if abs(value) < float('inf') else None
+        if _ctype.kind in self._signed_kinds and isinstance(value, int):
+            _half = 1 << (_ctype.get_size() * 8 - 1)
+            value = (value + _half) % (2 * _half) - _half
         return value
 
     _char_kinds = [TypeKind.CHAR_U, TypeKind.CHAR_S, TypeKind.UCHAR]
@@ -462,8 +462,8 @@ class CursorHandler(ClangHandler):
         return kind in self._char_kinds or (
             kind == TypeKind.WCHAR and self.get_ctypes_name(kind) == "c_wchar")
 
-    _signed_kinds = [TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]
-    _integer_kinds = [TypeKind.USHORT, TypeKind.UINT, TypeKind.ULONG, TypeKind.ULONGLONG] + _signed_kinds[1:]
+    _signed_kinds = [TypeKind.CHAR_S, TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]
+    _integer_kinds = [TypeKind.USHORT, TypeKind.UINT, TypeKind.ULONG, TypeKind.ULONGLONG] + _signed_kinds[2:]
     _float_kinds = [TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE]
 
     def _get_var_decl_init_value(self, _ctype, children):
-- 
2.43.0


From 5c03e864ee97d2ff30d38cb57f10c3988a8588b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:12 +0000
Subject: [PATCH 77/82] fix: members of classes with the name of a member of an
 unnamed union of the base

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 6042080..ae18c4d 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -752,6 +752,9 @@ class Generator:
         if anonymous:
             unnamed_fields_str = ", ".join("'%s'" % _ for _ in anonymous)
             print("%s_anonymous_ = (%s,)" % (prefix, unnamed_fields_str), file=self.stream)
+        elif body.struct.bases and fields:
+            # the members promoted in the base class would hide those of this one
+            print("%s_anonymous_ = ()" % prefix, file=self.stream)
         if len(fields) > 0:
             print("%s_fields_ = [" % prefix, file=self.stream)
             if self.generate_locations and body.struct.location:
-- 
2.43.0


From c4c089d7dff7bd27f4a0ab8f85a4bc4707b248d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:14 +0000
Subject: [PATCH 78/82] fix: unnamed members of a class and of its base

---
 ctypeslib/codegen/codegenerator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index ae18c4d..000662a 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -55,6 +55,8 @@ class Generator:
         # what record dependency were generated
         self.head_generated = set()
         self.body_generated = set()
+        # record name -> generated names of its unnamed fields
+        self.unnamed_fields = {}
 
     # pylint: disable=method-hidden
     def enable_fundamental_type_wrappers(self):
@@ -737,6 +739,9 @@ class Generator:
         # that no field has, not those promoted from unnamed fields either
         unnamed_fields = {}
         names = self._field_names(fields)
+        # nor those of the base classes
+        inherited = {n for b in body.struct.bases for n in self.unnamed_fields.get(b.name, ())}
+        names |= inherited
         numbered = ("_%d" % i for i in itertools.count() if "_%d" % i not in names)
         for f in fields:
             # _anonymous_ fields are fields of type Structure or Union,
@@ -747,6 +752,7 @@ class Generator:
                 if f.name == '':
                     unnamed_fields[f] = next(numbered)
                 # otherwise, we want to keep that field's name
+        self.unnamed_fields[body.name] = inherited | set(unnamed_fields.values())
         # an empty record has no members to promote
         anonymous = [name for f, name in unnamed_fields.items() if f.type.members]
         if anonymous:
-- 
2.43.0


From 74cee5a1bfe531a6b0cc6117430746877728c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:45 +0000
Subject: [PATCH 79/82] fix: skip the macOS SDK when CTYPESLIB2_SKIP_MACOS_SDK
 is set, report xcrun that is missing

---
 ctypeslib/codegen/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index cbc9657..5c906ad 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -47,10 +47,10 @@ class CodegenConfig:
         self.known_symbols = {}
         self.searched_dlls = []
         self.clang_opts = []
-        if sys.platform == 'darwin':
+        if sys.platform == 'darwin' and not os.environ.get('CTYPESLIB2_SKIP_MACOS_SDK'):
             try:
                 sysroot = subprocess.check_output(['xcrun', '--show-sdk-path']).decode('utf8').strip()
-            except subprocess.CalledProcessError:
+            except (OSError, subprocess.CalledProcessError):
                 raise RuntimeError("The XCode Command Line Tools must be installed to provide the C standard library headers. Set CTYPESLIB2_SKIP_MACOS_SDK=1 in the environment to skip this check.")
             self.clang_opts.extend(['-isysroot', sysroot])
 
-- 
2.43.0


From 8db50b86f989ba882bc299e7a8e12a9a145837c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:26 +0000
Subject: [PATCH 80/82] fix: import the types of the modules of the -m option
 instead of generating them

---
 ctypeslib/codegen/codegenerator.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 000662a..23e265e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -499,7 +499,9 @@ class Generator:
         # we generate the TYPE last, overwriting the value. XXX
         for item in tp.values:
             self._generate(item)
-        if tp.name:
+        if tp.name and self.normal_form(tp.name) in self.known_symbols:
+            self._print_import(tp.name)
+        elif tp.name:
             # Enums can be forced to occupy less space than an int when the compiler flag '-fshort-enums' is set.
             # The size adjustment is done when possible, depending on the values of the enum.
             # In any case, we should trust the enum size returned by the compiler.
@@ -969,6 +971,8 @@ class Generator:
         """ wraps execution of specific methods."""
         if item in self.done:
             return
+        if self._import_known_symbol(item):
+            return
         # verbose output with location.
         if self.generate_locations and item.location:
             self.print_location("# %s:%d", item.location)
@@ -983,6 +987,27 @@ class Generator:
         mth(item, *args)
         return
 
+    def _print_import(self, name):
+        name = self.normal_form(name)
+        print("from %s import %s" % (self.known_symbols[name], name), file=self.imports)
+
+    def _import_known_symbol(self, item):
+        """The types of the modules that the user has given are imported instead of generated."""
+        if isinstance(item, (typedesc.StructureHead, typedesc.StructureBody)):
+            item = item.struct
+        if not typedesc.is_record(item) and not isinstance(item, typedesc.Typedef):
+            return False
+        if self.normal_form(item.name) not in self.known_symbols:
+            return False
+        self._print_import(item.name)
+        self.done[item] = True
+        if typedesc.is_record(item):
+            self.done[item.get_head()] = True
+            self.done[item.get_body()] = True
+            self.head_generated.add(item.name)
+            self.body_generated.add(item.name)
+        return True
+
     def print_location(self, template, location):
         # there may be line breaks in the name of the file
         print(" ".join((template % location).splitlines()), file=self.stream)
-- 
2.43.0


From 6f9c5909ad5f210a6d1fa1a85ca3966ebbdc2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:24 +0000
Subject: [PATCH 81/82] fix: macros that are continued on the next line

---
 ctypeslib/codegen/cursorhandler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2289c3f..638c11f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -621,7 +621,7 @@ class CursorHandler(ClangHandler):
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
         for i, token in enumerate(tokens):
-            value = token.spelling
+            value = self._token_text(token)
             log.debug('token:%s tk.kd:%11s tk.cursor.kd:%15s cursor.kd:%15s',
                       token.spelling, token.kind.name, token.cursor.kind.name,
                       cursor.kind.name)
@@ -1431,10 +1431,16 @@ class CursorHandler(ClangHandler):
         return True
 
     @staticmethod
-    def _is_function_like(cursor):
+    def _token_text(token):
+        """The text of a token, without the ends of the lines that it continues"""
+        if re.match(r'(u8|u|U|L)?R"', token.spelling):
+            return token.spelling
+        return re.sub(r'\\[ \t\v\f]*\r?\n', '', token.spelling)
+
+    def _is_function_like(self, cursor):
         """A parenthesis next to the name begins the arguments of a macro"""
         tokens = [t for _, t in zip(range(2), cursor.get_tokens())]
-        return (len(tokens) == 2 and tokens[1].spelling == '(' and
+        return (len(tokens) == 2 and self._token_text(tokens[1]) == '(' and
                 tokens[0].extent.end.offset == tokens[1].extent.start.offset)
 
     @log_entity
-- 
2.43.0


From 863e7d222d134eff8a4100898e971a3b6e2bba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:37 +0000
Subject: [PATCH 82/82] fix: declarations with the name of a macro

---
 ctypeslib/codegen/codegenerator.py | 13 ++++++++++---
 ctypeslib/codegen/cursorhandler.py | 19 +++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 23e265e..633a111 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -51,6 +51,7 @@ class Generator:
         self.names = list()  # names that have been generated
         self.more = collections.OrderedDict()
         self.macros = 0
+        self.declared_names = set()
         self.cross_arch_code_generation = cfg.cross_arch
         # what record dependency were generated
         self.head_generated = set()
@@ -236,6 +237,9 @@ class Generator:
                 print("# %s = %s # macro" % (macro.name, macro.body.name), file=self.stream)
             else:  # we assume it's a list
                 print("# %s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
+        elif macro.name in self.declared_names:
+            # the name of a declaration too
+            print("# %s = %r # macro" % (macro.name, macro.body), file=self.stream)
         elif isinstance(macro.body, bool):
             print("%s = %s # macro" % (self.identifier(macro.name), macro.body), file=self.stream)
             self.macros += 1
@@ -1027,6 +1031,7 @@ class Generator:
     def generate_items(self, items):
         # items = set(items)
         loops = 0
+        self.declared_names = {i.name for i in items if hasattr(i, "name") and not isinstance(i, typedesc.Macro)}
         while items:
             loops += 1
             self.more = collections.OrderedDict()
@@ -1188,14 +1193,16 @@ class CodeTranslator:
             return
         todo = []
         syms = set(self.cfg.symbols)
+        found = set()
         for i in self.filtered_items:
             if i.name in syms:
+                # a macro and a declaration can have the same name
                 todo.append(i)
-                syms.remove(i.name)
+                found.add(i.name)
             else:
                 log.debug("not generating {}: not a symbol".format(i.name))
-        if syms:
-            log.warning("symbols not found %s", [str(x) for x in list(syms)])
+        if syms - found:
+            log.warning("symbols not found %s", [str(x) for x in list(syms - found)])
         self.filtered_items = todo
 
     def filter_expressions(self):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 638c11f..d9b4e3c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -668,7 +668,7 @@ class CursorHandler(ClangHandler):
                 value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_INSTANTIATION:  # noqa
                 # get the macro value
-                value = self.get_registered(value).body
+                value = self.get_registered(self._macro_id(value)).body
                 # already cleaned value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
                 tk = token.kind
@@ -681,8 +681,9 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    macro = self.get_registered(value) if self.is_registered(value) else None
-                    if isinstance(macro, typedesc.Macro) and not macro.args:
+                    _id = self._macro_id(value)
+                    macro = self.get_registered(_id) if self.is_registered(_id) else None
+                    if macro is not None and not macro.args:
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
                         value = macro.body
@@ -1419,17 +1420,23 @@ class CursorHandler(ClangHandler):
             value = None
         log.debug('MACRO: #define %s%s %s', name, args or '', value)
         obj = typedesc.Macro(name, args, value)
+        _id = self._macro_id(name)
         try:
-            self.register(name, obj)
+            self.register(_id, obj)
         except DuplicateDefinitionException:
-            log.info('Redefinition of %s %s->%s', name, self.parser.all[name].args, value)
+            log.info('Redefinition of %s %s->%s', name, self.parser.all[_id].args, value)
             # HACK
-            self.parser.all[name] = obj
+            self.parser.all[_id] = obj
         self.set_location(obj, cursor)
         # set the comment in the obj
         obj.comment = comment
         return True
 
+    @staticmethod
+    def _macro_id(name):
+        """A declaration can have the name of a macro"""
+        return "#define " + name
+
     @staticmethod
     def _token_text(token):
         """The text of a token, without the ends of the lines that it continues"""
-- 
2.43.0

