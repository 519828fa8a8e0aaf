From 23bba775a8bba16f5921cd3c56bb70d71229d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 01/15] fix: compute the tableswitch range without overflowing
 i32

A range such as low=-2147483648, high=0 overflowed (a panic with overflow
checks on, and an empty table that leaves the rest undecoded otherwise).
---
 src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..f4f6f7c 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,7 +500,7 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
                     Ok(n) => n,
                     _ => fail!(
                         "Unable to convert range to usize in tableswitch at index {}",
-- 
2.43.0


From c3a1fa3c246c764f318a6a7046851a99d06f2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 02/15] fix: do not reserve memory for switch tables the code
 cannot hold

A lookupswitch or tableswitch can declare 2^31 entries in a few bytes, for
which gigabytes were reserved before noticing that the code had ended.
---
 src/bytecode.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index f4f6f7c..cc858d8 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -507,6 +507,12 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
+                if jump_count > (code.len() - ix) / 4 {
+                    fail!(
+                        "Unexpected end of code reading jump offsets of tableswitch at index {}",
+                        ix
+                    );
+                }
                 let mut jumps = Vec::with_capacity(jump_count);
                 for _ in 0..jump_count {
                     jumps.push(read_u4(code, &mut ix)? as JumpOffset);
@@ -536,6 +542,12 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
+                if pair_count > (code.len() - ix) / 8 {
+                    fail!(
+                        "Unexpected end of code reading pairs of lookupswitch at index {}",
+                        ix
+                    );
+                }
                 let mut match_offsets = Vec::with_capacity(pair_count);
                 for _ in 0..pair_count {
                     let match_part = read_u4(code, &mut ix)? as i32;
-- 
2.43.0


From 6a70653f8eba8da8128aea2dc9ac77adbb184eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 03/15] fix: reject jumps whose destination overflows i32
 instead of panicking

---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index cc858d8..25cb51c 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From d4f39959fbfaa180cc46353058811053990a9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 04/15] fix: reject long and double constants without room for
 their second slot

At index 65534 the index counter overflowed; elsewhere such a pool was
accepted with one entry more than its declared size.
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..b6f1708 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -689,7 +689,13 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index.
+            // so eat up another index, which must exist.
+            if cp_ix >= count {
+                fail!(
+                    "No room for the second slot of the 8-byte constant at constant pool index {}",
+                    cp_ix - 1
+                );
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From 2fe6ecaea622cf468e68a2a4b7052a3d449ea317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 05/15] fix: reject NameAndType cycles instead of recursing
 forever

Two NameAndType entries naming each other as descriptor overflowed the stack
(deadlocked with the threadsafe feature) when a method reference used one.
---
 src/constant_pool.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index b6f1708..2d63813 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,15 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                // The descriptor has to be text; recursing here would never end (or deadlock) if it
+                // is another NameAndType that leads back to this one.
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From ba4761d0fb620bdd8b3f9590e906bb94b9b215f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 06/15] fix: reject NameAndType entries whose descriptor is not
 decodable text

Such an entry passed validation when nothing else used it, and the parser
(EnclosingMethod) or the constant pool iterator then panicked on it.
---
 src/constant_pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 2d63813..a6c3e55 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -403,6 +403,15 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Descriptors of NameAndType entries are handed out as Rust strings, even if no other entry
+    /// refers to the NameAndType, so they must not be raw bytes.
+    fn validate_descriptor_is_text(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+            _ => Ok(()),
+        }
+    }
+
     fn utf8(&self) -> Cow<'a, str> {
         match self {
             ConstantPoolEntry::Utf8(x) => x.clone(),
@@ -653,6 +662,7 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| cp_entry.validate_descriptor_is_text())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From 23e83a0447c673b25830eab3e7c6c355b58c61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 07/15] fix: free the entries of rejected constant pools

Entries that reference each other in a cycle were leaked, and dropping a long
chain of entries that each reference their predecessor overflowed the stack.
---
 src/constant_pool.rs | 55 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index a6c3e55..35da321 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -81,6 +81,7 @@ trait CafeCellDeref<'a> {
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
     ) -> Result<(), ParseError>;
+    fn unlink(&self);
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
 
@@ -96,6 +97,14 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
     }
 
+    fn unlink(&self) {
+        #[cfg(not(feature = "threadsafe"))]
+        let mut target = self.borrow_mut();
+        #[cfg(feature = "threadsafe")]
+        let mut target = self.lock().unwrap();
+        *target = ConstantPoolRef::Unresolved(0);
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         peel!(self).ensure_type(allowed)
     }
@@ -207,6 +216,40 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Drops the references to other entries.
+    fn unlink(&self) {
+        match self {
+            // Entry types that do not reference other entries:
+            ConstantPoolEntry::Zero
+            | ConstantPoolEntry::Utf8(_)
+            | ConstantPoolEntry::Utf8Bytes(_)
+            | ConstantPoolEntry::Integer(_)
+            | ConstantPoolEntry::Float(_)
+            | ConstantPoolEntry::Long(_)
+            | ConstantPoolEntry::Double(_)
+            | ConstantPoolEntry::Unused => (),
+
+            // Entry types that reference one other entry:
+            ConstantPoolEntry::ClassInfo(x)
+            | ConstantPoolEntry::String(x)
+            | ConstantPoolEntry::MethodHandle(_, x)
+            | ConstantPoolEntry::MethodType(x)
+            | ConstantPoolEntry::Dynamic(_, x)
+            | ConstantPoolEntry::InvokeDynamic(_, x)
+            | ConstantPoolEntry::ModuleInfo(x)
+            | ConstantPoolEntry::PackageInfo(x) => x.unlink(),
+
+            // Entry types that reference two other entries:
+            ConstantPoolEntry::FieldRef(x, y)
+            | ConstantPoolEntry::MethodRef(x, y)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y)
+            | ConstantPoolEntry::NameAndType(x, y) => {
+                x.unlink();
+                y.unlink();
+            }
+        }
+    }
+
     fn get_type(&self) -> ConstantPoolEntryTypes {
         match self {
             ConstantPoolEntry::Zero => ConstantPoolEntryTypes::ZERO,
@@ -718,8 +761,16 @@ pub(crate) fn read_constant_pool<'a>(
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
     }
-    resolve_constant_pool(&constant_pool)?;
-    validate_constant_pool(&constant_pool, major_version)?;
+    let checked = resolve_constant_pool(&constant_pool)
+        .and_then(|()| validate_constant_pool(&constant_pool, major_version));
+    if let Err(e) = checked {
+        // The entries of a malformed pool can reference each other in cycles, which would never be
+        // freed, or in long chains, which would be dropped recursively.
+        for cp_entry in &constant_pool {
+            cp_entry.unlink();
+        }
+        return Err(e);
+    }
     Ok(constant_pool)
 }
 
-- 
2.43.0


From a0260c117b6aa1044c3407dff41813dc066ca48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 08/15] fix: bound the nesting of annotations and attributes

Input nested deeply enough overflowed the stack, and every level reserved
memory for as many items as it declared, backed by the input or not.
---
 src/attributes.rs | 71 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..59b53e1 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -369,6 +369,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -396,8 +397,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -644,11 +645,30 @@ fn read_localvariabletype_data<'a>(
     Ok(localvariabletypes)
 }
 
+/// Annotations and arrays nested more deeply than this in an annotation are rejected, to keep
+/// the recursion of the parser bounded.
+const MAX_ANNOTATION_DEPTH: usize = 64;
+
+/// Attributes nested more deeply than this are rejected, to keep the recursion of the parser
+/// bounded. (The class file format itself has no use for more than two levels.)
+const MAX_ATTRIBUTE_DEPTH: usize = 16;
+
+/// The number of items to reserve memory for, given how many are declared and how many bytes
+/// each takes up at least. Nested items must not reserve more than the input can hold, as every
+/// level of nesting reserves memory of its own.
+fn nested_capacity(count: u16, item_size: usize, bytes: &[u8], ix: usize) -> usize {
+    usize::from(count).min((bytes.len() - ix) / item_size)
+}
+
 fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ANNOTATION_DEPTH {
+        fail!("Annotation values are nested too deeply at index {}", *ix);
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +696,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
-            let mut array_values = Vec::with_capacity(count.into());
+            let mut array_values = Vec::with_capacity(nested_capacity(count, 3, bytes, *ix));
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,15 +719,16 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
-    let mut elements = Vec::with_capacity(element_count.into());
+    let mut elements = Vec::with_capacity(nested_capacity(element_count, 5, bytes, *ix));
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +747,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +764,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +849,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1026,9 +1049,10 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut components = Vec::with_capacity(count.into());
+    let mut components = Vec::with_capacity(nested_capacity(count, 6, bytes, *ix));
     for i in 0..count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of entry {}", i))?;
         if !is_unqualified_name(&name) {
@@ -1037,8 +1061,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1054,8 +1078,21 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_nested_attributes(bytes, ix, pool, opts, 0)
+}
+
+fn read_nested_attributes<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply at index {}", *ix);
+    }
     let count = read_u2(bytes, ix)?;
-    let mut attributes = Vec::with_capacity(count.into());
+    let mut attributes = Vec::with_capacity(nested_capacity(count, 6, bytes, *ix));
     for i in 0..count {
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
@@ -1076,7 +1113,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1183,7 +1220,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1230,7 +1267,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 2177528841f723d1df55a783f075f3c2e5f9a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 09/15] fix: reject descriptors followed by other text

Fields, methods, record components, local variables and annotations accepted
descriptors such as "I;junk" and reported just their beginning.
---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 22 ++++++++++++++++++++++
 src/lib.rs         |  8 ++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 59b53e1..4c79e0f 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_whole_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -603,7 +603,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -681,7 +681,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -722,7 +722,7 @@ fn read_annotation<'a>(
     depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::with_capacity(nested_capacity(element_count, 5, bytes, *ix));
@@ -1059,7 +1059,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_whole_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
             .map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..5278103 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -287,6 +287,28 @@ pub(crate) fn parse_method_descriptor<'a>(
     })
 }
 
+/// Parse the given data, all of it, as a field descriptor.
+pub(crate) fn parse_whole_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after field descriptor")
+    }
+    Ok(desc)
+}
+
+/// Parse the given data, all of it, as a method descriptor.
+pub(crate) fn parse_whole_method_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<MethodDescriptor<'a>, ParseError> {
+    let desc = parse_method_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after method descriptor")
+    }
+    Ok(desc)
+}
+
 pub(crate) fn parse_array_descriptor<'a>(
     data: &Cow<'a, str>,
 ) -> Result<Option<FieldDescriptor<'a>>, ParseError> {
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..bc4f9f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_whole_field_descriptor, parse_whole_method_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_whole_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
@@ -242,7 +242,7 @@ fn read_methods<'a>(
             fail!("Invalid unqualified name for class method {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|d| parse_method_descriptor(&d, 0))
+            .and_then(|d| parse_whole_method_descriptor(&d))
             .map_err(|e| err!(e, "descriptor of class method {}", i))?;
 
         if allow_init && name == "<init>" && descriptor.return_type != ReturnDescriptor::Void {
-- 
2.43.0


From 68f25aaff6dbc8f73debf430d5e840143d112c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 10/15] fix: validate the names of method references

A method reference could name <clinit>, a non-void <init>, or a name with '<'
or '>' in it, none of which can be a method to refer to (JVMS 4.4.2, 4.2.2).
---
 src/constant_pool.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 35da321..88e84ae 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -293,12 +293,14 @@ impl<'a> ConstantPoolEntry<'a> {
             ConstantPoolEntry::MethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name()
             }
             ConstantPoolEntry::InterfaceMethodRef(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::CLASS_INFO)?;
                 y.ensure_type(ConstantPoolEntryTypes::NAME_AND_TYPE)?;
-                peel!(y).validate_method_descriptor()
+                peel!(y).validate_method_descriptor()?;
+                peel!(y).validate_method_name()
             }
             ConstantPoolEntry::NameAndType(x, y) => {
                 x.ensure_type(ConstantPoolEntryTypes::UTF8)?;
@@ -425,6 +427,25 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Validates the name in the NameAndType of a method reference: per 4.4.2, a name that starts
+    /// with '<' must be <init>, with a return type of void.
+    fn validate_method_name(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(x, y) => {
+                let is_init = match peel!(x).str()? {
+                    "<init>" => true,
+                    name if is_unqualified_method_name(name, false, false) => false,
+                    _ => fail!("Invalid unqualified method name"),
+                };
+                if is_init && !peel!(y).str()?.ends_with(")V") {
+                    fail!("Non-void method descriptor for reference to init method");
+                }
+                Ok(())
+            }
+            _ => panic!("Attempting to get name from non-NameAndType constant pool entry!"),
+        }
+    }
+
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
             ConstantPoolEntry::NameAndType(_, y) => {
-- 
2.43.0


From 55f541f5d9c0b51116a6276b6792052562e749ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 11/15] fix: allow '<' and '>' in the class names of
 descriptors and class headers

Only method names are barred from having these (JVMS 4.2.2); class names in
the constant pool already allowed them.
---
 src/descriptors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 5278103..89cc75d 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,7 +16,7 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
-- 
2.43.0


From 0df0fcb1328a896565270274f4e8714a881d44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 12/15] fix: reject empty class names and ones that end in '/'

---
 src/descriptors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 89cc75d..4c9a901 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -36,6 +36,7 @@ impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
         let mut index = 0;
         loop {
             match parse_unqualified_segment(&value[index..])? {
+                ("", None) => fail!("Empty unqualified segment in class name"),
                 (_, None) => break,
                 (_, Some(';')) => fail!("Disallowed ';' in class name"),
                 (segment, Some('/')) => index += segment.len() + 1,
-- 
2.43.0


From 7dbf54ec23a236335f4c190fd2ccb95dfb2af439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 13/15] fix: reject method descriptors with more than 255 units
 of parameters

JVMS 4.3.3; long and double count twice.
---
 src/descriptors.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 4c9a901..ed2ad11 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -146,6 +146,14 @@ pub struct FieldDescriptor<'a> {
 }
 
 impl FieldDescriptor<'_> {
+    // The contribution of a parameter of this type to the length of the parameter list.
+    fn units(&self) -> usize {
+        match self.field_type {
+            FieldType::Long | FieldType::Double if self.dimensions == 0 => 2,
+            _ => 1,
+        }
+    }
+
     fn byte_len(&self) -> usize {
         (self.dimensions as usize) + self.field_type.byte_len()
     }
@@ -271,6 +279,8 @@ pub(crate) fn parse_method_descriptor<'a>(
         fail!("Method descriptor must start with '('")
     }
     index += 1;
+    // Per 4.3.3, the total length of the parameters may be at most 255.
+    let mut units = 0;
     let mut parameters = vec![];
     loop {
         if bytes.len() > index && bytes[index] == b')' {
@@ -278,6 +288,10 @@ pub(crate) fn parse_method_descriptor<'a>(
         }
         let parameter = parse_field_descriptor(data, index)?;
         index += parameter.byte_len();
+        units += parameter.units();
+        if units > 255 {
+            fail!("Method descriptor has more parameters than a method can have")
+        }
         parameters.push(parameter);
     }
     index += 1;
-- 
2.43.0


From 05876aae1344dab87bce8be99fa06b9b0eaa125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 14/15] fix: reject module and package constants in classes
 that are not modules

JVMS 4.4.11 and 4.4.12.
---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bc4f9f9..4910926 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,6 +289,20 @@ bitflags! {
     }
 }
 
+// Per 4.4.11 and 4.4.12, these entries are permitted only in classes that declare a module.
+fn validate_no_module_entries(pool: &[CafeRc<ConstantPoolEntry>]) -> Result<(), ParseError> {
+    for (i, cp_entry) in pool.iter().enumerate() {
+        match cp_entry.deref() {
+            ConstantPoolEntry::ModuleInfo(_) | ConstantPoolEntry::PackageInfo(_) => fail!(
+                "Found module or package constant pool entry {} in class that is not a module",
+                i
+            ),
+            _ => continue,
+        }
+    }
+    Ok(())
+}
+
 fn validate_bootstrap_methods<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     attributes: &[AttributeInfo<'a>],
@@ -397,6 +411,8 @@ pub fn parse_class_with_options<'a>(
                 access_flags
             );
         }
+    } else {
+        validate_no_module_entries(&constant_pool)?;
     }
     let this_class = read_cp_classinfo(raw_bytes, &mut ix, &constant_pool)
         .and_then(ClassName::try_from)
-- 
2.43.0


From 7421861cf623c9650e11038b6e7d39592fea8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 15/15] fix: accept dynamic constants as bootstrap arguments

JVMS 4.7.23: any loadable constant can be one, CONSTANT_Dynamic included.
---
 src/constant_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 88e84ae..301082c 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -1137,6 +1137,7 @@ pub enum BootstrapArgument<'a> {
     ClassInfo(Cow<'a, str>),
     MethodHandle(MethodHandle<'a>),
     MethodType(Cow<'a, str>),
+    Dynamic(Dynamic<'a>),
 }
 
 pub(crate) fn read_cp_bootstrap_argument<'a>(
@@ -1166,6 +1167,10 @@ pub(crate) fn read_cp_bootstrap_argument<'a>(
             Ok(BootstrapArgument::MethodHandle(make_method_handle(x, y)?))
         }
         ConstantPoolEntry::MethodType(x) => Ok(BootstrapArgument::MethodType(peel!(x).utf8())),
+        ConstantPoolEntry::Dynamic(x, y) => Ok(BootstrapArgument::Dynamic(Dynamic {
+            attr_index: *x,
+            name_and_type: peel!(y).name_and_type(),
+        })),
         _ => fail!("Unexpected constant pool reference type"),
     }
 }
-- 
2.43.0

