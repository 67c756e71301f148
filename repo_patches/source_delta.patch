From 8732064273bb9a1a11a405ed247f7ef29175d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 01/54] fix: decode BKPT as a 16-bit Thumb instruction

The pattern matched 0xAExx (ADD SP plus immediate) instead of 0xBExx, so a
BKPT was taken for the first half of a 32-bit instruction and the
instruction after it was swallowed.
---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..e3fe8e4 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From 2ef7dbd7d60bc043f53e3fb353e3240344b96309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 02/54] fix: use the right bit order when decoding the offset
 of B (encoding T3)

The offset of a conditional wide branch is S:J2:J1:imm6:imm11:0; J1 and J2
were swapped so branches farther than 256 KiB got the wrong destination.
---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index e3fe8e4..b3e9bdc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -468,8 +468,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 9feda2ba8e2dbef7343bd520ab7687534177fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 03/54] fix: treat CBZ and CBNZ as branches in the stack usage
 analysis

The analysis gives up on functions that contain intra-function branches but
did not consider compare-and-branch instructions to be branches.
---
 src/thumb.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index b3e9bdc..1dc8561 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -184,6 +184,8 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
+            // these can only branch forward, within the function; give up the stack usage analysis
+            stack = None;
             continue;
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
-- 
2.43.0


From 1135c01328067a584ae5c41de20df0c6a9263696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/54] fix: count `subw sp, sp, #imm12` in the stack usage
 analysis

LLVM uses the T3 encoding of SUB (SP minus immediate) for frame sizes, like
1036 bytes, that can't be encoded as a modified immediate. The instruction
was ignored and the analysis then panicked because its result didn't match
the stack usage reported by LLVM.
---
 src/thumb.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 1dc8561..d8f5507 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -427,6 +427,26 @@ pub fn analyze(
                     }
                 }
             } else if v7
+                && matches(first, "0b11110_x_1_01010_1101")
+                && matches(second, "0b0_xxx_xxxx_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f2ad 4d0c       subw    sp, sp, #1036   ; 0x40c'
+                let rd = second[1] & 0b1111;
+                if rd == SP {
+                    modifies_sp = true;
+
+                    let imm8 = second[0];
+                    let imm3 = (second[1] >> 4) & 0b0111;
+                    let i = (first[1] >> 2) & 1;
+                    let imm32 =
+                        (u32::from(i) << 11) | (u32::from(imm3) << 8) | u32::from(imm8);
+
+                    if let Some(stack) = stack.as_mut() {
+                        *stack += u64::from(imm32);
+                    }
+                }
+            } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
             {
-- 
2.43.0


From f554ffa74eb721ed693fbf44dd3c5b845378651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 05/54] fix: give up the stack usage analysis on `add sp, rN`

Functions with big stack frames allocate them using ADD (SP plus register) on
ARMv6-M. The instruction was ignored and the analysis panicked because its
result did not match the stack usage reported by LLVM.
---
 src/thumb.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index d8f5507..9b9f78a 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -92,6 +92,17 @@ pub fn analyze(
             continue;
         } else if matches(first, "0b000_11_0_0_xxx_xxx_xxx") {
             // A7.7.4 ADD (register) - T1
+            continue;
+        } else if matches(first, "0b01000100_1_xxxx_101") {
+            // NOTE we break the alphabetical order because the rule for `ADD (register) - T2`
+            // overlaps with this rule
+            // A7.7.6  ADD (SP plus register) - T2
+            // e.g. '44b5            add     sp, r6'
+            // this is how big stack frames are allocated on ARMv6-M. the size of the stack frame
+            // is in a register so we don't know by how much SP is changed
+            modifies_sp = true;
+            stack = None;
+
             continue;
         } else if matches(first, "0b010001_00_x_xxxx_xxx") {
             // A7.7.4 ADD (register) - T2
@@ -105,9 +116,6 @@ pub fn analyze(
         } else if matches(first, "0b01000100_x_1101_xxx") {
             // A7.7.6  ADD (SP plus register) - T1
             continue;
-        } else if matches(first, "0b01000100_1_xxxx_101") {
-            // A7.7.6  ADD (SP plus register) - T2
-            continue;
         } else if matches(first, "0b1010_0_xxx_xxxxxxxx") {
             // A7.7.7  ADR - T1
             continue;
-- 
2.43.0


From d450147504da47cbc4d490916c77b64237a3a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 06/54] fix: connect `llvm.memmove` calls to `memmove`

Calls to the `llvm.memmove.*` intrinsics were connected to `memset` and
`memclr` and not to `memmove`. Also consider the 8-byte aligned `__aeabi`
variants and memory functions that are an alias of another function.
---
 src/main.rs | 77 ++++++++++++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..2a6ee34 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -629,49 +629,42 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memcpy.") {
-                        if let Some(callee) = indices.get("memcpy") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memcpy") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memcpy4") {
-                            call(*callee);
-                        }
-
-                        continue;
-                    }
-
-                    // TODO? consider alignment and `value` argument to only include one edge
-                    // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
-                        if let Some(callee) = indices.get("memset") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memset") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memset4") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("memclr") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memclr") {
-                            call(*callee);
-                        }
+                    // NOTE ARMv7-R and the like use the `__aeabi_*` functions
+                    let mem_functions: &[&str] = if func.starts_with("llvm.memcpy.") {
+                        &[
+                            "memcpy",
+                            "__aeabi_memcpy",
+                            "__aeabi_memcpy4",
+                            "__aeabi_memcpy8",
+                        ]
+                    } else if func.starts_with("llvm.memmove.") {
+                        &[
+                            "memmove",
+                            "__aeabi_memmove",
+                            "__aeabi_memmove4",
+                            "__aeabi_memmove8",
+                        ]
+                    } else if func.starts_with("llvm.memset.") {
+                        &[
+                            "memset",
+                            "__aeabi_memset",
+                            "__aeabi_memset4",
+                            "__aeabi_memset8",
+                            "memclr",
+                            "__aeabi_memclr",
+                            "__aeabi_memclr4",
+                            "__aeabi_memclr8",
+                        ]
+                    } else {
+                        &[]
+                    };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr4") {
-                            call(*callee);
+                    if !mem_functions.is_empty() {
+                        for mem_function in mem_functions {
+                            // use canonical name
+                            if let Some(canon) = aliases.get(mem_function) {
+                                call(indices[*canon]);
+                            }
                         }
 
                         continue;
-- 
2.43.0


From 3824f05ab629867103ba4ed6aba3e48fd510b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 07/54] fix: consider dynamically linked `mem*` functions in
 `llvm.mem*` calls

When `memcpy` and friends are undefined symbols (e.g. they come from libc) the
edge to them was missing, or present or missing depending on the iteration
order of a hash map when some other function calls them directly. Without the
edge the reported maximum stack usage looks exact when it is not.
---
 src/main.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2a6ee34..d86354b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -614,13 +614,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
-                    let mut call = |callee| {
-                        if !callees_seen.contains(&callee) {
-                            g.add_edge(caller, callee, ());
-                            callees_seen.insert(callee);
-                        }
-                    };
-
                     if target_.is_thumb() && func.starts_with("llvm.") {
                         // we'll analyze the machine code in the ELF file to figure out what these
                         // lower to
@@ -662,8 +655,18 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     if !mem_functions.is_empty() {
                         for mem_function in mem_functions {
                             // use canonical name
-                            if let Some(canon) = aliases.get(mem_function) {
-                                call(indices[*canon]);
+                            let callee = if let Some(canon) = aliases.get(mem_function) {
+                                indices[*canon]
+                            } else if symbols.undefined.contains(mem_function) {
+                                *indices
+                                    .entry((*mem_function).into())
+                                    .or_insert_with(|| g.add_node(Node(*mem_function, None, false)))
+                            } else {
+                                continue;
+                            };
+
+                            if callees_seen.insert(callee) {
+                                g.add_edge(caller, callee, ());
                             }
                         }
 
-- 
2.43.0


From ee3c8fc7fd3557716b2f8c2390daa2ea32f37119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 08/54] fix: handle more integer intrinsics instead of
 panicking

Rotations, signed `min` / `max`, signed saturating arithmetic, population
count and bit reversal are lowered to machine code just like the integer
intrinsics that were already accepted.
---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d86354b..5d76382 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -675,11 +675,19 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // XXX unclear whether these produce library calls on some platforms or not
                     if func.starts_with("llvm.abs.")
+                        || func.starts_with("llvm.bitreverse.")
                         || func.starts_with("llvm.bswap.")
                         || func.starts_with("llvm.ctlz.")
+                        || func.starts_with("llvm.ctpop.")
                         || func.starts_with("llvm.cttz.")
+                        || func.starts_with("llvm.fshl.")
+                        || func.starts_with("llvm.fshr.")
+                        || func.starts_with("llvm.sadd.sat.")
                         || func.starts_with("llvm.sadd.with.overflow.")
+                        || func.starts_with("llvm.smax.")
+                        || func.starts_with("llvm.smin.")
                         || func.starts_with("llvm.smul.with.overflow.")
+                        || func.starts_with("llvm.ssub.sat.")
                         || func.starts_with("llvm.ssub.with.overflow.")
                         || func.starts_with("llvm.uadd.sat.")
                         || func.starts_with("llvm.uadd.with.overflow.")
-- 
2.43.0


From 077319ffe3748005ffdf9437e907f6692293dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 09/54] fix: let the `--target` flag override `build.target`

Cargo gives precedence to the command line flag over `build.target` in
`.cargo/config` and so does the lookup of the build artifacts; do the same when
selecting how to build the standard library and how to analyze the program.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5d76382..1255e4e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -140,7 +140,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -350,7 +350,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From 56530f1fdec212b72cf555d0f8d1daa85b5a1e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 10/54] fix: don't mistake the end of a path for a hash

`dehash` removed the last segment of any path when said segment started with
`h` and was 17 characters long, e.g. `app::handle_interrupts`.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1255e4e..21045b2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1505,7 +1505,8 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .and_then(|hash| hash.strip_prefix("::h"))
+            .map(|digits| digits.bytes().all(|byte| byte.is_ascii_hexdigit()))
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From 3f40146f7a09bb6c47f1464a84e08b10aff37a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 11/54] fix: don't panic when a mangled symbol is not defined

`ambiguous` only contains symbols that are defined in the executable but the
graph may also contain undefined symbols.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21045b2..d465ac9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1223,7 +1223,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let demangled = rustc_demangle::demangle(&node.name).to_string();
 
         if let Some(dehashed) = dehash(&demangled) {
-            if ambiguous[dehashed] == 1 {
+            if ambiguous.get(dehashed) == Some(&1) {
                 node.name = Cow::Owned(dehashed.to_owned());
             }
         }
-- 
2.43.0


From a2459ebeda793d405c117548534a503a638949b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 12/54] fix: escape backslashes in node labels

A backslash starts an escape sequence in the dot format.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d465ac9..e2225ea 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1373,7 +1373,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From 82aa274ba90b7b42b68c9d396ce3b9d7dbc36e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 13/54] fix: accept the start point only when the whole path
 matches

`foo` also matched functions inside modules whose name start with `h`, e.g.
`foo::helper::bar`, and this made the start point ambiguous. Also find the
start point when it is given by a name that is an alias of another function.
---
 src/main.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2225ea..367b7be 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1071,27 +1071,26 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
+        // NOTE nodes are named after their canonical name, but `start` can be an alias
+        let node_of = |name: &str| {
+            indices
+                .get(aliases.get(name).copied().unwrap_or(name))
+                .cloned()
+        };
+        let start = node_of(start).or_else(|| {
             let hits = indices
                 .keys()
-                .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
-                        Some(key)
-                    } else {
-                        None
-                    }
-                })
-                .collect::<Vec<_>>();
+                .map(|key| &**key)
+                .chain(aliases.keys().copied())
+                .filter(|name| dehash(&rustc_demangle::demangle(name).to_string()) == Some(start))
+                .filter_map(|name| node_of(name).map(|index| (index, name)))
+                .collect::<BTreeMap<_, _>>();
 
             if hits.len() > 1 {
-                error!("multiple matches for `{}`: {:?}", start, hits);
+                error!("multiple matches for `{}`: {:?}", start, hits.values());
                 None
             } else {
-                hits.first().map(|key| indices[*key])
+                hits.keys().next().cloned()
             }
         });
 
-- 
2.43.0


From ca12951ab7d80d00df697a7272dc4941cebcd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 14/54] fix: ir parser: accept any constant as a call argument

Indirect calls with floating point constants, `poison`, `inttoptr` expressions
or aggregate constants in their arguments made the parser reject the whole
module.
---
 src/ir/define.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..b793dd3 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -3,6 +3,8 @@ use nom::{
     bytes::complete::{is_not, tag},
     character::complete::{char, digit1, line_ending, not_line_ending, space1},
     combinator::{map, map_res, opt},
+    error::ErrorKind,
+    error_position,
     multi::{many0, many1, separated_list0, separated_list1},
     sequence::delimited,
     IResult,
@@ -149,6 +151,34 @@ fn asm(i: &str) -> IResult<&str, Stmt> {
 #[derive(Clone, Debug, PartialEq)]
 struct Argument<'a>(Type<'a>);
 
+// `-126`, `true`, `1.000000e+00`, `poison`, `inttoptr (i32 4 to ptr)`, `{ i8 0, ptr null }`, etc.
+// NOTE we don't care about the value so this only looks for the end of the constant
+fn constant(i: &str) -> IResult<&str, ()> {
+    let mut depth = 0;
+    let mut in_string = false;
+    let mut end = 0;
+    for (pos, c) in i.char_indices() {
+        match c {
+            '\r' | '\n' => break,
+            '"' => in_string = !in_string,
+            _ if in_string => {}
+            ',' | ')' if depth == 0 => {
+                end = pos;
+                break;
+            }
+            '(' | '[' | '{' | '<' => depth += 1,
+            ')' | ']' | '}' | '>' => depth -= 1,
+            _ => {}
+        }
+    }
+
+    if end == 0 {
+        Err(nom::Err::Error(error_position!(i, ErrorKind::TakeUntil)))
+    } else {
+        Ok((&i[end..], ()))
+    }
+}
+
 fn argument(i: &str) -> IResult<&str, Argument> {
     let (i, ty) = super::type_(i)?;
     let i = space1(i)?.0;
@@ -164,15 +194,7 @@ fn argument(i: &str) -> IResult<&str, Argument> {
         map(super::function, drop),
         map(super::null, drop),
         map(super::undef, drop),
-        map(
-            |i| {
-                let i = opt(char('-'))(i)?.0;
-                digit1(i)
-            },
-            drop,
-        ),
-        map(tag("true"), drop),
-        map(tag("false"), drop),
+        constant,
     ))(i)?
     .0;
     Ok((i, Argument(ty)))
-- 
2.43.0


From dcb1c020093b58aaf76b96e9aa2c24df871208f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/54] fix: ir parser: don't ignore `invoke` statements that
 can't be parsed

An unknown form of `call` is a parse error but an unknown form of `invoke` was
silently ignored so the call graph missed the edge and the reported maximum
stack usage looked exact.
---
 src/ir/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index b793dd3..1648c1c 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -288,7 +288,7 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            if i == "call" || i == "invoke" {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From f8a8223f2584a4cb9bd4862b23e4fdb44ba3395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 16/54] fix: don't drop indirect calls that match no function

An indirect call whose signature matches none of the functions in the program
(e.g. a function pointer that is read from memory) left no trace in the call
graph, and the maximum stack usage of the caller was reported as exact. Connect
these calls to an unknown function, as it's done when there are untyped
symbols.
---
 src/main.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 367b7be..2645041 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -549,6 +549,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add edges
     let mut edges: HashMap<_, HashSet<_>> = HashMap::new(); // NodeIdx -> [NodeIdx]
     let mut defined = HashSet::new(); // functions that are `define`-d in the LLVM-IR
+    let mut unresolved: HashMap<FnSig, HashSet<_>> = HashMap::new(); // indirect calls w/o callees
     for define in defines.values() {
         let canonical_name = match aliases.get(&define.name) {
             Some(canonical_name) => canonical_name,
@@ -754,12 +755,18 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
+                    let mut has_callees = false;
                     for (key_sig, indirect) in &mut indirects {
                         if key_sig.loosely_equal(sig) {
                             indirect.called = true;
                             indirect.callers.insert(caller);
+                            has_callees = true;
                         }
                     }
+
+                    if !has_callees {
+                        unresolved.entry(sig.clone()).or_default().insert(caller);
+                    }
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
@@ -956,6 +963,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // there's no function that could be the callee of these indirect calls so we don't know what they
+    // end up calling
+    for (sig, callers) in unresolved {
+        let indirect = indirects.entry(sig).or_default();
+        indirect.called = true;
+        indirect.callers.extend(callers);
+    }
+
     // add fictitious nodes for indirect function calls
     if has_untyped_symbols {
         warn!(
@@ -1053,14 +1068,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             g.add_edge(*caller, call, ());
         }
 
-        if has_untyped_symbols {
+        if !has_untyped_symbols && callees.is_empty() {
+            error!("BUG? no callees for `{}`", name);
+        }
+
+        if has_untyped_symbols || callees.is_empty() {
             // add an edge between this and a potential extern / untyped symbol
             let extern_sym = g.add_node(Node("?", None, false));
             g.add_edge(call, extern_sym, ());
-        } else {
-            if callees.is_empty() {
-                error!("BUG? no callees for `{}`", name);
-            }
         }
 
         for callee in callees {
-- 
2.43.0


From d1b7c1b7fb42ef5276d9c40190949ced81505532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 17/54] fix: analyze the machine code of functions that are not
 in `.text`

Functions placed in other sections, like functions in `.data` that run from
RAM, made the tool panic.
---
 src/main.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2645041..48372b0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -28,7 +28,11 @@ use petgraph::{
     Direction, Graph,
 };
 use walkdir::WalkDir;
-use xmas_elf::{sections::SectionData, symbol_table::Entry, ElfFile};
+use xmas_elf::{
+    sections::{SectionData, ShType, SHF_ALLOC},
+    symbol_table::Entry,
+    ElfFile,
+};
 
 use crate::{
     ir::{FnSig, Item, Stmt, Type},
@@ -802,9 +806,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         tags.sort_by(|a, b| a.0.cmp(&b.0));
 
-        if let Some(sect) = elf.find_section_by_name(".text") {
-            let stext = sect.address() as u32;
-            let text = sect.raw_data(&elf);
+        if elf.find_section_by_name(".text").is_some() {
+            // NOTE not all functions are in the `.text` section, e.g. functions that run from RAM
+            let sections: Vec<_> = elf
+                .section_iter()
+                .filter(|sect| {
+                    sect.flags() & SHF_ALLOC != 0 && sect.get_type() == Ok(ShType::ProgBits)
+                })
+                .map(|sect| (sect.address() as u32, sect.raw_data(&elf)))
+                .collect();
 
             for (address, sym) in &symbols.defined {
                 let address = *address as u32;
@@ -825,10 +835,19 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     }
                 }
 
-                let start = (address - stext) as usize;
-                let end = start + size as usize;
+                let code = sections.iter().find_map(|(base, data)| {
+                    let start = address.checked_sub(*base)? as usize;
+                    data.get(start..start.checked_add(size as usize)?)
+                });
+                let code = if let Some(code) = code {
+                    code
+                } else {
+                    warn!("the machine code of `{}` was not found", canonical_name);
+                    continue;
+                };
+
                 let (bls, bs, indirect, modifies_sp, our_stack) = thumb::analyze(
-                    &text[start..end],
+                    code,
                     address,
                     target_ == Target::Thumbv7m,
                     &tags,
-- 
2.43.0


From 291954838b8b9c54e426066c1c7b21d9f80b0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/54] fix: ignore the `$d` tags of sections that contain no
 code

The values of the tags in debug info sections are not addresses and the tags in
e.g. `.rodata` say nothing about the machine code; the former made the tool skip
instructions of functions located at low addresses and both made it panic.
---
 src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 48372b0..bfdcad4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -29,7 +29,7 @@ use petgraph::{
 };
 use walkdir::WalkDir;
 use xmas_elf::{
-    sections::{SectionData, ShType, SHF_ALLOC},
+    sections::{SectionData, ShType, SHF_ALLOC, SHF_EXECINSTR},
     symbol_table::Entry,
     ElfFile,
 };
@@ -785,9 +785,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     if target_.is_thumb() {
         let elf = ElfFile::new(&elf).map_err(anyhow::Error::msg)?;
         let sect = elf.find_section_by_name(".symtab").expect("UNREACHABLE");
+        // NOTE the compiler also adds tags to sections that contain no code, e.g. debug info
+        let code_sections: HashSet<_> = elf
+            .section_iter()
+            .zip(0u16..)
+            .filter(|(sect, _)| sect.flags() & SHF_EXECINSTR != 0)
+            .map(|(_, index)| index)
+            .collect();
         let mut tags: Vec<_> = match sect.get_data(&elf).unwrap() {
             SectionData::SymbolTable32(entries) => entries
                 .iter()
+                .filter(|entry| code_sections.contains(&entry.shndx()))
                 .filter_map(|entry| {
                     let addr = entry.value() as u32;
                     entry.get_name(&elf).ok().and_then(|name| {
-- 
2.43.0


From 72ebd11aa8f5979ddddfd06a5e7925237976d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 19/54] fix: thumb: accept consecutive data tags

There can be more than one `$d` tag between two runs of instructions, e.g. when
the literal pool of a function is followed by a data object.
---
 src/thumb.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 9b9f78a..7d638ac 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,8 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
-
+                // NOTE there may be more data tags before the next thumb tag
+                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
-- 
2.43.0


From ac58ea19d4ffe1dd2d11d6263607e3bd808b86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 20/54] fix: report the stack usage of functions of unknown
 size as unknown

When the size of a function (symbol) could not be determined the tool analyzed
zero instructions and concluded that the function does not use the stack.
---
 src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bfdcad4..1b97df3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -827,6 +827,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             for (address, sym) in &symbols.defined {
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
+                let caller = indices[canonical_name];
                 let mut size = sym.size() as u32;
 
                 if size == 0 {
@@ -843,6 +844,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     }
                 }
 
+                if size == 0 && g[caller].local == Local::Unknown {
+                    // we don't know where this function ends so we can't tell how much stack space
+                    // it uses, or which functions it calls
+                    warn!("no size information for `{}`", canonical_name);
+                    continue;
+                }
+
                 let code = sections.iter().find_map(|(base, data)| {
                     let start = address.checked_sub(*base)? as usize;
                     data.get(start..start.checked_add(size as usize)?)
@@ -860,7 +868,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     target_ == Target::Thumbv7m,
                     &tags,
                 );
-                let caller = indices[canonical_name];
 
                 // sanity check
                 if let Some(stack) = our_stack {
-- 
2.43.0


From 416939b69694630f10c8f8335e9e0a0a40a13be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 21/54] fix: don't shorten a name when an unmangled symbol has
 that name

A function exported with a name that is the path of another function ended up
with the same label as that other function.
---
 src/main.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1b97df3..345eb83 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -508,9 +508,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
+        let dehashed = dehash(&demangled).unwrap_or(&demangled);
+        *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
-- 
2.43.0


From f16610855f07c651ce0dbe08f211101de22a90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 22/54] fix: don't drop calls to aliased or dynamically linked
 `memcmp`

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 345eb83..099afbc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -727,7 +727,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // if the intrinsic has no corresponding node (symbol in the output ELF) assume
                     // that it has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !aliases.contains_key(func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From 1607f91f087fa6cf6cf2ddba3df6303483327e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 23/54] fix: thumb: ignore STMDB instructions that do not
 change SP

---
 src/thumb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 7d638ac..a8064c3 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -390,10 +390,11 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
+                // NOTE without writeback (`stmdb sp, {r0}`) this doesn't change SP
                 // e.g. 'e92d 41f0       stmdb   sp!, {r4, r5, r6, r7, r8, lr}'
                 let rn = first[0] & 0b1111;
                 if rn == SP {
-- 
2.43.0


From 0df1f295fd8191672d8120e94734a5272ead0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 24/54] fix: give up the stack usage analysis on `sub.w sp, sp,
 rN`

---
 src/thumb.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index a8064c3..4a86fd1 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -449,6 +449,17 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && (matches(first, "0b11101_01_1101_x_1101")
+                    || matches(first, "0b11101_01_1000_x_1101"))
+                && matches(second, "0b0_xxx_1101_xxxxxxxx")
+            {
+                // A7.7.174      SUB (SP minus register) - T1
+                // A7.7.6        ADD (SP plus register) - T3
+                // e.g. 'ebad 0d04       sub.w   sp, sp, r4'
+                // we don't know by how much SP is changed
+                modifies_sp = true;
+                stack = None;
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From ceab5303a777c372689a2d3af8ce7f8d437f0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 25/54] fix: count `strd` with writeback in the stack usage
 analysis

---
 src/thumb.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 4a86fd1..e850df5 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -449,6 +449,18 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7 && matches(first, "0b11101_00_x_0_11_0_1101") {
+                // A7.7.163      STRD (immediate) - T1
+                // (writeback, post/pre-increment, subtract immediate)
+                // e.g. 'e96d 0102       strd    r0, r1, [sp, #-8]!'
+                modifies_sp = true;
+
+                let imm8 = second[0];
+                let imm32 = u32::from(imm8) << 2;
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm32);
+                }
             } else if v7
                 && (matches(first, "0b11101_01_1101_x_1101")
                     || matches(first, "0b11101_01_1000_x_1101"))
-- 
2.43.0


From 7301919b41c7ec2059cb8b08f68370a5871f1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 26/54] fix: treat TBB and TBH as branches in the stack usage
 analysis

---
 src/thumb.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index e850df5..84361f6 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -449,6 +449,13 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11101_00_0110_1_xxxx")
+                && matches(second, "0b1111_0000_000_x_xxxx")
+            {
+                // A7.7.185      TBB, TBH - T1
+                // these jump within the function; give up the stack usage analysis
+                stack = None;
             } else if v7 && matches(first, "0b11101_00_x_0_11_0_1101") {
                 // A7.7.163      STRD (immediate) - T1
                 // (writeback, post/pre-increment, subtract immediate)
-- 
2.43.0


From 821e97a7bb43806e0a3d662df2ffbb04413a063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 27/54] fix: expand constants of the form 0x00XY00XY

---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 84361f6..8c4d970 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -655,7 +655,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From f63a068157c5039b0bb474df58e7599614eab5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 28/54] fix: tell apart functions that have the same symbol
 name

---
 src/main.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 099afbc..ad24485 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -460,7 +460,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add all real nodes
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
-    let mut addr2name = BTreeMap::new();
+    // NOTE local symbols with the same name can appear more than once, e.g. `OUTLINED_FUNCTION_0`
+    let mut addr2index = BTreeMap::new();
     for (address, sym) in &symbols.defined {
         let names = sym.names();
         // filter out tags
@@ -495,9 +496,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             aliases.insert(name, canonical_name);
         }
 
-        let _out = addr2name.insert(address, canonical_name);
-        debug_assert!(_out.is_none());
-
         let stack = stack_sizes.get(canonical_name).cloned();
         if stack.is_none() {
             if !target_.is_thumb() {
@@ -514,6 +512,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
+        let _out = addr2index.insert(*address, idx);
+        debug_assert!(_out.is_none());
+
         if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
             match (&def.sig.inputs[..], def.sig.output.as_ref()) {
@@ -827,9 +828,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .collect();
 
             for (address, sym) in &symbols.defined {
+                let caller = addr2index[address];
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
-                let caller = indices[canonical_name];
                 let mut size = sym.size() as u32;
 
                 if size == 0 {
@@ -964,11 +965,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let name = addr2name
+                    let callee = *addr2index
                         .get(&addr)
                         .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                    let callee = indices[*name];
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
                         callees_seen.insert(callee);
@@ -982,11 +982,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         // intra-function B branches are not function calls
                     } else {
                         // address may be off by one due to the thumb bit being set
-                        let name = addr2name
+                        let callee = *addr2index
                             .get(&(addr as u64))
                             .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                        let callee = indices[*name];
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
                             callees_seen.insert(callee);
-- 
2.43.0


From 06d1c0466867b0b0d6bccf4ab95e3b6da35c3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 29/54] fix: don't name functions that have aliases after a
 random alias

---
 src/main.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ad24485..ce0a599 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -480,23 +480,19 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             })
             .collect::<Vec<_>>();
 
-        let canonical_name = if names.len() > 1 {
-            // if one of the aliases appears in the `stack_sizes` dictionary, use that
-            if let Some(needle) = names.iter().find(|name| stack_sizes.contains_key(&***name)) {
-                needle
-            } else {
-                // otherwise, pick the first name that's not a tag
-                names[0]
-            }
-        } else {
-            names[0]
-        };
+        // NOTE not the name that's in the `stack_sizes` dictionary: if the function has aliases that's
+        // an arbitrary one of them, different in each run
+        let canonical_name = names[0];
 
         for name in names.iter().copied() {
             aliases.insert(name, canonical_name);
         }
 
-        let stack = stack_sizes.get(canonical_name).cloned();
+        // any of the aliases may appear in the `stack_sizes` dictionary
+        let stack = names
+            .iter()
+            .find_map(|name| stack_sizes.get(*name))
+            .cloned();
         if stack.is_none() {
             if !target_.is_thumb() {
                 warn!("no stack usage information for `{}`", canonical_name);
-- 
2.43.0


From 1c1ba91aa52b3c4c5a990fa93c803dcdc5e288a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 30/54] fix: consider undefined functions when shortening names

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ce0a599..d8553b2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1114,6 +1114,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // the undefined functions that are called have a node too
+    for name in indices.keys() {
+        if !aliases.contains_key(&**name) {
+            let demangled = rustc_demangle::demangle(name).to_string();
+            let dehashed = dehash(&demangled).unwrap_or(&demangled);
+            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+        }
+    }
+
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-- 
2.43.0


From 19127b3d28109dac390a71d79e62b0f077a8ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 31/54] fix: ir parser: don't let strings extend over several
 lines

---
 src/ir.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ir.rs b/src/ir.rs
index 3c0b36d..f10f282 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -3,7 +3,7 @@ use core::fmt;
 use anyhow::anyhow;
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while1},
+    bytes::complete::{tag, take_while, take_while1},
     character::complete::{char, digit1, line_ending, not_line_ending, space1},
     combinator::{map, map_res, opt},
     error::ErrorKind,
@@ -297,7 +297,8 @@ struct String<'a>(&'a str);
 // well-formed LLVM-IR so this is good enough
 fn string(i: &str) -> IResult<&str, String> {
     let i = char('"')(i)?.0;
-    let (i, x) = take_until("\"")(i)?;
+    // NOTE line breaks are escaped
+    let (i, x) = take_while(|c: char| c != '"' && c != '\r' && c != '\n')(i)?;
     let i = char('"')(i)?.0;
     Ok((i, String(x)))
 }
-- 
2.43.0


From 77e678070097fbc4566dc35ba65e3dec9e3e4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 32/54] fix: use the right signature for calls of variadic
 functions through pointers

---
 src/ir/define.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 1648c1c..4d54b78 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -275,13 +275,16 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    let sig = match output {
+        // the callee is variadic so its type is spelled out: `call i32 (ptr, ...) %0(ptr %1, i32 2)`
+        Some(Type::Fn(sig)) => sig,
+
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From f1da3f5d40db35993c2d505f2b2f91b470b92b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 33/54] fix: don't panic on functions with inline assembly that
 branch and use the stack

LLVM doesn't know about the stack used by inline assembly so the sanity check does not
hold for these functions; when LLVM reports zero the stack usage is unknown.
---
 src/main.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d8553b2..692a5e1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -923,14 +923,27 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         }
                     }
 
-                    assert_eq!(
-                        *llvm_stack != 0,
-                        modifies_sp,
-                        "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \
-                         match our analysis",
-                        canonical_name,
-                        *llvm_stack
-                    );
+                    if fns_containing_asm.contains(&canonical_name) {
+                        if our_stack.is_none() && *llvm_stack == 0 && modifies_sp {
+                            // the inline asm uses stack space but we can't tell how much
+                            warn!(
+                                "LLVM reported that `{}` uses no stack but it modifies SP; \
+                                 ignoring LLVM's result (function uses inline assembly)",
+                                canonical_name
+                            );
+
+                            g[caller].local = Local::Unknown;
+                        }
+                    } else {
+                        assert_eq!(
+                            *llvm_stack != 0,
+                            modifies_sp,
+                            "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \
+                             match our analysis",
+                            canonical_name,
+                            *llvm_stack
+                        );
+                    }
                 } else if let Some(stack) = our_stack {
                     g[caller].local = Local::Exact(stack);
                 } else if !modifies_sp {
-- 
2.43.0


From 0fe456600f961a143413ea89d344de024e5f1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 34/54] fix: don't overflow when a branch crosses the middle of
 the address space

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 692a5e1..e8f9d0c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -985,7 +985,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 for offset in bs {
-                    let addr = (address as i32 + offset) as u32;
+                    let addr = (address as i32).wrapping_add(offset) as u32;
 
                     if addr >= address && addr < (address + size) {
                         // intra-function B branches are not function calls
-- 
2.43.0


From a793eb05b5906b2f51bf36428e4033118d852901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 35/54] fix: accept a start point when run as `cargo
 call-stack`

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e8f9d0c..bc10f59 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,7 +131,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     Builder::from_env(Env::default().default_filter_or("warn")).init();
 
-    let args = Args::parse();
+    // Cargo passes the name of the subcommand as the first argument
+    let args = Args::parse_from(
+        env::args_os()
+            .enumerate()
+            .filter(|(i, arg)| *i != 1 || arg != "call-stack")
+            .map(|(_, arg)| arg),
+    );
     let profile = Profile::Release;
 
     let file = match (&args.example, &args.bin) {
-- 
2.43.0


From f8ea1e81336566788474770562d812569c9ee360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 36/54] fix: don't fail when rustc is invoked without
 `--crate-name`

---
 src/wrapper.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 5d0b5f4..be0a3a5 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -39,13 +39,13 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
         }
     }
 
-    if args.crate_name == "compiler_builtins" {
+    if args.crate_name.as_deref() == Some("compiler_builtins") {
         rustc.arg("--emit=llvm-ir");
 
         let out_dir = args
             .out_dir
             .ok_or_else(|| anyhow!("missing `--out-dir` argument"))?;
-        let ll_path = format!("{}/{}{}.ll", out_dir, args.crate_name, args.extra_filename);
+        let ll_path = format!("{}/compiler_builtins{}.ll", out_dir, args.extra_filename);
         eprintln!("{}{}", COMPILER_BUILTINS_LL_PATH_MARKER, ll_path);
     }
 
@@ -59,7 +59,8 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
 
 struct RustcArgs {
     extra_filename: String,
-    crate_name: String,
+    /// `None` in queries like `rustc -vV`, which build scripts also send through the wrapper
+    crate_name: Option<String>,
     out_dir: Option<String>,
     extern_crates: Vec<Extern>,
 }
@@ -145,7 +146,7 @@ impl RustcArgs {
 
         Ok(Self {
             extra_filename: extra_filename.unwrap_or_default(),
-            crate_name: crate_name.ok_or_else(|| anyhow!("missing `--crate-name` argument"))?,
+            crate_name,
             out_dir,
             extern_crates,
         })
-- 
2.43.0


From 0b8fc227a1c55da0ff51cc410bbc540b9a962701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 37/54] fix: pass on build output that is not UTF-8

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bc10f59..df91d3d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -242,11 +242,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     }
 
     let mut child = cargo.spawn()?;
-    let stderr = BufReader::new(child.stderr.take().unwrap());
+    let mut stderr = BufReader::new(child.stderr.take().unwrap());
     let mut compiler_builtins_rlib_path = None;
     let mut compiler_builtins_ll_path = None;
-    for line in stderr.lines() {
-        let line = line?;
+    let mut buf = vec![];
+    while stderr.read_until(b'\n', &mut buf)? != 0 {
+        // NOTE the output of the build is not necessarily UTF-8
+        let line = str::from_utf8(&buf)
+            .unwrap_or_default()
+            .trim_end_matches(['\r', '\n']);
         if line.starts_with(wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER) {
             let path = &line[wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER.len()..];
             compiler_builtins_rlib_path = Some(path.to_string());
@@ -254,8 +258,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let path = &line[wrapper::COMPILER_BUILTINS_LL_PATH_MARKER.len()..];
             compiler_builtins_ll_path = Some(path.to_string());
         } else {
-            eprintln!("{}", line);
+            io::stderr().write_all(&buf)?;
         }
+        buf.clear();
     }
 
     let status = child.wait()?;
-- 
2.43.0


From 17d9ccd2d5208270c5d23daec043da229f4ffe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 38/54] fix: rebuild the requested program, not just any file
 of the package

---
 src/main.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index df91d3d..fb82bab 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -216,23 +216,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     cargo.env("RUSTC_WRAPPER", env::current_exe()?);
     cargo.stderr(Stdio::piped());
 
-    // "touch" some source file to trigger a rebuild
+    // "touch" the source files to trigger a rebuild of the requested program: the files left behind
+    // by the last build may belong to a different selection of features or to another profile
     let root = project.toml().parent().expect("UNREACHABLE");
     let now = FileTime::from_system_time(SystemTime::now());
-    if !filetime::set_file_times(root.join("src/main.rs"), now, now).is_ok() {
-        if !filetime::set_file_times(root.join("src/lib.rs"), now, now).is_ok() {
-            // look for some rust source file and "touch" it
-            let src = root.join("src");
-            let haystack = if src.exists() { &src } else { root };
-
-            for entry in WalkDir::new(haystack) {
-                let entry = entry?;
-                let path = entry.path();
-
-                if path.extension().map(|ext| ext == "rs").unwrap_or(false) {
-                    filetime::set_file_times(path, now, now)?;
-                    break;
-                }
+    // NOTE `src` and `examples` may be symbolic links
+    for dir in [root.to_path_buf(), root.join("src"), root.join("examples")] {
+        let sources = WalkDir::new(dir).into_iter().filter_entry(|entry| {
+            let name = entry.file_name().to_str().unwrap_or_default();
+            let skip = name.starts_with('.') || entry.path() == project.target_dir();
+            !skip || entry.depth() == 0
+        });
+        for path in sources.flatten().map(|entry| entry.into_path()) {
+            if path.extension().map(|ext| ext == "rs").unwrap_or(false) {
+                // best effort: other files may be out of our control
+                let _ = filetime::set_file_times(path, now, now);
             }
         }
     }
-- 
2.43.0


From e62ade6155fd2c091423c415f5bd7b0ad2a6bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 39/54] fix: honor the environment variable CARGO_BUILD_TARGET

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fb82bab..cc210d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -149,7 +149,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let host = meta.host;
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
-    let target_flag = args.target.as_deref();
+    // Cargo gives the environment variable precedence over the configuration file
+    let target_env = env::var("CARGO_BUILD_TARGET").ok();
+    let target_flag = args.target.as_deref().or(target_env.as_deref());
     let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
-- 
2.43.0


From c3824141ae7610561c5d0c332acff8ab2e78164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 40/54] fix: treat a BL to within the function as a far branch,
 not as a call

ARMv6-M code uses BL to branch farther than B can reach within a function. The tool
took these for calls, found no function at the address and panicked.
---
 src/thumb.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 8c4d970..d061777 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -598,7 +598,15 @@ pub fn analyze(
                 // accordingly
                 imm32 += 2 * i + 4;
 
-                bls.push(imm32);
+                if imm32 > 0 && (imm32 as usize) < bytes.len() {
+                    // not a call but a far `if` or `loop`: ARMv6-M has no other branch that can
+                    // reach this far within a function; give up the stack usage analysis
+                    stack = None;
+
+                    bs.push(imm32);
+                } else {
+                    bls.push(imm32);
+                }
             } else if matches(first, "0b11111_0000100_xxxx")
                 && matches(second, "0bxxxx_1x01_xxxxxxxx")
             {
-- 
2.43.0


From 78927cbc9d3509a46316cc8afc5a09d44b5c74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 41/54] fix: count the stack space that LLVM's function
 outliner uses to save LR

The outliner inserts `str lr, [sp, #-8]!` around calls in functions whose frame has
already been laid out. emit-stack-sizes does not know about these 8 bytes: the tool
panicked if the function uses no other stack and reported too little if it does but
has branches.
---
 src/main.rs  | 31 +++++++++++++++++++++++++++----
 src/thumb.rs | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cc210d1..662f1f6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -892,11 +892,28 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     );
                 }
 
+                // LLVM's function outliner runs after the stack frame has been laid out. To call an
+                // outlined function from a function that otherwise never saves LR it inserts code
+                // that keeps LR on the stack during that call (and only then), which
+                // emit-stack-sizes doesn't know about
+                let contains_asm = fns_containing_asm.contains(&canonical_name);
+                let outlined = is_outlined_function(canonical_name);
+                let lr_saves = thumb::lr_saves(code, address, &tags);
+                let call_saves_lr = lr_saves != 0
+                    && !outlined
+                    && !(contains_asm && our_stack.is_some())
+                    && matches!(g[caller].local, Local::Exact(_));
+                let our_stack = if call_saves_lr {
+                    our_stack.map(|stack| stack - lr_saves * thumb::LR_SAVE_SIZE)
+                } else {
+                    our_stack
+                };
+
                 // check the correctness of `modifies_sp` and `our_stack`
                 // also override LLVM's results when they appear to be wrong
                 if let Local::Exact(ref mut llvm_stack) = g[caller].local {
                     if let Some(stack) = our_stack {
-                        if *llvm_stack != stack && fns_containing_asm.contains(&canonical_name) {
+                        if *llvm_stack != stack && contains_asm {
                             // LLVM's stack usage analysis ignores inline asm, so its results can
                             // be wrong here
 
@@ -908,7 +925,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             );
 
                             *llvm_stack = stack;
-                        } else if is_outlined_function(canonical_name) {
+                        } else if outlined {
                             // ^ functions produced by LLVM's function outliner are not properly
                             // analyzed by LLVM's emit-stack-sizes pass and are all assigned a stack
                             // usage of 0 bytes, which is sometimes wrong
@@ -934,7 +951,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         }
                     }
 
-                    if fns_containing_asm.contains(&canonical_name) {
+                    if contains_asm {
                         if our_stack.is_none() && *llvm_stack == 0 && modifies_sp {
                             // the inline asm uses stack space but we can't tell how much
                             warn!(
@@ -945,7 +962,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                             g[caller].local = Local::Unknown;
                         }
-                    } else {
+                    } else if !call_saves_lr {
                         assert_eq!(
                             *llvm_stack != 0,
                             modifies_sp,
@@ -963,6 +980,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     g[caller].local = Local::Exact(0);
                 }
 
+                if call_saves_lr {
+                    if let Local::Exact(ref mut llvm_stack) = g[caller].local {
+                        *llvm_stack += thumb::LR_SAVE_SIZE;
+                    }
+                }
+
                 if g[caller].local == Local::Unknown {
                     warn!("no stack usage information for `{}`", canonical_name);
                 }
diff --git a/src/thumb.rs b/src/thumb.rs
index d061777..92eec36 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 /// Analyzes a subroutine and returns all the `BL` and `B` instructions in it, plus whether this
 /// function performs an indirect function call or not
 // NOTE we assume that `bytes` is always valid input so all errors are bugs
@@ -634,6 +636,43 @@ pub fn analyze(
     (bls, bs, indirect, modifies_sp, stack)
 }
 
+/// Number of bytes of stack space that LLVM's function outliner uses to save LR around a call
+pub const LR_SAVE_SIZE: u64 = 8;
+
+/// Counts how many times a subroutine saves LR around a call to a function that was produced by
+/// LLVM's function outliner, that is the instances of `str lr, [sp, #-8]!` in it
+pub fn lr_saves(bytes: &[u8], address: u32, tags: &[(u32, Tag)]) -> u64 {
+    let mut count = 0;
+    let mut i = 0;
+    while let Some(first) = bytes.get(i..i + 2) {
+        let start = address + i as u32;
+        if let Ok(needle) = tags.binary_search_by(|(addr, _)| addr.cmp(&start)) {
+            if tags[needle].1 == Tag::Data {
+                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {
+                    i += cmp::max(2, (tag.0 - start) as usize);
+                    continue;
+                } else {
+                    break;
+                }
+            }
+        }
+
+        if first[1] >> 3 < 0b11101 {
+            // 16-bit instruction
+            i += 2;
+        } else {
+            // f84d ed08       str     lr, [sp, #-8]!
+            if bytes.get(i..i + 4) == Some(&[0x4d, 0xf8, 0x08, 0xed]) {
+                count += 1;
+            }
+
+            i += 4;
+        }
+    }
+
+    count
+}
+
 fn matches(bytes: &[u8], pattern: &str) -> bool {
     assert!(pattern.starts_with("0b"));
 
-- 
2.43.0


From c97621964720bb1aaa51020fe210f27080aa3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 42/54] fix: ignore the mapping symbols of AArch64 and RISC-V
 in object files

`stack_sizes` takes `$x.0` for another name of the function that starts there and keeps one of
the names at random: functions got no stack usage, or that of a function of another object file
---
 src/main.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 662f1f6..b7f4a6a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -324,7 +324,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let obj = ll_path.with_extension("o");
     let ll = fs::read_to_string(&ll_path)
         .map_err(|e| anyhow!("couldn't read LLVM IR from `{}`: {}", ll_path.display(), e))?;
-    let obj = fs::read(&obj)
+    let mut obj = fs::read(&obj)
         .map_err(|e| anyhow!("couldn't read object file `{}`: {}", obj.display(), e))?;
 
     let compiler_builtins_ll = fs::read_to_string(&compiler_builtins_ll_path).map_err(|e| {
@@ -377,6 +377,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     // extract stack size information
     // the `.o` file doesn't have address information so we just keep the stack usage information
+    hide_mapping_symbols(&mut obj);
     let mut stack_sizes: HashMap<_, _> = stack_sizes::analyze_object(&obj)?
         .into_iter()
         .map(|(name, stack)| (name.to_owned(), stack))
@@ -398,6 +399,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         {
             buf.clear();
             entry.read_to_end(&mut buf)?;
+            hide_mapping_symbols(&mut buf);
             stack_sizes.extend(
                 stack_sizes::analyze_object(&buf)?
                     .into_iter()
@@ -1637,6 +1639,52 @@ impl Target {
 
 // LLVM's function outliner pass produces symbols of the form `OUTLINED_FUNCTION_NNN` where `NNN` is
 // a monotonically increasing number
+/// Changes the type of the mapping symbols (`$x.0`) of AArch64 and RISC-V object files, which
+/// `stack_sizes` would otherwise take for other names of the functions they appear in
+fn hide_mapping_symbols(obj: &mut [u8]) {
+    const STT_FILE: u8 = 4;
+
+    fn is_mapping_symbol<'a>(entry: &'a impl Entry, elf: &ElfFile<'a>) -> bool {
+        entry.get_type() == Ok(xmas_elf::symbol_table::Type::NoType)
+            && entry
+                .get_name(elf)
+                .map(|name| name == "$x" || name.starts_with("$x.") || name.starts_with("$xrv"))
+                .unwrap_or(false)
+    }
+
+    // offsets of the `st_info` fields
+    let mut infos = vec![];
+    if let Ok(elf) = ElfFile::new(obj) {
+        if let Some(section) = elf.find_section_by_name(".symtab") {
+            let start = section.offset() as usize;
+
+            match section.get_data(&elf) {
+                Ok(SectionData::SymbolTable32(entries)) => {
+                    for (i, entry) in entries.iter().enumerate() {
+                        if is_mapping_symbol(entry, &elf) {
+                            infos.push(start + i * 16 + 12);
+                        }
+                    }
+                }
+
+                Ok(SectionData::SymbolTable64(entries)) => {
+                    for (i, entry) in entries.iter().enumerate() {
+                        if is_mapping_symbol(entry, &elf) {
+                            infos.push(start + i * 24 + 4);
+                        }
+                    }
+                }
+
+                _ => {}
+            }
+        }
+    }
+
+    for info in infos {
+        obj[info] = (obj[info] & 0xf0) | STT_FILE;
+    }
+}
+
 fn is_outlined_function(name: &str) -> bool {
     if let Some(number) = name.strip_prefix("OUTLINED_FUNCTION_") {
         u64::from_str_radix(number, 10).is_ok()
-- 
2.43.0


From f08a95e6ea759359ab084001f37e4e1d94edb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 43/54] fix: keep the pointer in the canonical signature of
 `ArgumentV1.formatter`

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b7f4a6a..675ac52 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1126,7 +1126,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // canonicalize the signature
                     if one_true_void != "fmt::Void" {
-                        sig.inputs[0] = Type::Alias("fmt::Void");
+                        sig.inputs[0] = Type::Pointer(Box::new(Type::Alias("fmt::Void")));
                     }
 
                     &fmts
-- 
2.43.0


From 819d6ed90ab191bde7cf7fd82459599127c502e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 44/54] fix: functions that are only declared can be
 `ArgumentV1.formatter` too

---
 src/main.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 675ac52..49ec3ad 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -525,16 +525,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         debug_assert!(_out.is_none());
 
         if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
-            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-            match (&def.sig.inputs[..], def.sig.output.as_ref()) {
-                ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
-                    if **fmt == Type::Alias("core::fmt::Formatter")
-                        && **output == Type::Integer(1) =>
-                {
-                    fmts.insert(idx);
-                }
-
-                _ => {}
+            if is_fmt_method(&def.sig) {
+                fmts.insert(idx);
             }
 
             indirects
@@ -547,6 +539,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
             .next()
         {
+            if is_fmt_method(&sig) {
+                fmts.insert(idx);
+            }
+
             indirects.entry(sig).or_default().callees.insert(idx);
         } else if !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
@@ -1600,6 +1596,17 @@ struct Indirect {
     callees: HashSet<NodeIndex>,
 }
 
+// whether the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
+fn is_fmt_method(sig: &FnSig) -> bool {
+    match (&sig.inputs[..], sig.output.as_ref()) {
+        ([Type::Pointer(..), Type::Pointer(fmt)], Some(output)) => {
+            **fmt == Type::Alias("core::fmt::Formatter") && **output == Type::Integer(1)
+        }
+
+        _ => false,
+    }
+}
+
 // removes hashes like `::hfc5adc5d79855638`, if present
 fn dehash(demangled: &str) -> Option<&str> {
     const HASH_LENGTH: usize = 19;
-- 
2.43.0


From 601e94fc5ef64a171b8b93a5be9a22c217aba6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 45/54] fix: move a comment back to the function it describes

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 49ec3ad..63eb4fa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1644,8 +1644,6 @@ impl Target {
     }
 }
 
-// LLVM's function outliner pass produces symbols of the form `OUTLINED_FUNCTION_NNN` where `NNN` is
-// a monotonically increasing number
 /// Changes the type of the mapping symbols (`$x.0`) of AArch64 and RISC-V object files, which
 /// `stack_sizes` would otherwise take for other names of the functions they appear in
 fn hide_mapping_symbols(obj: &mut [u8]) {
@@ -1692,6 +1690,8 @@ fn hide_mapping_symbols(obj: &mut [u8]) {
     }
 }
 
+// LLVM's function outliner pass produces symbols of the form `OUTLINED_FUNCTION_NNN` where `NNN` is
+// a monotonically increasing number
 fn is_outlined_function(name: &str) -> bool {
     if let Some(number) = name.strip_prefix("OUTLINED_FUNCTION_") {
         u64::from_str_radix(number, 10).is_ok()
-- 
2.43.0


From fb13c7c784a52572e8a39cd0978afabc071f3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 46/54] fix: follow the linker's thunks to the functions that
 they lead to

A range-extension thunk (`__Thumbv7ABSLongThunk_foo`) has no LLVM IR and ends in a branch through
a register, so that it was given a call of an unknown function or, on ARMv6-M, no callee at all,
with an 'exact' maximum that leaves out everything that is called through it.
---
 src/main.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 63eb4fa..f97b453 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -544,9 +544,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             }
 
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        } else if !is_outlined_function(canonical_name) && thunk_target(canonical_name).is_none() {
             // ^ functions produced by LLVM's function outliner are never called through function
-            // pointers (as of LLVM 14.0.6)
+            // pointers (as of LLVM 14.0.6); neither are the linker's thunks
             has_untyped_symbols = true;
             warn!("no type information for `{}`", canonical_name);
         }
@@ -988,7 +988,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     warn!("no stack usage information for `{}`", canonical_name);
                 }
 
-                if !defined.contains(canonical_name) && indirect {
+                let callees_seen = edges.entry(caller).or_default();
+                let thunk_callee = thunk_target(canonical_name)
+                    .filter(|_| !defined.contains(canonical_name))
+                    .and_then(|target| aliases.get(target));
+                if let Some(canon) = thunk_callee {
+                    // this function only loads an address and jumps to it
+                    let callee = indices[*canon];
+                    if callees_seen.insert(callee) {
+                        g.add_edge(caller, callee, ());
+                    }
+                } else if !defined.contains(canonical_name) && indirect {
                     // this function performs an indirect function call and we have no type
                     // information to narrow down the list of callees so inject the uncertainty
                     // in the form of a call to an unknown function with unknown stack usage
@@ -1002,7 +1012,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     g.add_edge(caller, callee, ());
                 }
 
-                let callees_seen = edges.entry(caller).or_default();
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
@@ -1699,3 +1708,14 @@ fn is_outlined_function(name: &str) -> bool {
         false
     }
 }
+
+// LLD reaches functions that are too far away for a branch (e.g. functions that run from RAM) through
+// thunks that are named after the function they jump to, e.g. `__Thumbv7ABSLongThunk_foo`
+fn thunk_target(name: &str) -> Option<&str> {
+    let (kind, target) = name.strip_prefix("__Thumb")?.split_once("LongThunk_")?;
+    if kind.chars().all(|c| c.is_ascii_alphanumeric()) {
+        Some(target)
+    } else {
+        None
+    }
+}
-- 
2.43.0


From cc4c9a3c1e4d9166f18796eda124da7de7678a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 47/54] fix: one edge per call through a bitcast, to the
 function an alias refers to

A call of a function through a `bitcast` got an edge each time it was repeated,
and one to a new node of unknown usage if the function was referred to by an
alias.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f97b453..de9ca07 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -589,6 +589,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
+                    // use canonical name
+                    let sym = aliases.get(sym).copied().unwrap_or(sym);
                     let callee = if let Some(idx) = indices.get(sym) {
                         *idx
                     } else {
@@ -599,7 +601,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if callees_seen.insert(callee) {
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From e4e34839c36b06474b2e1f51eb7ff468881072f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 48/54] fix: accept undefined symbols with a version in the
 form `name@VERSION`

That is how binutils 2.35 and later spell them; the tool panicked with "BUG:
callee is unknown" when one was called.
---
 src/main.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index de9ca07..291f8d3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,6 +9,7 @@ use std::{
     env,
     fs::{self, File},
     io::{self, BufRead, BufReader, Read, Write},
+    iter,
     path::PathBuf,
     process::{self, Command, Stdio},
     time::SystemTime,
@@ -421,16 +422,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             .collect();
     }
 
-    // remove version strings from undefined symbols
+    // remove version strings from undefined symbols: `memcpy@@GLIBC_2.14`, or `memcpy@GLIBC_2.14` which
+    // is how newer linkers spell it
+    // NOTE a name without version may contain `@` too so keep the original names
     symbols.undefined = symbols
         .undefined
         .into_iter()
-        .map(|sym| {
-            if let Some(name) = sym.rsplit("@@").nth(1) {
-                name
-            } else {
-                sym
-            }
+        .flat_map(|sym| {
+            let unversioned = sym
+                .rsplit_once('@')
+                .map(|(name, _)| name.trim_end_matches('@'));
+            iter::once(sym).chain(unversioned)
         })
         .collect();
 
-- 
2.43.0


From 63f32f41a9558d854b740ebaaf1798ed9d821ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 49/54] fix: analyze the machine code of programs without a
 section named `.text`

A linker script can give any name to the sections. Calls and stack usage that
only the machine code tells about were missing from the graph.
---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 291f8d3..20c07ba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -828,7 +828,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         tags.sort_by(|a, b| a.0.cmp(&b.0));
 
-        if elf.find_section_by_name(".text").is_some() {
+        // NOTE a linker script can give any name to the sections
+        if !code_sections.is_empty() {
             // NOTE not all functions are in the `.text` section, e.g. functions that run from RAM
             let sections: Vec<_> = elf
                 .section_iter()
@@ -1050,7 +1051,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
             }
         } else {
-            error!(".text section not found")
+            error!("no section that contains code was found")
         }
     }
 
-- 
2.43.0


From 4c9c1f4ef93cc7243b31379c6b0700abfe654c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 50/54] fix: ir parser: accept functions that return pointers
 to `void` functions

`void ()* (i32)` was not accepted as a type, only `i32 ()* (i32)`, e.g. as the
type of a variadic function: `call void ()* (i32, ...) @f(i32 0)`.
---
 src/ir/ty.rs | 137 +++++++++++++++++++++++----------------------------
 1 file changed, 63 insertions(+), 74 deletions(-)

diff --git a/src/ir/ty.rs b/src/ir/ty.rs
index 69d6c6f..50f8afb 100644
--- a/src/ir/ty.rs
+++ b/src/ir/ty.rs
@@ -243,89 +243,78 @@ fn struct_(i: &str) -> IResult<&str, Type> {
     map(_struct, Type::Struct)(i)
 }
 
-pub fn type_(i: &str) -> IResult<&str, Type> {
-    let (i, void) = opt(tag("void"))(i)?;
-
-    if void.is_some() {
-        // this must be a function
-        let i = space1(i)?.0;
-        let (mut i, inputs) = fn_inputs(i)?;
-        let mut ty = Type::Fn(FnSig {
+// `void (i32)`
+fn void_function(i: &str) -> IResult<&str, Type> {
+    let i = tag("void")(i)?.0;
+    let i = space1(i)?.0;
+    let (i, inputs) = fn_inputs(i)?;
+    Ok((
+        i,
+        Type::Fn(FnSig {
             inputs,
             output: None,
-        });
-
-        // is this a function pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
-
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
-        }
+        }),
+    ))
+}
 
-        Ok((i, ty))
-    } else {
-        let (mut i, mut ty) = alt((
-            array,
-            packed_struct,
-            struct_,
-            alias,
-            double,
-            float,
-            opaque_pointer,
-            integer,
-            varargs,
-            mvt_vector,
-        ))(i)?;
-
-        // is this a pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
-
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
+pub fn type_(i: &str) -> IResult<&str, Type> {
+    let (mut i, mut ty) = alt((
+        array,
+        packed_struct,
+        struct_,
+        alias,
+        double,
+        float,
+        opaque_pointer,
+        integer,
+        varargs,
+        mvt_vector,
+        void_function,
+    ))(i)?;
+
+    // is this a pointer?
+    loop {
+        let (i_, star) = opt(char('*'))(i)?;
+
+        if star.is_none() {
+            break;
+        } else {
+            i = i_;
+            ty = Type::Pointer(Box::new(ty));
         }
+    }
 
-        // is this a function?
-        loop {
-            let (i_, inputs) = opt(|i| {
-                let i = space1(i)?.0;
-                fn_inputs(i)
-            })(i)?;
-
-            if let Some(inputs) = inputs {
-                i = i_;
-                ty = Type::Fn(FnSig {
-                    inputs,
-                    output: Some(Box::new(ty)),
-                });
-
-                // is this a function pointer?
-                loop {
-                    let (i_, star) = opt(char('*'))(i)?;
-
-                    if star.is_none() {
-                        break;
-                    } else {
-                        i = i_;
-                        ty = Type::Pointer(Box::new(ty));
-                    }
+    // is this a function?
+    loop {
+        let (i_, inputs) = opt(|i| {
+            let i = space1(i)?.0;
+            fn_inputs(i)
+        })(i)?;
+
+        if let Some(inputs) = inputs {
+            i = i_;
+            ty = Type::Fn(FnSig {
+                inputs,
+                output: Some(Box::new(ty)),
+            });
+
+            // is this a function pointer?
+            loop {
+                let (i_, star) = opt(char('*'))(i)?;
+
+                if star.is_none() {
+                    break;
+                } else {
+                    i = i_;
+                    ty = Type::Pointer(Box::new(ty));
                 }
-            } else {
-                break;
             }
+        } else {
+            break;
         }
-
-        Ok((i, ty))
     }
+
+    Ok((i, ty))
 }
 
 fn fn_inputs(i: &str) -> IResult<&str, Vec<Type>> {
-- 
2.43.0


From 4ca302b91d3456329f2072e6b7985f8814247fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:17 +0000
Subject: [PATCH 51/54] fix: thumb: `sub sp, #0` doesn't change SP

The sanity checks of the stack usage analysis panicked on functions that
contain it and use no stack.
---
 src/thumb.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 92eec36..a92c126 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -352,11 +352,11 @@ pub fn analyze(
         } else if matches(first, "0b1011_0000_1_xxxxxxx") {
             // A7.7.173      SUB (SP minus immediate) - T1
             // e.g. 'b081            sub     sp, #4'
-            modifies_sp = true;
-
             let imm7 = first[0] & 0b0111_1111;
             let imm32 = u32::from(imm7) << 2;
 
+            modifies_sp |= imm32 != 0;
+
             if let Some(stack) = stack.as_mut() {
                 *stack += u64::from(imm32);
             }
@@ -418,8 +418,6 @@ pub fn analyze(
                 // A7.7.173      SUB (SP minus immediate) - T2
                 let rd = second[1] & 0b1111;
                 if rd == SP {
-                    modifies_sp = true;
-
                     let imm8 = second[0];
                     let imm3 = (second[1] >> 4) & 0b0111;
                     let i = (first[1] >> 2) & 1;
@@ -427,6 +425,8 @@ pub fn analyze(
                         (u16::from(i) << 11) | (u16::from(imm3) << 8) | u16::from(imm8),
                     );
 
+                    modifies_sp |= imm32 != 0;
+
                     if let Some(stack) = stack.as_mut() {
                         *stack += u64::from(imm32);
                     }
@@ -439,14 +439,14 @@ pub fn analyze(
                 // e.g. 'f2ad 4d0c       subw    sp, sp, #1036   ; 0x40c'
                 let rd = second[1] & 0b1111;
                 if rd == SP {
-                    modifies_sp = true;
-
                     let imm8 = second[0];
                     let imm3 = (second[1] >> 4) & 0b0111;
                     let i = (first[1] >> 2) & 1;
                     let imm32 =
                         (u32::from(i) << 11) | (u32::from(imm3) << 8) | u32::from(imm8);
 
+                    modifies_sp |= imm32 != 0;
+
                     if let Some(stack) = stack.as_mut() {
                         *stack += u64::from(imm32);
                     }
-- 
2.43.0


From 7d6d15285dfabd12c75a6ef010ff1d512d8ccd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:58 +0000
Subject: [PATCH 52/54] fix: only `$d`, `$t` and what starts with `$d.`, `$t.`
 are mapping symbols

Labels and functions can have names that start with `$d` or `$t`: the code after a label `$done` was
taken for data and its branches were lost.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 20c07ba..464a9a1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -813,9 +813,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 .filter_map(|entry| {
                     let addr = entry.value() as u32;
                     entry.get_name(&elf).ok().and_then(|name| {
-                        if name.starts_with("$d") {
+                        if name == "$d" || name.starts_with("$d.") {
                             Some((addr, Tag::Data))
-                        } else if name.starts_with("$t") {
+                        } else if name == "$t" || name.starts_with("$t.") {
                             Some((addr, Tag::Thumb))
                         } else {
                             None
-- 
2.43.0


From 36db6ee2acd8d3dc443450f7b318cce75b8a2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:20 +0000
Subject: [PATCH 53/54] fix: functions of the application take precedence over
 those of compiler_builtins

compiler_builtins' functions are weak symbols. If the application has a function of the same name, e.g.
its own `memcpy`, the linker uses that one, but the LLVM-IR and the stack usage of compiler_builtins'
one were used. The tool panicked with "BUG: callee is unknown" if that one called a function that's not
in the program.
---
 src/main.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 464a9a1..9b0f4c6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -350,6 +350,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             e
         )
     })?;
+    // the functions in `compiler_builtins` are weak symbols: if the application has a function of the
+    // same name, e.g. its own `memcpy`, then that's the one the linker uses
+    let replaced = defined_global_symbols(&obj);
+    let compiler_builtins_items = compiler_builtins_items
+        .into_iter()
+        .filter(|item| match item {
+            Item::Define(def) => !replaced.contains(def.name),
+            _ => true,
+        });
     let mut defines = HashMap::new();
     let mut declares = HashMap::new();
     for item in items.into_iter().chain(compiler_builtins_items) {
@@ -404,6 +413,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             stack_sizes.extend(
                 stack_sizes::analyze_object(&buf)?
                     .into_iter()
+                    .filter(|(name, _)| !replaced.contains(*name))
                     .map(|(name, stack)| (name.to_owned(), stack)),
             );
         }
@@ -1706,6 +1716,35 @@ fn hide_mapping_symbols(obj: &mut [u8]) {
     }
 }
 
+// the names of the symbols that this object file provides to other object files
+fn defined_global_symbols(obj: &[u8]) -> HashSet<String> {
+    fn collect<'a>(entries: &'a [impl Entry], elf: &ElfFile<'a>) -> HashSet<String> {
+        entries
+            .iter()
+            .filter(|entry| {
+                entry.shndx() != 0
+                    && entry.get_binding().map_or(false, |binding| {
+                        binding != xmas_elf::symbol_table::Binding::Local
+                    })
+            })
+            .filter_map(|entry| entry.get_name(elf).ok().map(str::to_owned))
+            .collect()
+    }
+
+    // NOTE malformed files are reported when the stack usage information is extracted
+    if let Ok(elf) = ElfFile::new(obj) {
+        if let Some(section) = elf.find_section_by_name(".symtab") {
+            return match section.get_data(&elf) {
+                Ok(SectionData::SymbolTable32(entries)) => collect(entries, &elf),
+                Ok(SectionData::SymbolTable64(entries)) => collect(entries, &elf),
+                _ => HashSet::new(),
+            };
+        }
+    }
+
+    HashSet::new()
+}
+
 // LLVM's function outliner pass produces symbols of the form `OUTLINED_FUNCTION_NNN` where `NNN` is
 // a monotonically increasing number
 fn is_outlined_function(name: &str) -> bool {
-- 
2.43.0


From 530a730fa01f8ef6486766982473e9f9996bf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:48 +0000
Subject: [PATCH 54/54] fix: merged functions have the types of all their names

LLVM replaces a function that's identical to another one by an alias, also when their types differ
(pointers vs integers). The type of the alias was ignored so calls through pointers of that type didn't
reach the function; with typed pointers (`alias .., bitcast (..)`) the LLVM-IR was rejected. Likewise for
functions that the linker merged.
---
 src/ir/item.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/main.rs    | 34 +++++++++++++++++++++++++---------
 2 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/ir/item.rs b/src/ir/item.rs
index 5807ba5..f9d83b5 100644
--- a/src/ir/item.rs
+++ b/src/ir/item.rs
@@ -3,6 +3,8 @@ use nom::{
     bytes::complete::tag,
     character::complete::{char, not_line_ending, space0, space1},
     combinator::map,
+    error::ErrorKind,
+    error_position,
     multi::{many0, separated_list0},
     IResult,
 };
@@ -14,6 +16,10 @@ pub enum Item<'a> {
     // `@__pre_init = unnamed_addr alias void (), void ()* @DefaultPreInit`
     Alias(&'a str, &'a str),
 
+    // same as above, but with the type of the alias, which is not necessarily that of the function
+    // `@foo = unnamed_addr alias void (i32), ptr @bar`
+    FnAlias(Declare<'a>),
+
     // `; ModuleID = 'ipv4.e7riqz8u-cgu.0'`
     Comment,
 
@@ -99,6 +105,43 @@ fn alias(i: &str) -> IResult<&str, Item> {
     Ok((i, Item::Alias(name.0, alias.0)))
 }
 
+fn fn_alias(i: &str) -> IResult<&str, Item> {
+    let (i, name) = super::function(i)?;
+    let i = space1(i)?.0;
+    let i = char('=')(i)?.0;
+    let i = space1(i)?.0;
+    let i = many0(|i| {
+        let i = super::attribute(i)?.0;
+        space1(i)
+    })(i)?
+    .0;
+    let i = tag("alias")(i)?.0;
+    let i = space1(i)?.0;
+    let (i, ty) = super::type_(i)?;
+    let sig = match ty {
+        super::Type::Fn(sig) => sig,
+        _ => return Err(nom::Err::Error(error_position!(i, ErrorKind::Switch))),
+    };
+    let i = space0(i)?.0;
+    let i = char(',')(i)?.0;
+    let i = space1(i)?.0;
+    // NOTE function of a different type, when the pointers are typed
+    let i = if i.starts_with("bitcast") {
+        super::bitcast(i)?.0
+    } else {
+        let i = super::type_(i)?.0;
+        let i = space1(i)?.0;
+        super::function(i)?.0
+    };
+    Ok((
+        i,
+        Item::FnAlias(Declare {
+            name: name.0,
+            sig: Some(sig),
+        }),
+    ))
+}
+
 fn global(i: &str) -> IResult<&str, Item> {
     let i = super::global(i)?.0;
     let i = space1(i)?.0;
@@ -206,6 +249,7 @@ pub fn item(i: &str) -> IResult<&str, Item> {
         target,
         type_,
         global,
+        fn_alias,
         alias,
         map(super::define::parse, Item::Define),
         declare,
diff --git a/src/main.rs b/src/main.rs
index 9b0f4c6..ea2e2d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -357,10 +357,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         .into_iter()
         .filter(|item| match item {
             Item::Define(def) => !replaced.contains(def.name),
+            Item::FnAlias(alias) => !replaced.contains(alias.name),
             _ => true,
         });
     let mut defines = HashMap::new();
     let mut declares = HashMap::new();
+    let mut fn_aliases = HashMap::new();
     for item in items.into_iter().chain(compiler_builtins_items) {
         match item {
             Item::Define(def) => {
@@ -371,6 +373,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 declares.insert(decl.name, decl);
             }
 
+            Item::FnAlias(alias) => {
+                fn_aliases.insert(alias.name, alias);
+            }
+
             _ => {}
         }
     }
@@ -536,16 +542,26 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let _out = addr2index.insert(*address, idx);
         debug_assert!(_out.is_none());
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
-            if is_fmt_method(&def.sig) {
-                fmts.insert(idx);
-            }
+        // NOTE identical functions are merged even if their types are different (pointers and integers)
+        let sigs = names
+            .iter()
+            .filter_map(|name| {
+                let sig = defines.get(name).map(|def| &def.sig);
+                sig.or_else(|| fn_aliases.get(name).and_then(|alias| alias.sig.as_ref()))
+            })
+            .collect::<HashSet<_>>();
+        if !sigs.is_empty() {
+            for sig in sigs {
+                if is_fmt_method(sig) {
+                    fmts.insert(idx);
+                }
 
-            indirects
-                .entry(def.sig.clone())
-                .or_default()
-                .callees
-                .insert(idx);
+                indirects
+                    .entry(sig.clone())
+                    .or_default()
+                    .callees
+                    .insert(idx);
+            }
         } else if let Some(sig) = names
             .iter()
             .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-- 
2.43.0

