From 50dd8d31444fc703d6b76ef3e38225785973f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:47 +0000
Subject: [PATCH 01/10] fix: order later accesses after the load of a failed
 compare-and-swap on ARM Linux

A __sync_val_compare_and_swap_N whose comparison failed returned the value of
a relaxed load without any barrier. Accesses after the call could then be
performed before that load, so a thread that saw a published value could miss
the data written before it. Issue the kernel memory barrier on that path.
---
 compiler-builtins/src/sync/arm_linux.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler-builtins/src/sync/arm_linux.rs b/compiler-builtins/src/sync/arm_linux.rs
index 7edd76c..bce3a1d 100644
--- a/compiler-builtins/src/sync/arm_linux.rs
+++ b/compiler-builtins/src/sync/arm_linux.rs
@@ -130,6 +130,9 @@ unsafe fn atomic_cmpxchg<T>(ptr: *mut T, oldval: u32, newval: u32) -> u32 {
         let curval_aligned = unsafe { atomic_load_aligned::<T>(aligned_ptr) };
         let curval = extract_aligned(curval_aligned, shift, mask);
         if curval != oldval {
+            // The exchange was not attempted, so nothing has ordered the load yet.
+            // SAFETY: no preconditions
+            unsafe { __kuser_memory_barrier() };
             return curval;
         }
         let newval_aligned = insert_aligned(curval_aligned, newval, shift, mask);
-- 
2.43.0


From 3a4890a6fbd35aafbc62700b1d39aa24ac773afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:47 +0000
Subject: [PATCH 02/10] fix: never return a torn value from a failed 16-byte
 CAS on AArch64

Without LSE the 16-byte compare-and-swap loads the pair with LDXP. That load is
only single-copy atomic if a following STXP succeeds, so a failing comparison
could return one half of an old and one half of a new value. Store the loaded
pair back on the failing path and retry if that store fails.
---
 compiler-builtins/src/aarch64_outline_atomics.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler-builtins/src/aarch64_outline_atomics.rs b/compiler-builtins/src/aarch64_outline_atomics.rs
index 367768e..6eee86b 100644
--- a/compiler-builtins/src/aarch64_outline_atomics.rs
+++ b/compiler-builtins/src/aarch64_outline_atomics.rs
@@ -294,7 +294,12 @@ macro_rules! compare_and_swap_u128 {
                     // STXP   w(tmp2), x2, x3, [x4]
                     concat!(stxp!($ordering), " w15, x2, x3, [x4]"),
                     "cbnz   w15, 0b",
+                    "ret",
                     "1:",
+                    // LDXP only reads both halves at once if a STXP succeeds after it, so write the
+                    // value back before returning it.
+                    "stxp   w15, x0, x1, [x4]",
+                    "cbnz   w15, 0b",
                     "ret",
                     have_lse = sym crate::aarch64_outline_atomics::HAVE_LSE_ATOMICS,
                 }
-- 
2.43.0


From 1b5c42bb47cf16c9de101abc5ee5e23f280efec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:24 +0000
Subject: [PATCH 03/10] fix: use FMA4 only when the OS saves the AVX state

FMA4 instructions raise an invalid-opcode exception unless the operating
system has enabled XSAVE and the AVX state, in the same way as FMA.  The
detection looked only at the vendor and the CPUID bit, so fma and fmaf
crashed on AMD CPUs with FMA4 under a system that leaves AVX disabled.
---
 libm/src/math/arch/x86/detect.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..3dd3a68 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -118,6 +118,7 @@ fn load_x86_features() -> Flags {
     enable(extended_features_eax_leaf_1, 31, cpu_flags::MOVRS);
 
     // `XSAVE` and `AVX` support:
+    let mut os_avx = false;
     let cpu_xsave = proc_info_ecx.test_nth(26);
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
@@ -154,6 +155,8 @@ fn load_x86_features() -> Flags {
             // Only if the OS and the CPU support saving/restoring the AVX
             // registers we enable `xsave` support:
             if os_avx_support {
+                os_avx = true;
+
                 // See "13.3 ENABLING THE XSAVE FEATURE SET AND XSAVE-ENABLED
                 // FEATURES" in the "Intel® 64 and IA-32 Architectures Software
                 // Developer’s Manual, Volume 1: Basic Architecture":
@@ -188,8 +191,8 @@ fn load_x86_features() -> Flags {
     // (AMD64 Architecture Programmer's Manual, Appendix E).
     // Related Hygon kernel patch can be found on
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
-    if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
-        // These features are available on AMD arch CPUs:
+    if os_avx && (vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine") {
+        // These features are available on AMD arch CPUs (FMA4 uses 256-bit wide registers):
         enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
     }
 
-- 
2.43.0


From 727b0e62c129c83b1944741032f2cd78a1b7aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:20 +0000
Subject: [PATCH 04/10] fix: keep saved values above the stack pointer in
 _alloca on x86

For frames smaller than 8 bytes, _alloca moved the stack pointer above the
saved ecx (and, for an empty frame, the return address) before reading
them.  An interrupt that uses the same stack in between, as on UEFI,
destroyed them.
---
 compiler-builtins/src/x86.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compiler-builtins/src/x86.rs b/compiler-builtins/src/x86.rs
index 45f4ba2..bf93f11 100644
--- a/compiler-builtins/src/x86.rs
+++ b/compiler-builtins/src/x86.rs
@@ -31,11 +31,16 @@ intrinsics! {
             "3:",
             "sub    ecx, eax",
             "test   [ecx], ecx",
-            "lea    eax, [esp + 4]", // load pointer to the return address into eax
-            "mov    esp, ecx",       // install the new top of stack pointer into esp
-            "mov    ecx, [eax - 4]", // restore ecx
-            "push   [eax]",          // push return address onto the stack
+            // The saved ecx and the return address are moved below the new frame. They may be
+            // within 8 bytes of where they were, so esp must never be above either of them.
+            "mov    eax, esp",       // load pointer to the saved ecx into eax
+            "lea    esp, [ecx - 8]", // make room for both below the new top of stack
+            "mov    ecx, [eax]",     // move the saved ecx
+            "mov    [esp], ecx",
+            "mov    ecx, [eax + 4]", // move the return address
+            "mov    [esp + 4], ecx",
             "sub    eax, esp",       // restore the original value in eax
+            "pop    ecx",
             "ret",
         );
     }
-- 
2.43.0


From eca98955a6259930dd161473713006dcd72d9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:56 +0000
Subject: [PATCH 05/10] fix: keep the return address above the stack pointer in
 the x86 UEFI stack probe

__rust_probestack copied the return address below the new frame, then
moved the stack pointer back up to restore registers.  An interrupt on the
same stack in that window destroyed the return address, and for frames
smaller than 16 bytes the copy overwrote the saved registers.  _alloca has
the same contract and no such window, so jump to it.
---
 compiler-builtins/src/probestack.rs | 38 ++---------------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/compiler-builtins/src/probestack.rs b/compiler-builtins/src/probestack.rs
index c4a2eeb..10d7d82 100644
--- a/compiler-builtins/src/probestack.rs
+++ b/compiler-builtins/src/probestack.rs
@@ -181,41 +181,7 @@ pub unsafe extern "custom" fn __rust_probestack() {
 #[rustc_std_internal_symbol]
 pub unsafe extern "custom" fn __rust_probestack() {
     core::arch::naked_asm!(
-        "
-            .cfi_startproc
-            push   ebp
-            .cfi_adjust_cfa_offset 4
-            .cfi_offset ebp, -8
-            mov    ebp, esp
-            .cfi_def_cfa_register ebp
-            push   ecx
-            push   edx
-            mov    ecx, eax
-
-            cmp    ecx, 0x1000
-            jna    3f
-        2:
-            sub    esp, 0x1000
-            test   dword ptr [esp + 8], esp
-            sub    ecx, 0x1000
-            cmp    ecx, 0x1000
-            ja     2b
-
-        3:
-            sub    esp, ecx
-            test   dword ptr [esp + 8], esp
-            mov    edx, dword ptr [ebp + 4]
-            mov    dword ptr [esp + 12], edx
-            add    esp, eax
-            pop    edx
-            pop    ecx
-            leave
-
-            sub   esp, eax
-            .cfi_def_cfa_register esp
-            .cfi_adjust_cfa_offset -4
-            ret
-            .cfi_endproc
-        ",
+        "jmp {}", // The contract is that of _alloca
+        sym crate::x86::_alloca::_alloca,
     )
 }
-- 
2.43.0


From 48eaacf00c22f05677f308dfe16b755e34530921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:01 +0000
Subject: [PATCH 06/10] fix: fail symcheck when rustc fails or prints
 incomplete target info

The exit status of `rustc --print=cfg` was ignored, and a missing
`target_endian`, `target_os` or `target_pointer_width` was silently
replaced by a default. Libraries could then be accepted for the wrong
target.
---
 crates/symcheck/src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/symcheck/src/main.rs b/crates/symcheck/src/main.rs
index a88aeed..c19e2ac 100644
--- a/crates/symcheck/src/main.rs
+++ b/crates/symcheck/src/main.rs
@@ -151,6 +151,7 @@ impl Target {
             .stdout(Stdio::piped());
         println!("running: {cmd:?}");
         let out = cmd.output().expect("failed to launch rustc");
+        assert!(out.status.success(), "rustc failed: {}", out.status);
 
         let check_empty = |s: &str| {
             if s.is_empty() {
@@ -172,6 +173,12 @@ impl Target {
             families: Vec::new(),
             vendors: Vec::new(),
         };
+        let mut missing = BTreeSet::from([
+            "target_arch",
+            "target_endian",
+            "target_os",
+            "target_pointer_width",
+        ]);
 
         for line in out.stdout.lines() {
             let line = line.expect("failed to read line");
@@ -179,6 +186,7 @@ impl Target {
                 continue;
             };
             let v = v.trim_matches('"');
+            missing.remove(k);
 
             match k {
                 "target_os" => {
@@ -290,6 +298,7 @@ impl Target {
             }
         }
 
+        assert!(missing.is_empty(), "rustc did not report {missing:?}");
         assert_ne!(t.arch, Architecture::Unknown, "arch not found");
         t
     }
-- 
2.43.0


From bb7b33c0a0ae24491bbc0c1912ca234fad1792df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:01 +0000
Subject: [PATCH 07/10] fix: fail symcheck when Cargo's message stream ends
 early

A stream that ends before the `build-finished` message may lack some of
the libraries, which were then left unchecked.
---
 crates/symcheck/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/symcheck/src/main.rs b/crates/symcheck/src/main.rs
index c19e2ac..0530da6 100644
--- a/crates/symcheck/src/main.rs
+++ b/crates/symcheck/src/main.rs
@@ -382,6 +382,7 @@ fn exec_cargo_with_args(target: &str, args: &[&str]) -> Vec<PathBuf> {
     let stdout = child.stdout.take().unwrap();
     let reader = BufReader::new(stdout);
     let mut check_files = Vec::new();
+    let mut finished = false;
 
     for line in reader.lines() {
         let line = line.expect("failed to read line");
@@ -393,6 +394,7 @@ fn exec_cargo_with_args(target: &str, args: &[&str]) -> Vec<PathBuf> {
             println!("{}", j["message"]["rendered"].as_str().unwrap());
         } else if reason == "build-finished" {
             println!("build finshed. success: {}", j["success"]);
+            finished = j["success"] == true;
         } else if reason == "build-script-executed" {
             let pretty = serde_json::to_string_pretty(&j).unwrap();
             println!("build script output: {pretty}",);
@@ -420,6 +422,7 @@ fn exec_cargo_with_args(target: &str, args: &[&str]) -> Vec<PathBuf> {
     }
 
     assert!(child.wait().expect("failed to wait on Cargo").success());
+    assert!(finished, "Cargo did not report a successful build");
 
     assert!(!check_files.is_empty(), "no compiler_builtins rlibs found");
     println!("Collected the following rlibs to check: {check_files:#?}");
-- 
2.43.0


From 6a34fd6189fde8a19c493c76dd746bf96869b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:01 +0000
Subject: [PATCH 08/10] fix: fail symcheck on archives that are cut off between
 members

Such a file still parses as an archive, so the missing members were not
checked and not noticed.
---
 crates/symcheck/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/symcheck/src/main.rs b/crates/symcheck/src/main.rs
index 0530da6..f7b59db 100644
--- a/crates/symcheck/src/main.rs
+++ b/crates/symcheck/src/main.rs
@@ -943,6 +943,16 @@ impl BinFile {
         // Try as an archive first.
         let as_archive = self.as_archive_file();
         if let Ok(archive) = as_archive {
+            // A file that ends early, between two members, still parses as an archive but lacks
+            // members that its symbol index refers to.
+            let index = archive.symbols().expect("failed to read symbol index");
+            for sym in index.into_iter().flatten() {
+                let sym = sym.expect("failed to read symbol index");
+                archive
+                    .member(sym.offset())
+                    .expect("symbol index refers to a missing member");
+            }
+
             for member in archive.members() {
                 let member = member.expect("failed to access member");
                 let obj_data = member
-- 
2.43.0


From 595a0f238a585a8afaad625eda61af810cae9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:21 +0000
Subject: [PATCH 09/10] fix: list moved files under both names when planning CI

`git diff --name-only` shows only the new name of a file that was moved. A
source moved out of libm was not seen as a change of libm, so its jobs could be
skipped and its routines were not tested.
---
 ci/ci-util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ci/ci-util.py b/ci/ci-util.py
index 97f563d..60ccc5f 100755
--- a/ci/ci-util.py
+++ b/ci/ci-util.py
@@ -236,8 +236,10 @@ class Context:
         ).strip()
         eprint(f"merge base: {merge_base}")
 
+        # A moved file must be listed under its old name as well
         textlist = sp.check_output(
-            GIT + ["diff", merge_base, incoming, "--name-only"], text=True
+            GIT + ["diff", merge_base, incoming, "--name-only", "--no-renames"],
+            text=True,
         )
         self.changed = [Path(p) for p in textlist.splitlines()]
         eprint("all changed: [")
-- 
2.43.0


From 20fdc7a14748bc3db2773a18777deb2a18575f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:21 +0000
Subject: [PATCH 10/10] fix: do not fail when the baseline could not be
 downloaded

`locate-baseline` promises not to fail if downloading fails. It did if `gh`
could not be started, answered something other than a JSON object, or was cut
off in the middle of an archive.
---
 ci/ci-util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ci/ci-util.py b/ci/ci-util.py
index 60ccc5f..c8cf15a 100755
--- a/ci/ci-util.py
+++ b/ci/ci-util.py
@@ -431,7 +431,7 @@ def locate_baseline(flags: list[str]) -> None:
             ],
             text=True,
         )
-    except sp.CalledProcessError as e:
+    except (sp.CalledProcessError, OSError, UnicodeDecodeError) as e:
         eprint(f"failed to run github command: {e}")
         return
 
@@ -446,7 +446,7 @@ def locate_baseline(flags: list[str]) -> None:
         eprint("--download not specified, returning")
         return
 
-    job_id = latest.get("databaseId")
+    job_id = latest.get("databaseId") if isinstance(latest, dict) else None
     if job_id is None:
         eprint("skipping download step")
         return
@@ -474,7 +474,13 @@ def locate_baseline(flags: list[str]) -> None:
     baseline_archive = candidate_baselines[0]
     eprint(f"extracting {baseline_archive}")
 
-    all_paths = sp.check_output(["tar", "tJf", baseline_archive], encoding="utf8")
+    try:
+        all_paths = sp.check_output(["tar", "tJf", baseline_archive], encoding="utf8")
+    except sp.CalledProcessError as e:
+        # The download may have been cut off
+        eprint(f"failed to read the baseline: {e}")
+        return
+
     sp.run(["tar", "xJf", baseline_archive], check=True)
 
     # Print a short summary of paths, we don't use `tar v` since the list is huge
-- 
2.43.0

