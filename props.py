"""What each check runs: engine, images, number of runs per tier, and the text of its evidence."""

ARM_REAL = "the complete library built from the working tree for the simulated target (every instruction of the routines, executed by the simulator's interpreter)"
ARM_STUB = ["CPU cores (own A32/T16/A64 interpreters)", "memory system and exclusive monitors", "scheduler", "callers of the routines"]
KUSER = "Linux kernel user helpers (__kuser_cmpxchg, __kuser_memory_barrier)"

INTERLEAVE_RULE = ("Each run draws threads, calls, operands and initial memory, a scheduling policy and fault rates from its seed. "
                   "Non-trivial: at least two calls overlapped and a thread was preempted inside a call. "
                   "Distinct: by the hash of the complete sequence of shared-memory accesses (thread, read/write, address) together with the routines called.")

X64_REAL = "the complete library and libm built from the working tree for x86-64, executed on the host CPU one step or one stretch at a time under the simulator's control"
X86_REAL = "the complete library and libm built from the working tree for each target, executed on the host CPU (32-bit code in compatibility mode) one step or one stretch at a time under the simulator's control"
X64_STUB = ["threads, interrupts and handlers (the simulator switches between complete register contexts)", "scheduler", "callers of the routines"]
X64_SC = "Between two accesses to writable static data a thread is not preempted in C01: everything else a thread touches is private to it. Static data is sequentially consistent (no store buffers)."

PROPS = {
    "C01": dict(
        technique='threads preempted around every access to writable static data, long call histories, result compared with the same call made alone',
        level_note='Sampled schedules of 1-4 threads and histories of up to 1.1 million calls over all routines of the default and the portable x86-64 build and of two 32-bit x86 builds.',
        explore=True, engine="nsim", images=["x64", "x64p"], level="exploration",
        also=[dict(name="x86", engine="nsim", images=["i586", "i686"], runs=dict(quick=500_000, thorough=6_000_000))],
        runs=dict(quick=1_500_000, thorough=20_000_000), mhz=1000,
        rule=("Each run draws a small pool of calls (routines and arguments, some differing in one bit), threads that repeat them, and switches around every access to writable static data; some runs are a single long history. "
              "Non-trivial: two calls overlapped and a thread was preempted inside a call, or one thread made a series of calls. "
              "Distinct: by the hash of the sequence of calls, switches and static-data accesses."),
        real=[X86_REAL], stub=X64_STUB,
        must_fire=["event: preemption between two accesses to static data", "runs with a long call history"],
        assumptions=[X64_SC, "The result of a call made alone on fresh static data is the reference; whether that value is the right one is another property."]),
    "C02": dict(
        technique='interrupts at random instructions, nested handlers that call the library, abandoned calls, stack below the red zone destroyed',
        level_note='Sampled interrupt points, up to three levels deep, over all routines of the default and the portable x86-64 build and of two 32-bit x86 builds.',
        explore=True, engine="nsim", images=["x64", "x64p"], level="exploration",
        also=[dict(name="x86", engine="nsim", images=["i586", "i686"], runs=dict(quick=250_000, thorough=4_000_000))],
        runs=dict(quick=600_000, thorough=10_000_000), mhz=1000,
        rule=("Each run draws calls, the instruction (or static-data access) at which each is interrupted, what the handlers call, and whether they return or abandon everything below them. "
              "Non-trivial: at least one interrupt fired inside a call. Distinct: by the hash of the calls and interrupt addresses."),
        real=[X86_REAL], stub=X64_STUB,
        must_fire=["fault: interrupt inside a call", "fault: interrupt nested in a handler", "fault: interrupted call abandoned"],
        assumptions=["A handler may overwrite everything more than 128 bytes below the interrupted stack pointer, as the ABI says."]),
    "C03": dict(
        technique='simulated CPUID/XGETBV of many processor models, first-call races and nested handlers, every executed instruction checked against the model',
        level_note='Sampled processor models (vendors, feature bits, OS-enabled state) and schedules; every instruction executed by dispatching routines of the x86-64 and the 32-bit build is decoded and checked.',
        explore=True, engine="nsim", images=["x64", "i686"], level="exploration",
        runs=dict(quick=90_000, thorough=600_000), mhz=1000,
        rule=("Each run draws a processor model, threads and handlers that call dispatching routines from a fresh process, and switches at any instruction. "
              "Non-trivial: two calls overlapped or a handler called the library. Distinct: by the hash of the processor model, calls and switch points."),
        real=[X86_REAL], stub=X64_STUB + ["CPUID and XGETBV answers", "FMA4 instructions (emulated)"],
        must_fire=["event: CPUID answered", "event: Fma instruction executed", "event: Fma4 instruction executed", "fault: feature present but vector state not enabled by the operating system", "fault: handler interrupts a call and makes calls"],
        assumptions=["Only consistent processor models are drawn (an x86-64 processor has SSE2 and extended leaf 0x80000001; XGETBV exists exactly if OSXSAVE is set).",
                     "fma results are compared with the host's fused multiply-add."]),
    "C04": dict(
        technique='calls with hostile entry state and interrupts that overwrite everything the ABI lets them, machine state compared on return',
        level_note='Sampled entry states, arguments and interrupt points over all routines of three x86-64 and two 32-bit x86 builds.',
        explore=True, engine="nsim", images=["x64", "x64e", "x64p"], level="exploration",
        also=[dict(name="x86", engine="nsim", images=["i586", "i686"], runs=dict(quick=500_000, thorough=6_000_000))],
        runs=dict(quick=1_500_000, thorough=20_000_000), mhz=1000,
        rule=("Each run draws a routine, arguments, scratch registers, flags, floating-point control settings and sticky exception flags on entry, and interrupts that overwrite the memory below the red zone. "
              "Non-trivial: entry junk was non-zero or an interrupt fired. Distinct: by the hash of routine, entry style and interrupt addresses."),
        real=[X86_REAL], stub=X64_STUB,
        must_fire=["fault: interrupt that overwrites the memory below the protected area", "fault: exception flags already raised on entry", "fault: caller uses a non-default floating-point control setting"],
        assumptions=["Results are compared only under the default floating-point control settings; exceptions stay masked."]),
    "C05": dict(
        technique='memory routines stepped instruction by instruction with pages faulted in and taken away, neighbouring bytes updated by other threads, interrupts',
        level_note='Sampled operands, fault points and neighbour updates on the default, ERMSB and no-SSE builds; string instructions are interrupted once per iteration.',
        engine="nsim", images=["x64", "x64e", "x64k"], level="exploration",
        runs=dict(quick=300_000, thorough=4_000_000), mhz=1000,
        rule=("Each run draws a routine, operands placed against page boundaries, which operand pages are absent or are taken away and when, which neighbouring bytes other threads update and when, and interrupts. "
              "Non-trivial: a page fault, a neighbour update or an interrupt happened during the call. Distinct: by the hash of operands and fault/update points."),
        real=[X64_REAL], stub=X64_STUB + ["page-fault handler and other threads' stores"],
        must_fire=["fault: page of an operand not present", "fault: page taken away during the call", "fault: neighbouring byte updated by another thread during the call"],
        assumptions=["Other threads write only bytes outside the operands; races on the operands themselves are undefined."]),
    "C07": dict(
        technique='probes stepped on a stack whose pages appear one at a time, guard pages anywhere in the frame, interrupts that destroy the stack below the stack pointer',
        level_note='Sampled frame sizes, stack positions, guard pages and interrupt points for every probe of the Linux and UEFI builds: x86-64, 32-bit x86 and AArch64.',
        engine="nsim", images=["x64", "i586", "x64u", "x86u"], level="exploration",
        also=[dict(name="aarch64", engine="asim", images=["aarch64u"], runs=dict(quick=400_000, thorough=6_000_000))],
        runs=dict(quick=800_000, thorough=10_000_000), mhz=1000,
        rule=("Each run draws a probe, frame size, stack position, register contents, a guard page inside the frame or none, and interrupts. "
              "Non-trivial: a page was touched for the first time, the guard page was hit or an interrupt fired. Distinct: by the hash of probe, frame, stack offset, guard page and interrupt points."),
        real=[X86_REAL, "the AArch64 UEFI probe from the working tree (executed by the simulator's A64 interpreter)"], stub=X64_STUB + ["page-fault handler"],
        must_fire=["fault: guard page inside the frame", "event: guard page hit", "fault: interrupt that overwrites the stack below the stack pointer"],
        assumptions=["UEFI code is linked as PE and executed at its linked address.", "A touch up to one page below the frame is accepted once every page of the frame has been touched."]),
    "C08": dict(
        technique='random schedules over an ARM machine with refusing kernel helpers, linearizability check over the history',
        level_note='Sampled schedules of 2-4 threads and up to 10 calls on little- and big-endian ARMv5 images; every instruction boundary is a possible switch. Not exhaustive.',
        engine="asim", images=["armv5te-le", "armv5te-be"], level="exploration",
        runs=dict(quick=1_500_000, thorough=20_000_000), mhz=400, rule=INTERLEAVE_RULE,
        real=[ARM_REAL], stub=ARM_STUB + [KUSER],
        must_fire=["fault: exclusive store / kernel exchange refused", "event: preemption inside a call"],
        assumptions=["The kernel helper is atomic and may refuse at any time, as the kernel documentation allows.",
                     "Memory is sequentially consistent in this check; weak ordering is C09's subject."]),
    "C09": dict(
        technique='litmus programs on a weakly ordered simulated memory',
        level_note='Nine litmus shapes with all routines, widths and outcomes on a view-based weak memory; load-store reordering is outside the model. Sampled, not exhaustive.',
        engine="asim", images=["armv5te-le", "armv5te-be", "thumbv6k"], level="exploration",
        runs=dict(quick=2_000_000, thorough=30_000_000), mhz=400,
        rule=("Each run draws one of nine litmus shapes, the routines, widths and operands in it, the schedule and which loads are served from older versions of memory. "
              "Non-trivial: an ordering claim was decided (its antecedent held) or a load was served from an older version. "
              "Distinct: by the hash of all accesses with their values in execution order."),
        real=[ARM_REAL], stub=ARM_STUB + [KUSER],
        must_fire=["fault: load served from an older version of memory", "event: ordering claim decided (antecedent true)"],
        assumptions=["The weak memory model orders stores of one location totally and lets loads see old versions; load-store reordering is not modelled.",
                     "Kernel helpers are full barriers on both sides."]),
    "C10": dict(
        technique='threads killed or stopped at random instructions, own-step bound for the survivors',
        level_note='Sampled stop points and schedules; progress bound 3000 own instructions.',
        engine="asim", images=["armv5te-le", "armv5te-be", "thumbv6k"], level="exploration",
        runs=dict(quick=1_500_000, thorough=20_000_000), mhz=400, rule=INTERLEAVE_RULE,
        real=[ARM_REAL], stub=ARM_STUB + [KUSER],
        must_fire=["fault: thread killed inside a call", "fault: all other threads stopped for ever"],
        assumptions=["A call counts as stuck if it needs more than 3000 of its own instructions after interference has stopped (the real routines need under 100)."]),
    "C11": dict(
        technique='random schedules, lost reservations and spurious store-exclusive failures, linearizability check',
        level_note='Sampled schedules of 2-4 threads and up to 10 calls on the ARMv6K Thumb image; calling convention and state switch checked on each return.',
        engine="asim", images=["thumbv6k"], level="exploration",
        runs=dict(quick=1_500_000, thorough=20_000_000), mhz=400, rule=INTERLEAVE_RULE,
        real=[ARM_REAL], stub=ARM_STUB,
        must_fire=["fault: exclusive store / kernel exchange refused", "fault: reservation cleared by context switch", "event: exclusive store failed after lost reservation"],
        assumptions=["Memory is sequentially consistent in this check; weak ordering is C09's subject."]),
    "C12": dict(
        technique='random schedules on cores with and without LSE, enabling mid-flight, split 128-bit loads, linearizability check',
        level_note='Sampled schedules of 2-4 threads and up to 10 calls over all widths; both implementation paths and the switch-over.',
        engine="asim", images=["aarch64"], level="exploration",
        runs=dict(quick=2_500_000, thorough=30_000_000), mhz=1000, rule=INTERLEAVE_RULE,
        real=[ARM_REAL], stub=ARM_STUB,
        must_fire=["fault: exclusive store / kernel exchange refused", "fault: LSE enabled while calls in flight", "event: 128-bit load with a write between its halves"],
        assumptions=["A 128-bit exclusive load is two 64-bit accesses unless the paired store succeeds, as the architecture says."]),
    "C13": dict(
        technique='litmus programs on a weakly ordered simulated memory, both implementation paths',
        level_note='Publication/observation litmus shapes for every acquire/release routine on a view-based weak memory; load-store reordering is outside the model.',
        engine="asim", images=["aarch64"], level="exploration",
        runs=dict(quick=3_000_000, thorough=40_000_000), mhz=1000,
        rule=("Each run draws one of the publication/observation litmus shapes, routines, widths and operands, the schedule and which loads are served from older versions of memory. "
              "Non-trivial: an ordering claim was decided (its antecedent held) or a load was served from an older version. "
              "Distinct: by the hash of all accesses with their values in execution order."),
        real=[ARM_REAL], stub=ARM_STUB,
        must_fire=["fault: load served from an older version of memory", "event: ordering claim decided (antecedent true)"],
        assumptions=["The weak memory model orders stores of one location totally and lets loads see old versions; load-store reordering is not modelled."]),
    "C14": dict(
        technique='call histories with changing x87 settings, sticky flags and interrupts whose handlers use the unit, unit state and results compared on every return',
        level_note='Sampled histories of up to 40 calls, control words, arguments and interrupt points on the 32-bit build without SSE2.',
        explore=True, engine="nsim", images=["i586"], level="exploration",
        runs=dict(quick=500_000, thorough=6_000_000), mhz=500,
        rule=("Each run draws up to four calls that a process repeats, the control word and raised flags before each, and the instructions at which handlers interrupt and use the unit. "
              "Non-trivial: at least two calls completed or an interrupt fired. Distinct: by the hash of calls, control words and interrupt addresses."),
        real=[X86_REAL], stub=X64_STUB,
        must_fire=["fault: interrupt whose handler uses the x87 unit", "fault: caller chooses another rounding or precision", "fault: exception flags already raised on entry"],
        assumptions=["Compiled (not assembly) functions are called with the default control word only; Rust gives no meaning to other settings there.",
                     "Only exceptions the call does not raise are unmasked."]),
    "C15": dict(
        technique='routines on up to three simulated cores, interrupted at random instructions or stack-pointer changes by handlers that call the library and overwrite the free stack',
        level_note='Sampled calls, schedules and interrupt points, up to three levels deep, over all routines of two ARMv5TE builds, the Thumb ARMv6K build and two AArch64 builds without floating-point registers.',
        engine="asim", images=["armv5te-le", "armv5te-be", "thumbv6k", "aarch64s", "aarch64s-be"], level="exploration",
        runs=dict(quick=1_200_000, thorough=15_000_000), mhz=200,
        rule=("Each run draws a small pool of calls, cores that make them, the schedule, and the instructions or stack-pointer changes at which interrupts arrive; handlers overwrite the stack below the stack pointer and usually call a routine. "
              "Non-trivial: an interrupt fired inside a call, or calls overlapped and a core was preempted inside one. Distinct: by the hash of the calls, interrupt addresses and preemption addresses."),
        real=[ARM_REAL], stub=ARM_STUB + [KUSER],
        must_fire=["fault: interrupt inside a call", "fault: interrupt nested in a handler", "fault: handler only overwrites the stack below the stack pointer", "event: preemption inside a call"],
        assumptions=["The result of the same call made alone on fresh static data is the reference; basic arithmetic and the ARM-only division and shift helpers are also compared with their documented results.",
                     "A routine may reuse the stack words that hold its own arguments."]),
    "C06": dict(
        technique='memory routines executed on simulated machines with and without misaligned accesses while another core updates the bytes next to the operands, every access checked',
        level_note='Sampled lengths, alignments, overlaps, contents and update points on 32-bit and 64-bit, little- and big-endian ARM builds of the portable routines and the ARM helpers, and on 32-bit and 64-bit x86 builds of the portable routines.',
        engine="asim", images=["armv5te-le", "armv5te-be", "thumbv6k", "aarch64s", "aarch64s-be"], level="exploration",
        also=[dict(name="x86", engine="nsim", images=["x64p", "i586"], runs=dict(quick=150_000, thorough=2_000_000))],
        runs=dict(quick=12_000_000, thorough=150_000_000), mhz=200,
        rule=("Each run draws a routine, operands (some across the middle of the address space), contents, the accesses after which another core stores to a byte next to an operand, and interrupts that overwrite the stack below the stack pointer. "
              "Non-trivial: a neighbouring byte was updated or an interrupt fired during the call. Distinct: by the hash of machine, routine, operands and update points."),
        real=[ARM_REAL, X86_REAL], stub=ARM_STUB,
        must_fire=["fault: neighbouring byte updated by another core during the call", "fault: interrupt that overwrites the stack below the stack pointer", "runs with overlapping operands"],
        assumptions=["Operands do not reach the last byte of the address space.", "The 64-bit images are AArch64 code built without the mem_unaligned configuration, as for 64-bit targets that lack misaligned accesses."]),
}

PROPS["C16"] = dict(
    technique='the real tool against simulated rustc, cargo and file system: helpers that fail, die, or print damaged output at any byte, libraries missing, cut or damaged anywhere, rules broken in any member',
    level_note='Sampled fault points (every helper ending, every byte of their output, every byte of the libraries) for thirteen targets (ELF, COFF, Mach-O).',
    engine="psim", images=[], level="exploration",
    runs=dict(quick=60_000, thorough=600_000), redo=1000,
    time_rule="events (helper processes run and libraries offered); no clock is involved",
    rule=("Each run draws a target, options, one to three libraries and up to two faults: how rustc and cargo end and how much they print before, damage to what they print, libraries missing, cut, damaged or breaking a rule in one member. "
          "Non-trivial: at least one fault because of which the tool must not report success. Distinct: by the hash of everything offered to the tool and its answer."),
    real=["the symcheck binary built from the working tree"],
    stub=["rustc and cargo (a program that prints the planned bytes and ends as planned)", "the libraries (written by the simulator)"],
    must_fire=["event: run without fault reported success"],
    assumptions=["The libraries have at least one defined symbol per member, as every object of the real library."])

CI_STUB = ["cargo, rustc, rustup, gh, docker, curl, patch, sudo and the like (a program that records its call, answers as planned and ends as planned)",
           "the hosting service (answers of gh)", "the checkout"]
EVENTS = "events (programs started by the tool); no clock is involved"
PROPS["C17"] = dict(
    technique='the real planning tool on simulated git histories and pull requests, with git and the hosting client failing, dying or printing a part at any call',
    level_note='Sampled histories (forks, merges, moves, reverts), pull-request texts and fault points; git itself is real.',
    engine="psim", images=[], level="exploration", tool="ci",
    runs=dict(quick=2_400, thorough=30_000), redo=120,
    time_rule=EVENTS,
    rule=("Each run draws a history with a fork and up to five commits on the branch, the sources of each routine, the text of the pull request, and up to two faults of git or gh. "
          "Non-trivial: a fault fired or a pull request was planned. Distinct: by the hash of history, text, calls, faults and answer."),
    real=["ci/ci-util.py of the working tree (generate-matrix, handle-bench-regressions)", "git, jq, python"], stub=CI_STUB,
    must_fire=["fault: git fails", "fault: git dies of a signal", "fault: gh fails", "fault: gh prints only a part", "event: plan emitted and judged"],
    assumptions=["git that exits with status 0 has printed its complete output.", "Paths are plain ASCII, as all paths of the repository."])
PROPS["C18"] = dict(
    technique='the real driver scripts with every build, test, container and download step failing or dying at any call',
    level_note='Sampled options, environments and failing steps of all scripts under ci/.',
    engine="psim", images=[], level="exploration", tool="ci",
    runs=dict(quick=4_000, thorough=60_000), redo=200,
    time_rule=EVENTS,
    rule=("Each run draws a script, its arguments and environment, and up to two calls that fail or die. "
          "Non-trivial: a step failed because of which the script must not succeed. Distinct: by the hash of script, environment, calls, faults and answer."),
    real=["the scripts of ci/ in the working tree, including ci/ci-util.py where they call it", "bash, python, tar"], stub=CI_STUB,
    must_fire=["fault: step cargo fails", "fault: step cargo dies of a signal", "fault: step docker fails", "event: run without fault succeeded"],
    assumptions=["cargo refuses an empty target name, and cargo-binstall an empty version."])
PROPS["C19"] = dict(
    technique='the real download tool against a simulated hosting service that fails, dies, answers nonsense or cuts a download at any byte',
    level_note='Sampled answers, artifacts and fault points; archives are real.',
    engine="psim", images=[], level="exploration", tool="ci",
    runs=dict(quick=3_000, thorough=40_000), redo=150,
    time_rule=EVENTS,
    rule=("Each run draws the runs and artifacts the service knows, what is already there, and a fault of the query or the download. "
          "Non-trivial: a fault happened. Distinct: by the hash of answers, artifacts, faults and the files left behind."),
    real=["ci/ci-util.py of the working tree (locate-baseline)", "tar, xz, jq, python"], stub=CI_STUB,
    must_fire=["fault: query fails", "fault: download dies of a signal", "fault: download delivers only a part", "event: baseline extracted"],
    assumptions=["tar works; only what is downloaded is damaged."])
PROPS["C27"] = dict(
    technique='the real list tool in histories of updates, checks, edits and crashes, with rustdoc failing, dying or printing a part and writes failing at any byte',
    level_note='Sampled crate versions (as rustdoc describes them), histories of up to four operations, damage to the lists and fault points.',
    engine="psim", images=[], level="exploration", tool="ci",
    runs=dict(quick=2_000, thorough=30_000), redo=100,
    time_rule=EVENTS,
    rule=("Each run draws one or two versions of the crate, a history of up to four updates and checks, what happens to the lists in between, and faults of rustdoc and of writing. "
          "Non-trivial: a fault happened or a check met lists that do not match. Distinct: by the hash of versions, operations, faults, answers and lists."),
    real=["etc/update-api-list.py of the working tree", "python"],
    stub=["rustdoc (a program that prints the description of the drawn version and ends as planned)", "the sources of the crate"],
    must_fire=["fault: rustdoc fails", "fault: rustdoc dies of a signal", "fault: rustdoc prints only a part", "fault: list cut", "event: check succeeded"],
    assumptions=["Every routine of the crate has a variant for double precision, as all of the repository."])
