import json
T = "deterministic simulation with fault injection"
C = {
 "C01": ("deployment of nodes exchanging generated messages", "Seeded search over schemas, values, builder histories, node crashes, network and storage behaviour; an independent reference model says what every accessor must return. Assumes the model is right; schemas and values are from the generator's subset."),
 "C02": ("lock-step execution on a used-and-reset, a new and a cloned builder", "Seeded search over builder histories (abandoned work, panics, refusals, growth) followed by one random program; oracle is byte equality with a new builder."),
 "C03": ("damaged messages read at several memory placements", "Seeded search over damage and placement; every accessor of generated code and of the runtime is called, with and without debug assertions, beside inaccessible pages. Some dozens of runs are executed by Miri, which stops at undefined behaviour; elsewhere it is seen only by its effects."),
 "C04": ("rolling upgrades of a simulated deployment", "Seeded search over version histories and upgrade, downgrade and crash schedules; an independent projection says what each version must see."),
 "C05": ("compile over faulty streams", "Seeded search over chunking and stream faults; the sink's content is compared with the reference code after every accepted write."),
 "C06": ("compile against a faulty formatter process", "Seeded search over formatter behaviour (absent, slow, failing, killed, not reading) with a stub process."),
 "C07": ("histories and interleavings of compiles under seeded hash seeds", "Seeded search over histories, schedules and hash seeds; oracle is equality with a compile in a new process. Threads switch at reads, writes, generator calls and seeded basic blocks of butte-build."),
 "C08": ("compile of damaged schema text", "Seeded search over text damage; panics, aborts and hangs are caught by process isolation; cuts and junk must be refused."),
 "C09": ("interleaved cursors over one vector", "Seeded search over interleavings of cursor operations on all element types against an interval model."),
 "C10": ("file compiles as processes under an interposed file system", "Seeded search over file system behaviour, crashes and restarts of the real command-line tool and the build-script entry point."),
 "C11": ("compiles with recording service generators", "Seeded search over schemas with services, interleavings and faults; calls and emitted items are compared with the declared services."),
 "C12": ("builder histories decoded by an independent decoder", "Seeded search over builder histories; an independent decoder written from the format checks every finished buffer. Assumes the decoder is right."),
 "C14": ("a deployment of hosts of different byte order and word size", "Seeded search over histories and damaged messages executed in lock step on this host and on interpreted hosts (Miri, targets s390x, powerpc, i686); bytes and observations must agree. Assumes Miri implements the targets rightly; small values only."),
 "C15": ("builder histories around the 2 GiB limit", "Seeded search over few (about 160) but large histories; sparse reference of where each value lies. Needs some 9 GiB per worker of address space."),
 "C17": ("threads building and reading generated messages under a block-level scheduler", "Seeded search over interleavings: the runtime and the generated code are compiled with a callback at every basic block, where the scheduler switches threads or kills one; oracle is the single-threaded run. Interleavings inside a basic block and weak memory effects are not explored."),
}
NA = {
 "C13": "A pure function from text to syntax tree: no schedule, clock, I/O or fault for it to depend on, and deciding 'exactly the grammar' needs a second parser and a differential search, which is another technique. The part that faults can reach (cut or damaged files) is C08.",
 "C16": "A property of names in one pure translation, with no schedule or fault; C01 and C04 compile the code for every generated schema, with keyword and mixed-case names, which is as far as simulation reaches.",
}
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [
  {"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}", "evidence_file": f"evidence/{k}.json",
   "technique": f"{T}: {a}", "level": "exploration", "level_note": b}
  for k, (a, b) in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: the seams used are io::Read/io::Write, RpcGenerator, PATH, libc symbols (getrandom, pipe2, open, read, write) and process boundaries, and, for C07, C11 and C17, the compiler's own block instrumentation switched on by sim/rustc-blocks, a RUSTC_WRAPPER, so that threads can be switched at every basic block of butte and butte-build. A third of the runs of C01-C12 and C15 use a build without debug assertions and overflow checks. Findings: known_findings.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
