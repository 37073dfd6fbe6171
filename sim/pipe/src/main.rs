mod c05;
mod c06;
mod c07;
mod c08;
mod c10;
mod c11;
mod io;
mod stub;
mod sys;
mod util;

use simkit::driver::{self, Prop};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[0].rsplit('/').next() == Some("rustfmt") {
        stub::main();
    }
    if args.get(1).map(|s| s.as_str()) == Some("compile") {
        c07::fresh_main(&args[2..]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("entry") {
        c10::entry_main(&args[2..]);
    }
    driver::main(&[
        Prop {
            id: "C05",
            run: c05::run,
            quick: 60_000,
            thorough: 5_000_000,
            batch: 1000,
            rule: "a run compiles 1-2 schemas (valid, undecodable or no schema; up to 140 KB) from a source and into a sink whose every call is decided by the seed; the sink's content is compared with the code after every accepted write; every run is non-trivial",
            measure: "hash over the schema text, the chunking mode, the injected faults and the bytes accepted",
            time_unit: "calls on the simulated streams",
            real: &["butte_build::compile_fbs_generic and all of the compiler below it"],
            stub: &["input stream", "output stream"],
            assumptions: &["the code of a compile over faultless memory streams is the complete code; that it names every declared type is checked"],
        },
        Prop {
            id: "C06",
            run: c06::run,
            quick: 12_000,
            thorough: 1_000_000,
            batch: 150,
            rule: "a run performs 1-3 formatted compiles against a stub formatter process that is absent, slow, fails, is killed or stops reading as the seed decides; every run is non-trivial",
            measure: "hash over the schema text, the formatter's behaviour and the injected faults",
            time_unit: "calls on the simulated sink",
            real: &["butte_build::compile_fbs_generic", "std::process"],
            stub: &["rustfmt", "output stream", "pipe2"],
            assumptions: &["a formatter that leaves input unread and still exits with 0 is only visible when more is left than a pipe holds", "the formatter does not write more than a pipe holds before it has read everything"],
        },
        Prop {
            id: "C07",
            run: c07::run,
            quick: 10_000,
            thorough: 1_500_000,
            batch: 200,
            rule: "a run compiles 1-8 related schemas in new processes and then again in one process in seeded histories and interleavings with failing and dying compiles, under seeded hash seeds, wall clocks, environments and directories; non-trivial: a fault or an interleaving happened",
            measure: "hash over the schema texts, the faults, the histories and the schedules",
            time_unit: "steps of the history",
            real: &["butte_build::compile_fbs_generic and all of the compiler below it", "OS threads, one running at a time"],
            stub: &["getrandom (hash seeds)", "clock_gettime (wall clock)", "environment and working directory", "thread scheduler", "streams", "service generator"],
            assumptions: &["threads are switched at reads, writes and generator calls"],
        },
        Prop {
            id: "C08",
            run: c08::run,
            quick: 500_000,
            thorough: 15_000_000,
            batch: 5000,
            rule: "a run damages a valid schema text as a torn or mangled file would be, or replaces it by token soup, and compiles it; every run is non-trivial as damage fired",
            measure: "hash over the damaged text",
            time_unit: "compiles",
            real: &["butte_build::compile_fbs_generic and all of the compiler below it"],
            stub: &["the file system that damaged the text"],
            assumptions: &["brackets nest at most 64 deep", "a worker that does not finish a run within 40 s hangs"],
        },
        Prop {
            id: "C10",
            run: c10::run,
            quick: 12_000,
            thorough: 1_000_000,
            batch: 150,
            rule: "a run starts the command-line tool or the build-script entry point 1-3 times as a process whose opens, reads and writes are decided by the seed, over outputs left by earlier, crashed or longer runs, the last time without faults; non-trivial: a file system fault took effect",
            measure: "hash over the schema text, the planned file system behaviour, the tool and the faults that took effect",
            time_unit: "processes run",
            real: &["the butte command-line tool", "butte_build::compile_fbs", "the compiler", "std::fs, std::process"],
            stub: &["libc open, read, write (interposed)", "rustfmt", "standard output that is full or closed"],
            assumptions: &["errors that the kernel reports only at close are not seen by std and not injected", "input and output are different files"],
        },
        Prop {
            id: "C11",
            run: c11::run,
            quick: 40_000,
            thorough: 5_000_000,
            batch: 1000,
            rule: "a run compiles 1-3 schemas with services under recording generators, one after the other or interleaved, some with failing streams or dying generators, and compares calls and emitted items with the declared services; non-trivial: more than one service or a fault",
            measure: "hash over the schema texts, the faults and the schedules",
            time_unit: "compiles",
            real: &["butte_build::compile_fbs_generic and all of the compiler below it"],
            stub: &["service generator", "streams", "thread scheduler", "getrandom"],
            assumptions: &["names that are Rust keywords may reach the generator in adapted spelling"],
        },
    ])
}
