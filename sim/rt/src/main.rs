use simkit::driver::{self, Prop};

fn main() {
    driver::main(&[
        Prop {
            id: "C02",
            run: rt::c02::run,
            quick: 4_000_000,
            thorough: 40_000_000,
            batch: 5000,
            rule: "a run drives a builder of any capacity through 1-9 pieces of earlier work, most of them abandoned, refused or killed by a panic, resets it, and executes one random message program in lock step on it, on new builders and on clones; non-trivial: at least one piece of earlier work was injected",
            measure: "hash over the injected history and the finished bytes",
            time_unit: "builder operations executed in lock step",
            real: &["butte::FlatBufferBuilder"],
            stub: &["values whose write panics"],
            assumptions: &["messages stay far below 64 KiB per table", "built with debug assertions"],
        },
        Prop {
            id: "C03",
            run: rt::c03::run,
            quick: 300_000,
            thorough: 40_000_000,
            batch: 5000,
            rule: "a run builds a message with the runtime, damages it 1-3 times and reads it with every reader of the runtime at three placements incl. against inaccessible pages",
            measure: "hash over the damaged bytes and the damage applied",
            time_unit: "complete reads of a damaged buffer",
            real: &["butte runtime"],
            stub: &["network and disk that damage the bytes", "memory placement"],
            assumptions: &["generated code could not be had: the runtime's part only"],
        },
        Prop {
            id: "C09",
            run: rt::c09::run,
            quick: 20_000_000,
            thorough: 60_000_000,
            batch: 20000,
            rule: "a run drives up to 5 cursors over one vector of any element type through up to 40 seeded operations, against an interval model; non-trivial: the run reached the final drain",
            measure: "hash over element type, length and the operation sequence",
            time_unit: "cursor operations",
            real: &["butte::Vector", "butte::VectorIter"],
            stub: &["the clients holding the cursors", "truncated buffers"],
            assumptions: &["vectors of at most 30 elements"],
        },
        Prop {
            id: "C12",
            run: rt::c12::run,
            quick: 5_000_000,
            thorough: 40_000_000,
            batch: 5000,
            rule: "a run drives a builder of any capacity through up to 4 rounds of finished or abandoned work and decodes every finished buffer with an independent decoder; non-trivial: a buffer was finished and decoded",
            measure: "hash over the injected history and the finished bytes",
            time_unit: "finished messages",
            real: &["butte::FlatBufferBuilder", "butte root and identifier readers"],
            stub: &["values whose write panics"],
            assumptions: &["the independent decoder implements the FlatBuffers format rightly", "messages stay far below 64 KiB per table"],
        },
        Prop {
            id: "C15",
            run: rt::c15::run,
            quick: 160,
            thorough: 12_000,
            batch: 10,
            rule: "a run drives a builder of any capacity up to the limit through 2-5 values, up to three of them of a size that ends near or past 2 GiB, finishes and reads the message back or sees the refusal, resets and builds a small message; non-trivial: a refusal or a complete message",
            measure: "hash over capacity, sizes and refusals",
            time_unit: "values written",
            real: &["butte::FlatBufferBuilder", "butte readers"],
            stub: &["content of the large values (zeros with marked ends)"],
            assumptions: &["64-bit host", "large values are byte strings and directly copied vectors", "which value is the first to be refused is not fixed within 64 bytes of the limit (padding)"],
        },
    ])
}
