import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","An intact message decodes to exactly what was written",
 "For every supported schema and every value built through the code generated from it, a reader that receives the finished bytes intact gets back exactly the values that were written: every scalar, enum, string, vector, nested table and union member, with fields that were not set reading as their declared default or as absent (a float equal to its field's default reads as that default, so -0.0 may read as 0.0). This holds whatever the builder did before (fresh, pre-sized, reset and reused, used after abandoned work) and however the bytes travelled (delayed, duplicated, reordered, relayed by another node, stored and re-read after a restart, placed at any address). Values that shared a builder, a buffer or a vtable never bleed into each other.",
 ["inputs","programs","histories","fault_sequences"],
 "all schemas in the supported subset (tables, every scalar type, enums over every base type with explicit and implicit values, strings, vectors, nested and recursive tables, unions, required fields, explicit defaults, several namespaces, forward references, keyword names), all values, all builder histories and all delivery histories of intact messages",
 "The tests decode three hand-written examples, each built once with a new builder and read back at once; they sample neither schemas, values, builder histories nor buffer placements.",
 ["butte/src/builder.rs","butte/src/push.rs","butte/src/primitives.rs","butte/src/vtable_writer.rs","butte/src/table.rs","butte/src/vector.rs","butte/src/endian_scalar.rs","butte-build/src/codegen.rs","butte-build/src/ir/transform.rs"],
 [("back-to-front buffer with relative offsets","butte/src/builder.rs push/push_slot/end_table/write_vtable"),("vtable deduplication","butte/src/builder.rs find_duplicate_stored_vtable_revloc"),("generated create/accessor pairs sharing one slot number per field","butte-build/src/codegen.rs ir::Table to_tokens"),("type resolution over namespaces and forward references","butte-build/src/ir/transform.rs Builder::build")],
 [("owned_buf/head","written bytes","builder.rs FlatBufferBuilder"),("field_locs","fields of the table in progress","builder.rs FlatBufferBuilder")],
 ["generated X::create then FlatBufferBuilder::finished_data","generated X::get_root and accessors"])
p("C02","Resetting a builder leaves no trace of earlier work",
 "After a builder is reset, whatever it did before - finished messages, tables or vectors abandoned half way, a panic in the middle of writing a value, a rejected misuse, growth of its buffer - the next message it produces is byte for byte the message a new builder would have produced. The same holds for a clone of a builder, which then evolves independently of the original.",
 ["histories","crash_points"],
 "all sequences of builder operations before the reset, abandoned or interrupted by a panic at any operation, for any initial capacity, followed by any message",
 "The existing test resets one builder after a complete message; no test interrupts a table or vector, panics inside a push, or compares bytes with a new builder's.",
 ["butte/src/builder.rs","butte/src/vtable_writer.rs"],
 [("reset clears buffer, vtable list, nesting, finish and alignment state","butte/src/builder.rs reset"),("growth keeps the unused front zeroed","butte/src/builder.rs grow_owned_buf")],
 [("head, owned_buf","dirty region","builder.rs"),("field_locs, written_vtable_revpos, nested, finished, min_align","per-message state","builder.rs")],
 ["FlatBufferBuilder::finished_data, unfinished_data, num_written_vtables, collapse"])
p("C03","Damaged input is contained on read",
 "Reading bytes that were truncated, torn, bit-flipped, zeroed, spliced, shifted or replaced by junk - through the generated code or the runtime's readers - returns a value or an error from every accessor; it never panics, aborts, loops without end or touches memory outside the buffer. What a read returns depends only on the bytes inside the buffer, not on its address, alignment or surroundings (a slice view may instead report an error when the address is not aligned for it). Strings that are returned are valid text lying inside the buffer.",
 ["inputs","fault_sequences","configurations"],
 "all byte strings, in particular all damaged forms of real messages, every accessor of every field reachable, all placements of the buffer in memory",
 "The tests read only intact buffers in their own aligned allocation; no test truncates, flips or misplaces bytes.",
 ["butte/src/endian_scalar.rs","butte/src/primitives.rs","butte/src/table.rs","butte/src/vector.rs","butte/src/vtable.rs","butte-build/src/codegen.rs"],
 [("bounds-checked scalar reads","butte/src/endian_scalar.rs read_scalar/read_scalar_at"),("offset following with errors","butte/src/primitives.rs Follow impls"),("string bounds, terminator and UTF-8 check","butte/src/vector.rs Follow for &str"),("closed enum and union decoding","butte-build/src/codegen.rs TryFrom of generated enums")],
 [],["generated get_root and accessors","butte::Table, Vector, VectorIter, buffer_has_identifier, get_size_prefixed_root"])
p("C04","Nodes on different schema versions understand each other",
 "While a deployment is upgraded node by node between schema versions that only append fields, enum values or union members, every message written under one version is readable under every other: fields both versions know carry exactly the written values, fields the writer did not know read as their default or as absent. A value the reader's version cannot represent (a newer enum value or union member) is reported as an error by that one accessor, and a required field the message lacks as a missing-required-field error; all other fields of the message stay readable. This holds for messages stored before an upgrade and read after it, and for messages forwarded unchanged by a node on any version.",
 ["programs","histories","schedules","fault_sequences"],
 "all pairs of versions of all append-only schema histories, all values, all upgrade, downgrade, restart and message delivery orders",
 "No test compiles two versions of a schema, let alone exchanges messages between them.",
 ["butte-build/src/codegen.rs","butte-build/src/ir/transform.rs","butte/src/table.rs","butte/src/vtable.rs","butte/src/builder.rs"],
 [("slot numbers assigned in declaration order","butte-build/src/codegen.rs field_offset_constants"),("short vtables read as absent","butte/src/vtable.rs VTable::get"),("absent reads as default","butte/src/table.rs Table::get"),("companion type slot before a union slot","butte-build/src/ir/transform.rs new_table")],
 [],["generated accessors of version i on bytes built by generated code of version j"])
p("C05","A compile over faulty streams delivers all the code or an error",
 "Compiling from any byte source to any byte sink reports success only when the complete generated code for the complete schema has been accepted and flushed by the sink; the code does not depend on how reads and writes are chunked or interrupted. Every read error, write error, sink that stops accepting bytes, failed flush and undecodable input is returned as an error, without a panic. At any moment - hence also after an error or a crash - the sink holds a prefix of the correct code and nothing else, and nothing at all when the schema could not be read or compiled.",
 ["fault_sequences","crash_points","inputs"],
 "all chunkings, interruptions and error points of the source and the sink, for all schemas",
 "The tests never compile through a stream that fails or returns short counts.",
 ["butte-build/src/compile.rs"],
 [("read the whole schema before compiling, write once","butte-build/src/compile.rs compile_fbs_generic")],
 [],["return value of compile_fbs_generic","bytes, flushes and errors seen by the supplied reader and writer"])
p("C06","A failing formatter process never yields silent bad output",
 "When generated code is formatted by the external formatter, compiling succeeds only if the formatter was started, received the complete code and ended successfully, and then the sink receives exactly the formatter's output. If the formatter cannot be started, dies, stops reading early or reports failure, the compile returns an error - never a panic or a hang - and leaves the sink untouched.",
 ["fault_sequences","schedules","crash_points"],
 "all points at which the formatter process can fail (start, while reading, while writing, at exit), all exit codes and signals, all output sizes including larger than a pipe",
 "The tests run the real formatter on valid code only; none makes it fail.",
 ["butte-build/src/compile.rs"],
 [("spawn, feed, wait and check the formatter","butte-build/src/compile.rs compile_fbs_generic")],
 [],["return value of compile_fbs_generic(ugly=false)","the sink's contents","exit of the stand-in formatter"])
p("C07","Generated code is determined by the schema alone",
 "The same schema text yields the same generated code on every compile: regardless of hash seeds, of what was compiled before in the same process - including compiles that failed - and of other compiles running at the same time on other threads, whose failures never disturb it.",
 ["schedules","histories","configurations"],
 "all hash seeds, all histories of earlier compiles, all interleavings of concurrent compiles at their I/O points, all schemas",
 "A test runs one compile once in one process, with one hash seed and no concurrency.",
 ["butte-build/src/ir/transform.rs","butte-build/src/codegen.rs","butte-build/src/compile.rs"],
 [("ordered maps and position-indexed nodes over hash maps","butte-build/src/ir/transform.rs Builder::build")],
 [("types, elements, root_types","hash collections whose order must not show","transform.rs")],
 ["output bytes of compile_fbs_generic","getrandom, through which std seeds its hash maps"])
p("C08","Damaged schema text yields code or an error, never a crash",
 "For every input text whose brackets nest at most 64 deep - in particular a schema cut at any byte, with bytes flipped, lines lost, doubled or swapped, or two files spliced - the compiler ends in bounded time with generated code or with an error; it never panics or aborts. A schema cut inside a declaration or followed by junk is reported as an error, never silently compiled to less than what was written.",
 ["inputs","fault_sequences"],
 "all texts, in particular all torn, truncated and corrupted forms of valid schemas",
 "The tests compile well-formed schemas and feed a handful of malformed fragments to single parser functions.",
 ["butte-build/src/compile.rs","butte-build/src/ast/parser.rs","butte-build/src/ir/transform.rs","butte-build/src/codegen.rs"],
 [("complete-input requirement","butte-build/src/compile.rs compile_fbs_generic"),("fix-point type resolution that stops without progress","butte-build/src/ir/transform.rs Builder::build")],
 [],["return value of compile_fbs_generic"])
p("C09","Any interleaving of cursor operations walks a vector exactly once",
 "However several cursors over one vector are advanced from the front and from the back, skipped, cloned and dropped in any order, each yields exactly the elements not yet taken, each once and in order, always reports the exact number left, and stays exhausted once exhausted. Taking an element by position agrees with walking to it.",
 ["histories","schedules"],
 "all interleavings of front, back, skip and clone operations, with any skip distance, over vectors of every element type and length",
 "The existing tests call each operation in isolation on a few vectors; none mixes both ends with skips and clones.",
 ["butte/src/vector.rs"],
 [("cursor = (location, remaining) with saturating skips","butte/src/vector.rs VectorIter")],
 [("loc, remaining","next element and elements left","vector.rs VectorIter")],
 ["Iterator, DoubleEndedIterator, ExactSizeIterator of VectorIter, Vector::get, Vector::len"])
p("C10","A file compile reports success only for a complete file",
 "When the command-line tool or the build-script entry point compiles a schema file, success (zero exit status, Ok) means that the output holds exactly the complete code for that schema - also when an older, longer output was there before, when an earlier run crashed half way, and when reads and writes are short or interrupted. Every failure of the file system, a closed pipe or full output, a missing or unreadable input and a killed process end in an error or nonzero status, never in success with missing, stale or extra bytes.",
 ["fault_sequences","crash_points","histories"],
 "all sequences of tool runs over the same files with faults injected at any system call, including a crash at any point between two calls",
 "One test runs the command-line tool on one good file; no test injects a fault or reruns over old output.",
 ["butte-build/src/compile.rs","butte-build/src/main.rs"],
 [("truncating create then one complete write","butte-build/src/compile.rs compile_fbs"),("error to exit status","butte-build/src/main.rs main")],
 [],["exit status of the butte binary, result of compile_fbs, output file contents","read, write, open system calls through an interposed library"])
p("C11","Every service reaches the caller's generator exactly once",
 "When the caller supplies a service generator, it is called exactly once for every declared service, in declaration order within a namespace, with the declared methods in order, their request and response types fully qualified and their streaming mode, independent of where the referenced tables are declared. What the generator emits appears in the output at the service's place, inside its namespace; a compile that fails, or a generator that panics, affects no other compile.",
 ["programs","histories","schedules"],
 "all schemas with services in any namespace and declaration order, several compiles interleaved, with failing neighbours",
 "One example registers a generator for one service in one namespace.",
 ["butte-build/src/codegen.rs","butte-build/src/ir/transform.rs"],
 [("deferred resolution of services","butte-build/src/ir/transform.rs new_rpc"),("one generator threaded through all namespaces","butte-build/src/codegen.rs build_tokens")],
 [],["calls to the supplied RpcGenerator","output of compile_fbs_generic"])
p("C12","Every finished buffer is a well-formed FlatBuffer",
 "Whatever sequence of builder operations, growth, interruptions and resets led to it, a finished buffer obeys the FlatBuffers binary format as an independent decoder sees it: all offsets stay inside the buffer, every scalar, vector and struct is aligned relative to the buffer's end, strings are terminated, equal vtables are stored once, padding is zero, the size prefix counts the rest of the buffer and the file identifier is where readers look for it. The independent decoder recovers exactly the tables, vectors and strings that were pushed.",
 ["histories","crash_points","configurations"],
 "all sequences of builder operations, all initial capacities, all reuse histories, with and without size prefix and identifier",
 "The tests check bytes of a fixed set of operation sequences on a fresh builder; growth boundaries, reuse and wide alignments are not sampled.",
 ["butte/src/builder.rs","butte/src/push.rs","butte/src/primitives.rs","butte/src/vtable_writer.rs","butte/src/endian_scalar.rs"],
 [("alignment bookkeeping","butte/src/builder.rs align, track_min_align, finish_with_opts"),("vtable writing and deduplication","butte/src/builder.rs write_vtable"),("relative offsets","butte/src/primitives.rs Push for WIPOffset")],
 [("min_align","widest alignment seen","builder.rs")],
 ["FlatBufferBuilder::finished_data decoded by an independent reference decoder"])
p("C13","The schema parser accepts exactly the documented grammar",
 "Every text in the supported schema grammar parses to the declarations it denotes, with any placement of comments and white space, and every other text is rejected.",
 ["inputs"],"all texts","Grammar fidelity is a statement over all texts; the tests sample fragments.",
 ["butte-build/src/ast/parser.rs"],[("nom parser combinators","butte-build/src/ast/parser.rs")])
p("C14","Buffers are portable between hosts of any byte order and word size",
 "A program that writes or reads messages does the same on a big-endian and a little-endian host, and on a 32-bit and a 64-bit one: the same sequence of builder operations writes the same bytes (values, offsets, vtables, alignment, padding, size prefix, identifier), and the same bytes, intact or damaged, give the same values, the same absences and the same errors through every accessor and cursor - never a panic, a wrapped offset or a byte-swapped value on one of them only.",
 ["configurations","histories"],
 "all builder histories, messages and damages, on hosts of either byte order and of 32 and 64 bits",
 "The tests run on one host, little-endian with 64 bits; the code for other byte orders is never executed, and an overflow or alignment of the word size cannot show.",
 ["butte/src/endian_scalar.rs","butte/src/follow.rs","butte/src/table.rs","butte/src/vector.rs","butte/src/builder.rs","butte/src/push.rs","butte/src/primitives.rs"],
 [("byte order conversions","butte/src/endian_scalar.rs EndianScalar, emplace_scalar, read_scalar"),("reading offsets and lengths into usize","butte/src/primitives.rs, vector.rs, table.rs"),("alignment of scalars","butte/src/push.rs PushAlignment")],
 [],
 ["FlatBufferBuilder::finished_data and every accessor, on this host and on interpreted hosts of other targets"])
p("C15","A builder holds messages up to 2 GiB and refuses more",
 "A builder accepts every message that fits below the 2 GiB limit of the format, however its size comes about - one huge value, many values, a large initial capacity, growth step by step - and the message is complete and correct. A push that would carry the buffer past the limit is refused (a panic in the caller), never a wrapped offset or a silently damaged message; after a refusal, wherever in a message it strikes, the builder can be reset and used again.",
 ["histories","fault_sequences"],
 "all sequences of pushes, growths, refusals and resets around the limit, for all initial capacities",
 "No test allocates gigabytes or comes near the limit.",
 ["butte/src/builder.rs"],
 [("capacity assertion","butte/src/builder.rs ensure_capacity, make_space"),("growth by doubling up to the limit","butte/src/builder.rs grow_owned_buf")],
 [("owned_buf, head","capacity and bytes used","builder.rs FlatBufferBuilder")],
 ["FlatBufferBuilder::finished_data, used_space, reset after a refused push"])
p("C16","Generated names never collide",
 "For every schema whose declared names are distinct, the generated Rust items have distinct, valid names.",
 ["inputs"],"all sets of names","The tests use a few names.",
 ["butte-build/src/codegen.rs","butte-build/src/ir/keywords.rs"],[("keyword substitution and case conversion","butte-build/src/ir/keywords.rs, codegen.rs")])
p("C17","Threads that build and read messages do not interfere",
 "Builders working on different threads at the same time, a builder handed from one thread to another between messages, and any number of threads that read the same finished buffer - each through its own root object or through shared or cloned ones - behave as they would alone: every message has the bytes and every accessor the values of a single-threaded run, whatever the interleaving. A thread that dies in the middle of writing or reading disturbs no other thread. Builders can be sent, and readers shared, between threads.",
 ["schedules","crash_points","histories"],
 "all interleavings of writers and readers at every basic block of the runtime and of the generated code, deaths of threads at any such point, all messages",
 "No test uses more than one thread.",
 ["butte/src/builder.rs","butte/src/table.rs","butte/src/vector.rs","butte/src/primitives.rs","butte-build/src/codegen.rs"],
 [("a builder owns all its state","butte/src/builder.rs FlatBufferBuilder"),("readers hold shared slices without interior mutability","butte/src/table.rs Table, generated root types")],
 [],["generated X::create and FlatBufferBuilder::finished_data on several threads","generated accessors on several threads","Send and Sync of the public types"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
