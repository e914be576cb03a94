import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=mech,observe_at=observe,hook_needed=hook))
    P.append(d)
M=lambda n,w:dict(name=n,where=w)
S=lambda n,m,w:dict(name=n,meaning=m,where=w)

p("C01","Single-packet scrambling is exactly the DVB Common Scrambling Algorithm",
 "For every control word and every payload, the single-packet encrypt and decrypt calls replace the payload with exactly what the DVB Common Scrambling Algorithm prescribes (reverse-chained 64-bit block cipher over the whole 8-byte blocks, keyed stream cipher seeded by the first block over everything after it). This holds for every byte value in every position of control word and payload, on little- and big-endian targets alike.",
 ["inputs","configurations"],
 "All 2^64 control words and all payload contents; explored exhaustively for all combinations of values of any two (thorough and short payloads: any three) bytes among control word and payload.",
 "testenc/testdec check two control words with one payload each; a wrong entry in a lookup table (256, 1024 or 2048 entries) or an operation wrong for rare operand combinations is not reached.",
 ["src/dvbcsa_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_pv.h"],
 [M("block cipher rounds and S-box/permutation tables","src/dvbcsa_block.c"),M("stream cipher init/generation rounds, merged S-boxes, carry/adder table","src/dvbcsa_stream.c"),M("reverse CBC chaining and order of the two ciphers","src/dvbcsa_algo.c")],
 [S("key context","cw, nibble-swapped cw, 56-byte block schedule","struct dvbcsa_key_s, src/dvbcsa_pv.h")],
 ["dvbcsa_key_set","dvbcsa_encrypt","dvbcsa_decrypt"])

p("C02","Every control word sets up both flavours as the standard demands",
 "For every 64-bit control word, a key context set with it (single-packet or parallel) scrambles and descrambles exactly as the DVB-CSA key schedule for that control word prescribes. All 64 bits take part as given (no checksum correction), and control words differing in any bit behave as different keys.",
 ["inputs","configurations"],
 "All control words; explored for all values of any three (single-packet) or two (parallel) control word bytes jointly, for every bitslice configuration.",
 "The tests use three control words in total; the key permutation is a 2048-entry table of which they touch a few dozen entries, and the parallel key context is only ever set from one control word.",
 ["src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_block.c","src/dvbcsa_pv.h"],
 [M("block key schedule (64-bit permutation applied by byte tables)","src/dvbcsa_key.c dvbcsa_key_schedule_block"),M("bitslice key expansion","src/dvbcsa_bs_key.c dvbcsa_bs_key_set"),M("nibble swap for the stream cipher","src/dvbcsa_block.c dvbcsa_key_set")],
 [S("kperm","byte-indexed key permutation tables","src/dvbcsa_key.c")],
 ["dvbcsa_key_set","dvbcsa_bs_key_set"])

p("C03","Parallel processing equals single-packet processing, packet for packet",
 "For every control word and every batch, the parallel encrypt (decrypt) call leaves each packet of the batch with exactly the bytes the single-packet encrypt (decrypt) call would have produced for it. This holds for any payload content, for every mixture of packet lengths within the limits, and for every selectable bitslice word width and S-box variant.",
 ["inputs","configurations"],
 "All control words, payloads and batches up to the maximum batch size; explored exhaustively for all joint values of any two payload bytes and of any (control word byte, payload byte) pair, and for every (packet slot, packet length) pair.",
 "testbitslice uses one control word, constant-byte payloads and only full batches; payload contents with other bit patterns, other keys and partly filled batches are untested.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_stream_kernel.inc","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_key.c","src/dvbcsa_bs_avx2.h","src/dvbcsa_bs_sse.h","src/dvbcsa_bs_neon.h","src/dvbcsa_bs_mmx.h","src/dvbcsa_bs_uint32.h","src/dvbcsa_bs_uint64.h"],
 [M("bitslice stream kernel (boolean S-box circuits)","src/dvbcsa_bs_stream_kernel.inc"),M("byte-sliced block rounds","src/dvbcsa_bs_block.c"),M("matrix transposes","src/dvbcsa_bs_transpose_*.c")],
 [S("packet buffer","private copy of the batch with per-packet whole-block length","struct dvbcsa_bs_pkt_buf, src/dvbcsa_bs.h")],
 ["dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])

p("C04","Descrambling undoes scrambling, and the reverse, in every combination",
 "For every control word and payload, decrypting what was encrypted with the same control word gives back the original payload byte for byte, and encrypting what was decrypted likewise. This holds for every payload length, for either flavour on either side (single-packet or parallel), and for any common maximum length on the parallel side.",
 ["inputs","histories","configurations"],
 "All control words, payloads, lengths 0..184 (any length for the single-packet flavour), all (maximum length, length) pairs, and all combinations of flavours on the two sides.",
 "testbitslice checks mixed-flavour round trips for one control word and constant payloads only; single/single and parallel/parallel round trips, reduced maximum lengths and the decrypt-then-encrypt direction of each are not tested.",
 ["src/dvbcsa_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c"],
 [M("order of block and stream stage mirrored between encrypt and decrypt","src/dvbcsa_algo.c, src/dvbcsa_bs_algo.c"),M("inverse block rounds","src/dvbcsa_block.c, src/dvbcsa_bs_block.c")],
 [],["dvbcsa_encrypt","dvbcsa_decrypt","dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])

p("C05","A packet's result does not depend on the rest of its batch",
 "The bytes a parallel call produces for a packet depend only on the control word, the maximum length and that packet's own payload: not on its position in the batch, on how many packets the batch holds (from none up to the advertised maximum), or on the lengths and contents of the other packets. The advertised maximum batch size is one fixed positive number, and a batch of exactly that many packets is processed in full.",
 ["inputs","configurations"],
 "All batch sizes 0..maximum, all packet positions, all ordered pairs of positions (changed packet, observed packet), over an alphabet of lengths and contents, for every bitslice configuration.",
 "testbitslice only uses completely full batches, so partly filled batches (in particular sizes that are not a multiple of the unrolling factor) and cross-talk between slots are never exercised.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs.h"],
 [M("packet load/store loops and packet count","src/dvbcsa_bs_algo.c dvbcsa_pkt_buf_load/store"),M("unrolled loops by packet count modulo 2 and 4","src/dvbcsa_bs_transpose_*.c")],
 [S("n_packets","number of packets found before the terminator","struct dvbcsa_bs_pkt_buf")],
 ["dvbcsa_bs_encrypt","dvbcsa_bs_decrypt","dvbcsa_bs_batch_size"])

p("C06","The maximum length bounds what a parallel call processes",
 "For every valid maximum length M (a multiple of 8, 0 to 184) and every packet length L, a parallel call transforms the first min(L, M) bytes of the packet exactly as it would a packet of that length, and leaves every byte beyond M as it was. Packets longer than M, including longer than 184 bytes, are thereby partially processed without affecting any other packet.",
 ["inputs","configurations"],
 "All 24 valid maximum lengths x all packet lengths 0..184 and selected longer ones x all packet positions, both directions, every bitslice configuration.",
 "All tests call the parallel functions with maximum length 184 and packets of at most 184 bytes.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_transpose_block.c","README"],
 [M("loop bounds derived from the maximum length","src/dvbcsa_bs_block.c *_batch, src/dvbcsa_bs_stream.c"),M("copy-in/copy-out lengths","src/dvbcsa_bs_algo.c")],
 [S("maxlen","processing limit of a call","struct dvbcsa_bs_pkt_buf")],
 ["dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])

p("C07","Single-packet calls handle every payload length",
 "For every payload length, from zero to the largest expressible one, the single-packet calls apply the algorithm to the whole payload: lengths below 8 leave the payload unchanged, the trailing length mod 8 bytes are processed by the stream cipher only, and all whole 8-byte blocks are chained. No length is truncated, wrapped or treated as too long.",
 ["inputs"],
 "All lengths; explored for every length 0..2200, for every length within 9 of a power of two up to 2^20 (thorough: 2^24, and once above 2^31), for several contents and keys, both directions.",
 "The tests use payloads of at most 184 bytes with the single-packet calls, and lengths other than 184 only in the mixed round trip.",
 ["src/dvbcsa_algo.c","src/dvbcsa_stream.c"],
 [M("whole-block length mask, short payload early return and chaining loops","src/dvbcsa_algo.c"),M("stream length","src/dvbcsa_stream.c dvbcsa_stream_xor")],
 [],["dvbcsa_encrypt","dvbcsa_decrypt"])

p("C08","Calls touch only the memory they were given",
 "Encrypt and decrypt calls write nothing but the payload bytes of the packets passed in, and read nothing but those payloads, the key context and the batch array up to and including its terminating entry; key setup reads exactly the 8 control word bytes and writes only the key context. Key contexts, control words and batch arrays are never modified by processing calls.",
 ["inputs","configurations"],
 "All payload lengths 0..184 (single-packet: more) at the start and at the end of accessible memory, all packet slots, all valid maximum lengths, every bitslice configuration.",
 "The tests place packets inside larger buffers and never look at surrounding bytes; reads or writes past a payload, past the terminator or into a key context go unnoticed.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_stream.c","src/dvbcsa_block.c","src/dvbcsa_bs_key.c","src/dvbcsa_key.c"],
 [M("private packet buffer with exact copy lengths","src/dvbcsa_bs_algo.c dvbcsa_pkt_buf_load/store"),M("const-qualified key and batch parameters","src/dvbcsa/dvbcsa.h")],
 [],["all API functions"])

p("C09","Results depend on the last key set, not on call history",
 "After any sequence of API calls on any number of key contexts, an encrypt or decrypt call behaves exactly as with a freshly allocated context set once with the control word most recently set on that context. Setting, using, freeing or re-allocating one context never affects another, and using a context any number of times never changes its behaviour.",
 ["histories"],
 "All sequences, of any length, of allocate / set (two control words) / encrypt / decrypt / free operations over several contexts of both flavours: the reachable concrete states are enumerated to a fixed point.",
 "Each test sets a key at most twice on one context and makes at most a few calls; interleaved use of several contexts, re-keying after use and long histories are not tested.",
 ["src/dvbcsa_block.c","src/dvbcsa_bs_key.c","src/dvbcsa_key.c","src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c"],
 [M("all state lives in the caller's key context","src/dvbcsa_pv.h struct dvbcsa_key_s, src/dvbcsa_bs.h struct dvbcsa_bs_key_s"),M("key setup overwrites the complete context","dvbcsa_key_set, dvbcsa_bs_key_set")],
 [S("key contexts","expanded keys","heap"),S("library statics","none writable today","writable sections of the library")],
 ["all API functions"])

p("C10","Concurrent use by several threads gives the sequential results",
 "When several threads call the library at the same time, each on its own packets, with key contexts that are shared for processing or private to the thread (one context never being set or freed while in use elsewhere), every call produces exactly what it would have produced alone, for every interleaving.",
 ["schedules"],
 "All interleavings of two or three threads running key setup, single-packet and parallel calls (shared and private keys), at the granularity of memory accesses, up to the stated preemption bound and with the independence argument for the rest.",
 "All tests are single-threaded.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_stream.c","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_key.c","src/dvbcsa_key.c"],
 [M("working storage is automatic, tables are constant","all of src/")],
 [S("shared key context","read by every thread","caller")],
 ["all API functions"],None)

p("C11","Allocation failures are reported and every allocation is given back",
 "Allocating a key context either yields a suitably aligned, fully usable, independent context or, when memory is exhausted, a null pointer and nothing else; freeing a context releases everything its allocation obtained, exactly once, and freeing null does nothing. Key setup and packet processing cannot fail: they give their normal results even when no memory can be obtained at all, and repeating them any number of times never makes the library hold more and more memory.",
 ["fault_sequences","histories"],
 "All subsets of allocation requests failing in bounded histories of allocate / set / encrypt / decrypt / free over both flavours, for every configuration and for each allocator back end; every call repeated, any of its requests failing.",
 "The tests never make an allocation fail, never check what is freed and never call the free functions more than once per context.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c"],
 [M("malloc/free pair","src/dvbcsa_algo.c dvbcsa_key_alloc/free"),M("aligned allocation with three back ends and matching free","src/dvbcsa_bs_algo.c dvbcsa_bs_key_alloc/free")],
 [S("heap","live allocations","caller's allocator")],
 ["dvbcsa_key_alloc","dvbcsa_key_free","dvbcsa_bs_key_alloc","dvbcsa_bs_key_free"])

p("C12","Results do not depend on addresses or on leftover memory contents",
 "Every call's result is a function of its arguments' contents alone: it is the same for every byte alignment of payload and control word addresses and wherever context, payloads, control word and batch array lie relative to one another, whatever the stack, the processor registers or the freshly allocated key context contained beforehand.",
 ["inputs","configurations"],
 "All 64 alignments of payload and control word addresses, all combinations of an alphabet of stack, heap and vector-register fill patterns, for each operation, both flavours, batch sizes and every bitslice configuration.",
 "Tests run on naturally aligned buffers with whatever happens to be on the stack, so reads of uninitialised storage and alignment-dependent code pass by luck.",
 ["src/dvbcsa_bs_stream.c","src/dvbcsa_bs_algo.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_key.c","src/dvbcsa_stream.c","src/dvbcsa_pv.h"],
 [M("explicit initialisation of every cipher register","src/dvbcsa_bs_stream.c, src/dvbcsa_stream.c"),M("memcpy-based unaligned loads and stores","src/dvbcsa_pv.h, src/dvbcsa_bs_algo.c")],
 [],["dvbcsa_encrypt","dvbcsa_decrypt","dvbcsa_bs_encrypt","dvbcsa_bs_decrypt","dvbcsa_key_set","dvbcsa_bs_key_set"])

p("C13","All build configurations compute the same function",
 "Whatever bitslice method (32-bit or 64-bit integers, MMX, SSE2, SSSE3, AVX2, NEON), S-box lookup variant, debug or optimised build and byte order the library is configured for, the same control word and packets give the same bytes in both flavours. Only the maximum batch size differs between configurations, and it equals the number of packets the configured word can hold.",
 ["configurations","inputs"],
 "All buildable combinations of bitslice method, S-box variant, byte order, debug mode and aliasing mode, over a common exhaustive workload.",
 "Each configuration's tests compare that configuration with itself on one key and constant payloads; several combinations (32-bit alternative S-box, SSSE3 alternative S-box, MMX alternative S-box, AVX2 alternative S-box, debug) are untested or failing.",
 ["src/dvbcsa_bs.h","src/dvbcsa_bs_block.c","src/dvbcsa_bs_transpose.h","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c","src/dvbcsa_bs_avx2.h","src/dvbcsa_bs_sse.h","src/dvbcsa_bs_neon.h","src/dvbcsa_bs_mmx.h","src/dvbcsa_bs_uint32.h","src/dvbcsa_bs_uint64.h","src/dvbcsa_pv.h","configure.ac"],
 [M("per-method word operations","src/dvbcsa_bs_*.h"),M("alternative S-box lookups and interleaved layouts","src/dvbcsa_bs_block.c"),M("byte-order dependent loads and swaps","src/dvbcsa_pv.h, src/dvbcsa_bs_transpose.h")],
 [],["dvbcsa_bs_encrypt","dvbcsa_bs_decrypt","dvbcsa_encrypt","dvbcsa_decrypt","dvbcsa_bs_batch_size"])

p("C14","Invalid maximum lengths are refused, never half-processed",
 "A parallel call with a maximum length that is not a multiple of 8 or exceeds 184 is refused (in the default build by an assertion failure) before any payload byte is modified. Every valid maximum length is accepted.",
 ["inputs","configurations"],
 "All maximum lengths 0..4096, and every value within 9 of a multiple of a power of two up to 2^32-1, both directions, with several batches, for every bitslice configuration.",
 "The tests only ever pass 184.",
 ["src/dvbcsa_bs_algo.c"],
 [M("argument assertions at function entry","src/dvbcsa_bs_algo.c dvbcsa_bs_encrypt/dvbcsa_bs_decrypt")],
 [],["dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])

p("C15","The caller's floating-point and processor state survives every call",
 "After any API call the processor state the calling convention requires to be preserved is as before: in particular the x87 register stack is empty and usable (also in MMX configurations), rounding modes, exception masks and the direction flag are unchanged, so the caller's floating-point code computes the same values after a call as before it.",
 ["inputs","configurations"],
 "Every API call x all batch sizes and maximum lengths (including empty batches and zero maximum length) x rounding-mode alphabet, for every x86 configuration with both available compilers.",
 "No test performs floating-point arithmetic after a call.",
 ["src/dvbcsa_bs_algo.c","src/dvbcsa_bs_mmx.h"],
 [M("multimedia state reset","src/dvbcsa_bs_algo.c BS_EMPTY() in dvbcsa_bs_encrypt/decrypt, src/dvbcsa_bs_mmx.h")],
 [S("x87/MMX tag word, MXCSR, control word","processor state","CPU")],
 ["all API functions"])

p("C16","Documented use never executes undefined behaviour",
 "Whatever control words, payloads, lengths, batch sizes and maximum lengths within the documented limits are used, no library call reads or writes outside an object (including the library's own tables and working buffers), overflows signed arithmetic, or makes a misaligned access.",
 ["inputs","configurations"],
 "The bounded-exhaustive workloads over lengths, batch sizes, maximum lengths and byte values, executed under address and undefined-behaviour monitors (and with the lookup tables placed directly before inaccessible memory) in every native configuration, and under trapping undefined-behaviour checks in the emulated ones.",
 "The tests run without sanitizers; out-of-bounds accesses inside the library's working storage or tables and signed overflow do not show.",
 ["src/dvbcsa_bs_key.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_avx2.h","src/dvbcsa_bs_algo.c","src/dvbcsa_stream.c","src/dvbcsa_bs_stream_kernel.inc"],
 [M("table sizes against index widths","src/dvbcsa_stream.c, src/dvbcsa_bs_block.c, src/dvbcsa_bs_avx2.h"),M("fixed-size working buffers","src/dvbcsa_bs.h, src/dvbcsa_bs_stream_kernel.h")],
 [],["all API functions"])
p("C17","A call interrupted by other calls still gives its normal result",
 "When a library call is interrupted at any instruction and complete library calls are made in between by the same thread (as a signal handler would), each on its own packets and on contexts that neither side is setting while the other uses them, both the interrupted call and the interrupting ones give exactly their normal results. Contexts may be shared for processing; allocating and freeing are excluded.",
 ["schedules","fault_sequences"],
 "All interruption points (every instruction of the library an outer call executes) x all pairs of outer and nested operation (key setup, encrypt, decrypt of both flavours, private and shared contexts), interrupting everywhere or at every k-th instruction.",
 "No test interrupts a call; a working buffer moved to static or thread-local storage passes every test, single- or multi-threaded.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c","src/dvbcsa_bs_transpose_block.c","src/dvbcsa_bs_transpose_stream.c","src/dvbcsa_bs_transpose_stream32.c"],
 [M("working storage is automatic, tables are constant","all of src/")],
 [S("working buffers","packet copies, cipher registers, round keys","stack of each call")],
 ["dvbcsa_key_set","dvbcsa_bs_key_set","dvbcsa_encrypt","dvbcsa_decrypt","dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])
p("C18","Every call returns, with work and stack bounded by its arguments",
 "Every API call comes back: whatever the control word, payload contents, lengths, addresses and earlier calls, it never loops, waits or recurses without end. The work of a call is at most a constant plus a constant times the bytes it has to process (payload length, or batch size times maximum length), it does not grow with the number of calls made before or of contexts in existence, and its stack use stays below a fixed bound whatever the payload length.",
 ["inputs","histories","configurations"],
 "The enumerated workload (all structured control words, all pairs of byte values, all lengths to 1030 and around powers of two up to 2^22, all maximum lengths with all batch shapes, allocation with failing requests, 20000-fold repetition) on builds that report every basic block entered, with the count and the stack depth of each call checked against the bound.",
 "The tests only process constant 184 byte packets; a loop that does not end for a rare value, or work or recursion that grows faster than the payload, does not show there.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_stream.c","src/dvbcsa_block.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c"],
 [M("loops counting to a length, no recursion, fixed-size automatic storage","all of src/")],
 [],["all API functions"])

p("C19","Calls have no side effects outside the memory they are given",
 "Apart from obtaining and returning memory, a call that is not refused makes no use of the operating system and changes no process-wide state: it writes no output, opens no file, starts no thread, never ends the process, and leaves signal handling, environment, locale, and the C library's random number generator as they were. (Debug builds may print.)",
 ["inputs","configurations","fault_sequences"],
 "The same enumerated workload with every system call made inside a library call trapped, and process-wide state that needs no system call compared around each call, in every native configuration.",
 "No test looks at anything but payload bytes; a diagnostic left in for a rare control word, or scratch contents taken from rand(), passes them all.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c"],
 [M("pure computation on caller-provided memory","all of src/")],
 [],["all API functions"])
p("C20","A call that is never finished leaves nothing behind",
 "When a library call is abandoned at any point (its thread is cancelled, a signal handler jumps out of it, or the process forks meanwhile and the child goes on), only the packets it was given, and for key setup the context it was setting, are left unspecified. However many calls have been abandoned, every later call by any thread returns and gives its normal result: on other objects at once, on the abandoned call's packets once they are filled again, on a context it was using as that is, and on one it was setting once it is set again. Allocating and freeing are excluded.",
 ["crash_points","fault_sequences","histories"],
 "All points at which a call can be left (instructions of the library; first read and first write of each page of each object given to it) x the six processing and key setup operations, once and up to thousands of times over, each followed by all six operations on other objects and on the same ones, in the same thread and another.",
 "No test leaves a call unfinished; a lock, a claimed work area, a nesting counter or a half-made cache entry passes everything that finishes its calls.",
 ["src/dvbcsa_algo.c","src/dvbcsa_bs_algo.c","src/dvbcsa_block.c","src/dvbcsa_stream.c","src/dvbcsa_key.c","src/dvbcsa_bs_key.c","src/dvbcsa_bs_block.c","src/dvbcsa_bs_stream.c"],
 [M("no state outside the arguments and the call's own stack","all of src/")],
 [],["dvbcsa_key_set","dvbcsa_bs_key_set","dvbcsa_encrypt","dvbcsa_decrypt","dvbcsa_bs_encrypt","dvbcsa_bs_decrypt"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
