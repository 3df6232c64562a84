T = "Trusted: the generators and reference model in harness/, rustc, the kernel. Sampled inputs, so absence of a violation is evidence, not proof."
N = "The real client code runs over AF_UNIX socket pairs placed under its connect call and over virtual time (tokio's paused clock); faults, partial reads and writes are injected in the transport. " + T
NOTES = {
 "C01": ("property-based testing: mutated grammar, raw strings and boundary sizes in guarded memory; crash and hang localisation", "Every parse and accessor runs on strings placed against unmapped pages at chosen alignments, in AVX2, SSE2 and scalar builds with overflow checks and an AVX2 release build. Lines of 4 GiB and more are out of the domain. " + T),
 "C02": ("property-based testing against construction: generated tag lists rendered and read back", "Tag counts to a few hundred, lengths past 64 KiB, all offsets relative to a vector; three backends. " + T),
 "C03": ("property-based testing against construction: generated line parts rendered and read back", "Three backends. " + T),
 "C04": ("differential fuzzing of four builds of the parser on the same lines", "The avx2 build asks persistent sse2, scalar and release builds for their full view of every line and compares. " + T),
 "C05": ("differential and metamorphic property-based testing of the owned and borrowed forms", T),
 "C06": ("property-based testing against an independent table of names, near misses included", "The table is transcribed from Twitch's documentation and the names the library listed at the pinned commit. " + T),
 "C07": ("round-trip and differential property-based testing", T),
 "C08": ("property-based testing against construction: all message types tried on each generated line", T),
 "C09": ("property-based testing: mandatory elements removed or invalidated, optional ones removed", T),
 "C10": ("property-based testing against construction (every getter)", T),
 "C11": ("property-based testing against construction, all subsets of the reply and Hype Chat tags", T),
 "C12": ("property-based testing against construction (every event and parameter)", T),
 "C13": ("property-based testing against construction", T),
 "C14": ("property-based testing against construction", T),
 "C15": ("property-based testing against construction, all subsets of settings, boundary values", T),
 "C16": ("property-based testing against construction", T),
 "C17": ("property-based testing against construction", T),
 "C18": ("property-based testing against construction, over every badge-carrying type", T),
 "C19": ("property-based testing against construction with an independent /me rule", T),
 "C20": ("metamorphic property-based testing: tag permutation and insertion of unrelated tags", T),
 "C21": ("metamorphic property-based testing: owned form and clones compared after the input is overwritten", T),
 "C22": ("round-trip property-based testing through JSON, object keys permuted", T),
 "C33": ("metamorphic property-based testing: placement in guarded memory, neighbours, history, threads", T),
 "C37": ("metamorphic property-based testing: pairs of messages that differ in one element, pairs and triples of names", T),
 "C38": ("property-based testing with a counting allocator: peak while reading, balance after dropping", "The bound is 300 bytes per byte of the line plus 64 KiB; the most the unchanged code takes is about a fifth of it. " + T),
 "C35": ("property-based testing; exhaustive over the u8 domain and the ten names", T),

 "C23": ("property-based testing of every command over a simulated peer, exact expected bytes and an independent IRC reader as oracles", N),
 "C24": ("stateful property-based testing: histories of sends against short writes, pending writes and a buffering transport", N),
 "C25": ("stateful property-based testing: generated lines, fragmentations, receive styles and faults against the list of lines sent", N),
 "C26": ("property-based testing of the lookups, TLS requests and first bytes over generated configurations", N),
 "C27": ("property-based testing: generated server answers against a reference classifier of welcomes and refusals", N),
 "C28": ("stateful property-based testing in virtual time: generated failure schedules against the backoff formula", N),
 "C29": ("stateful property-based testing: histories of sends, faults and reconnects, each connection's bytes against its own session", N),
 "C30": ("property-based testing: generated credentials and histories; every observable sink (wire, Debug, errors, log events) searched for the token", N),
 "C31": ("property-based testing of configuration and credentials against construction", N),
 "C32": ("stateful property-based testing: histories of messages against the alternation rule", N),
 "C34": ("property-based testing: every io::ErrorKind and generated connection faults against the classification", N),
 "C36": ("property-based testing in virtual time: generated stalls at each step against the timeout", N),
 "C40": ("stateful property-based testing of several clients at the same time, each against what it would do alone", N),
 "C39": ("stateful property-based testing with a counting allocator: the same history three times longer, more reconnects, more clients", N),
}
