# prose per property: (how it is decided, why tests cannot settle it / bounds)
D = {}
D['A01'] = ("Session: make a predicate client, query, reconstruct two arbitrary answers (structured and byte interfaces). Every return of a number must be reached only through a loop over all MAC keys that leaves with an error unless `key*aggregate = tag` as terms modulo the prime; keys are traced from the draw to both the generated keys and the test.",
 "All answers, all keys, any number of MAC keys. A test samples a few tampered answers; a test over the first tag only (planted a01) passes them all.")
D['A02'] = ("Session over the LWE clients of both moduli; the loop over all columns must leave with an error unless the column minus `secret*digest` lies within the bound of 0 or of the scaling value of the same query.",
 "Every column, every noise value; tests tamper with one column.")
D['A03'] = ("Session over the amplified client; the loop of Boyer-Moore votes is summarised per iteration (transfer of candidate and counter), and the returned bit must have passed a full recount.",
 "All orders of outputs: the shipped bug (fixed 04904cc) passed the tests because the first output had the majority.")
D['A04'] = ("As A02, with a normal form for group elements (multiset of bases with exponents).", "Every row; all answers.")
D['A05'] = ("All paths of point reconstruction, by database type; the rules of the proof verifier (A06) are included, as a forged proof may also be let through there.", "All blocks, proofs, positions, types.")
D['A06'] = ("Verifier, tree construction, proof generation and database builders are each reduced to the fold they compute; the index arithmetic of all levels must agree.", "All tree sizes and positions; tests use one shape.")
D['A07'] = ("Every client program and handler is one flow graph; the creation of a client must be dominated, for each metadata field, by a loop over all servers' metadata that leaves on a difference.", "All servers' answers; no test starts the programs.")
D['A08'] = ("Every index and slice expression on bytes (or messages) received from a server is an obligation `0 <= i < len`, discharged by linear facts on the path; counts and lengths of answers must have been tested before a value is returned.", "All answers of all lengths.")
D['P01'] = ("Every draw reachable from clients: its source, the bytes filled, the error, and that each key/seed/secret is a draw of its own (terms carry the occurrence of the fill, so that reuse shows as equal terms).", "A distributional property of all runs; a test sees a single draw.")
D['P02'] = ("The term of each message sent on connection j is compared with what server j may see; a whole-repository taint closure follows draws, keys, client state and query input to logs and errors.", "All programs, all queries; tests never look at what is sent.")
D['P03'] = ("Key generation for a symbolic number of elements is summarised byte by byte; evaluation expands with the same terms.", "Any number of elements: the shipped bug (fixed d690c5f) masked element 0 only, and every functional test passed.")
D['P04'] = ("Symbolic summary of the query for any number of servers and columns; an accumulator rule proves that the XOR is the unit vector.", "All numbers of servers and columns.")
D['P05'] = ("Two successive queries of one client are summarised and compared with secret*matrix + error + scaling at the position, element by element.", "A functional test passes with the error or the mask missing.")
D['P06'] = ("Linear facts that hold at every draw and every successful return.", "All server counts and positions.")
D['C01'] = ("Accumulations of each answer as closed forms; loops must have as many iterations as the data has records, with no way out; the C kernels' loops from clang's AST.", "All sizes, cores and parallel partitions.")
D['C02'] = ("Value and control flow from ambient sources (clock, zone, randomness, environment, map order) into answers; scratch memory kept between queries must be filled before it is read; package variables must be constant.", "Histories and environments cannot be sampled.")
D['C03'] = ("Interprocedural write effects of request processing, with the lock set at each access of memory that outlives the request.", "All schedules.")
D['C04'] = ("For each of the modes of a predicate the bits on both sides are abstract streams (source, offset, order), which must be equal; everything the record is compared by is followed from the record.", "All identifiers, prefixes, dates.")
D['C05'] = ("`decode(encode(x))` is one flow graph; element k of the result must be element k of the input for symbolic k and size, and refusals unreachable; who-encodes-what-for-whom pairs are compared at call sites.", "All values and sizes.")
D['C06'] = ("Provenance of every metadata field on both sides, by terms.", "All databases: tests of these messages do not exist.")
D['C07'] = ("The stored digest must be the term `public matrix * matrix served`, the public matrix the one clients derive from the same seed and dimensions; row and global digests as for C01.", "All databases, rows and routines.")
D['C08'] = ("Typestate (sorted before order matters) and bucket equations of the table's builders; the client's index term.", "All key sets and map orders.")
D['C09'] = ("Dominance of the tests before every store into the key map, typestate of buffers (one entity each), loops that end on io.EOF only.", "All dumps.")
D['C10'] = ("Constants and parameter terms; the sampler's table is recomputed from the documented width; client, server and keys of a scheme must be built for the same size, and scheme names mean the same on both sides.", "Security floors are not behaviour that a test observes.")
D['L01'] = ("Typestate and happens-before of the request and reply channels, over handlers, worker and shutdown of every server program.", "All schedules, queries, cancellations.")
D['L02'] = ("Each RPC site with the loop, channel and wait group around it: trip counts as terms, sends per iteration, waits before combining, failure paths.", "All numbers of servers, all orders of arrival, failures at each server.")
D['L03'] = ("From the error of each fallible step all paths are followed with the error non-nil; outputs that depend on the step, or a quiet end, are violations.", "Faults at each step.")
D['L04'] = ("Origin of the credentials of each Dial and NewServer; message sizes as constants.", "No test makes connections.")
D['L05'] = ("Path-sensitive error flow and coverage of the loop that fills the address list.", "All configuration files.")
D['L06'] = ("Largest index of each kernel access (over its loops) against the length of the buffer passed, as terms; representation invariant of matrices at every constructor; width of the index arithmetic.", "All dimensions; needs > 4 GiB inputs to show (planted/fixed a225bde).")
D['L07'] = ("Intervals of all field computations, with accumulators widened by growth per iteration times 2^31.", "All values; overflow needs rare sums.")
D['L08'] = ("Client, server and their constructors flattened together; kind and party as terms.", "All numbers of servers and all index assignments.")
