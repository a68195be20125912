#!/usr/bin/env python3
# Writes ../properties.jsonl. One entry per property; kept as code so the wording is easy to edit.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    anchors={"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}
    if isinstance(kw.get("observe_at"),str): kw["observe_at"]=[kw["observe_at"]]
    anchors.update(kw)
    m={"adversary":"inputs","executions":"histories","sizes":"inputs","environments":"configurations","faults":"fault_sequences"}
    over=list(dict.fromkeys(m.get(o,o) for o in over))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":anchors})

# ---- integrity -------------------------------------------------------------
p("A01","Authenticated aggregates are accepted only with valid tags",
 "An authenticated predicate query (count, conjunction or average) returns a number only if, for every one of the independent secret MAC keys drawn for that query, the recombined tag of every returned aggregate equals that key times the recombined aggregate. If any tag differs, or if the two answers do not have the same expected shape, the client returns an error and no number. The number returned is the one that was verified (for an average, verified sum over verified non-zero count).",
 ["inputs","adversary"],"for all answers of a malicious server, all keys and all positions of the tag vector",
 "Tests only run honest servers: a skipped, weakened or re-ordered tag check returns the same numbers. An adversarial answer must be refused for every choice of which tags are wrong.",
 ["lib/client/fss.go","lib/client/predicate_apir.go","lib/field/field.go"],
 [("tag comparison of every execution","lib/client/fss.go reconstruct"),("number of keys","lib/client/predicate_apir.go NewPredicateAPIR"),("key sampling","lib/client/fss.go query")],
 observe_at="value and error returned by the predicate clients' reconstruction")
p("A02","LWE retrieval is accepted only if every column decodes",
 "The LWE-based clients (both moduli) return a bit only if, after removing the masked digest, every column of the answer is within the noise bound of either zero or the secret scaling value of that query; one column outside refuses the whole answer. The returned bit is the one decoded from the queried column: 1 if and only if that column is near the scaling value.",
 ["inputs","adversary"],"for all server answers, all columns, all query positions",
 "Honest answers always decode, so skipping columns, widening the interval or returning another column is invisible on the sampled databases.",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/utils/lwe.go"],
 [("range test of every column","lib/client/lwe.go, lib/client/lwe128.go Reconstruct"),("noise bound","lib/utils/lwe.go")])
p("A03","Amplified retrieval needs every repetition and a strict majority",
 "The amplified LWE client returns a bit only if every repetition is accepted with its own fresh query state, and the bit is a value held by strictly more than half of the decoded repetitions, whatever their order. If no value has a strict majority, or one repetition is refused, it returns an error.",
 ["inputs","adversary"],"for all vectors of repetition outputs and all patterns of refused repetitions",
 "Tests use honest servers, for which all repetitions agree; wrong candidates, ties and partial refusals never occur.",
 ["lib/client/amplify.go","lib/ecc/ecc.go","lib/server/amplify.go"],
 [("per-repetition acceptance","lib/client/amplify.go Reconstruct"),("majority decoding","lib/ecc/ecc.go Decode")])
p("A04","DH retrieval is accepted only if every row tag checks",
 "The Diffie-Hellman client is created only for row digests that hash to the global digest, and returns a bit only if, for every row, the answer corrected by that row's digest and the secret exponent is the identity or the query's secret blinding element; the answer must have one element per row. The returned bit is that of the queried row.",
 ["inputs","adversary"],"for all answers, all rows and all digests",
 "A dropped row check or digest check changes nothing when the server is honest, which is the only case tested.",
 ["lib/client/dh.go","lib/database/elliptic.go"],
 [("digest check","lib/client/dh.go NewDH"),("row check","lib/client/dh.go ReconstructBytes")])
p("A05","A Merkle-authenticated block is returned only if its proof verifies",
 "For a Merkle-authenticated database the client returns a block only if the proof it carries verifies against the database root for exactly the returned bytes and for the queried position; every other outcome is an error. An authenticated database is never read through the unauthenticated path, and an unknown database type is refused.",
 ["inputs","adversary"],"for all reconstructed blocks, proofs, roots and positions",
 "Tests retrieve honest blocks; a verification that is skipped, made against other bytes, another root or another position succeeds on all of them.",
 ["lib/client/client.go","lib/merkle/proof.go","lib/client/pir_point.go"],
 [("proof verification","lib/client/client.go reconstructPIR"),("proof hash","lib/merkle/proof.go")])
p("A06","Tree construction, proofs and verification use the same hashing",
 "The Merkle tree, its proofs and the verifier agree for every position and tree size: leaves bind the data and its position, inner nodes hash left then right, the proof lists the siblings from the leaf to below the root and the verifier orders each pair by the corresponding bit of the position. Every stored block is followed by the proof of its own position, also when several blocks are equal, and the advertised proof length is the length of these proofs.",
 ["inputs","sizes"],"for all tree sizes, positions and block contents, duplicates included",
 "Tests sample random distinct blocks; equal blocks, non-powers of two and missing bindings of position or order do not show.",
 ["lib/merkle/merkletree.go","lib/merkle/proof.go","lib/database/merkle.go","lib/database/pgp.go"],
 [("tree","lib/merkle/merkletree.go"),("proofs","lib/merkle/proof.go"),("stored blocks","lib/database/merkle.go generateMerkleProofs")])
p("A07","Clients accept database metadata only if all servers agree on it",
 "A client that learns the database's shape from the servers uses it only if all servers report the same number of rows and columns, block size, database type, proof length and root; otherwise it stops. When the user asked for authenticated point retrieval, metadata announcing an unauthenticated database is refused.",
 ["adversary","configurations"],"for all metadata reports of any subset of servers",
 "No test runs several servers with different metadata.",
 ["cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/client/client.go"],
 [("comparison","equalDBInfo; Actor.GetDBInfos"),("downgrade check","cmd/grpc/client/main.go exec")])
p("A08","Answers of the wrong shape are refused before use",
 "Before combining answers, clients check that the number and length of the answers (and of a proof inside a block) are those expected for the query, and otherwise return an error: no value is produced from truncated, padded or missing answers, and the point, proof, predicate and Diffie-Hellman decoders do not index outside what they received.",
 ["inputs","adversary"],"for all byte strings received from servers",
 "Tests feed well-formed answers only.",
 ["lib/client/client.go","lib/client/fss.go","lib/client/dh.go","lib/merkle/proof.go","lib/database/elliptic.go","lib/matrix/matrix.go","lib/matrix/matrix128.go"],
 [("length checks","reconstructValuePIR, reconstruct, DecodeProof, UnmarshalGroupElements, BytesToMatrix")])
# ---- privacy ---------------------------------------------------------------
p("P01","Every secret is fresh, full-length cryptographic randomness",
 "All secrets a client draws (MAC keys, key seeds, shares, LWE secrets, scaling values and noise, blinding scalars) come from the cryptographic generator, are drawn anew for every query and every repetition, fill their whole buffer, and a failing generator stops the query. MAC keys and other field elements are drawn from the whole field by masking and rejection; generator keys come from the operating system.",
 ["executions","inputs"],"for all queries of a client, in any sequence, and all behaviours of the random source",
 "Weak, reused or partly zero randomness gives correct results; tests cannot observe entropy.",
 ["lib/client/*.go","lib/field/field.go","lib/fss/client.go","lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/utils/rand.go","lib/utils/gauss.go"],
 [("sampling","field.RandElementWithPRG, matrix.NewRandom, fss.GenerateTreePF, secretShare"),("generator","lib/utils/rand.go")])
p("P02","Each server sees only its own share of the query",
 "The message sent to a server carries that server's key or share and public query parameters only: never the predicate input, the queried position, another server's share, nor any client secret; and no secret drawn by the client, key, share or client state is written to a log or an error message, nor does the library log the input of a query. The j-th share is sent to the j-th server of the configuration and to no other.",
 ["inputs","configurations"],"for all queries, all numbers of servers",
 "Leaking more than the share does not change any answer.",
 ["lib/client/fss.go","lib/client/pir_point.go","lib/query/query.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/client/client.go"],
 [("query message","lib/client/fss.go query, queryBytes"),("dispatch","runQueries, Actor.GetKey, Actor.RunQueries")])
p("P03","Every element of a predicate key is masked by pseudorandom output",
 "In a pair of predicate keys the two seeds are independent, the control bits are complementary, the correction words are common, and each element of the final correction word is masked by output of the pseudorandom function expanded from both parties' last seeds, for every number of elements. Key generation and evaluation expand seeds identically.",
 ["inputs","sizes"],"for all predicate inputs, lengths and numbers of elements",
 "An element sent in the clear is reconstructed just as well, so tests pass while a server learns MAC keys or a bit about the predicate.",
 ["lib/fss/client.go","lib/fss/common.go","lib/fss/server.go"],
 [("final correction word","lib/fss/client.go GenerateTreePF"),("expansion","lib/fss/common.go convertBlock, prf")])
p("P04","Point-query shares recombine to exactly the queried column",
 "The shares of a point query for three or more servers are one vector per server, of one bit per column: all but one are fresh, pairwise disjoint pieces of randomness over their whole length and the XOR of all of them has a single one, at the queried column. With two servers the shares are the two keys of a distributed point function for that column over a domain that covers all columns.",
 ["inputs","configurations"],"for all positions, numbers of columns and numbers of servers",
 "Reused or zero shares still recombine to the right column; tests see only the result.",
 ["lib/client/pir_point.go","lib/server/point.go"],
 [("sharing","lib/client/pir_point.go secretShare, Query")])
p("P05","Single-server queries mask every position alike",
 "An LWE query is secret times public matrix plus a Gaussian error in every coordinate plus the scaling value at the queried row only; a Diffie-Hellman query has for every column that column's base raised to the same secret scalar, with the second secret blinding added at the queried column only. No position is left unmasked or recognisable.",
 ["inputs"],"for all positions, numbers of rows and columns",
 "An unmasked or distinguishable position decodes correctly.",
 ["lib/client/lwe.go","lib/client/lwe128.go","lib/client/dh.go","lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/utils/gauss.go"],
 [("LWE query","lib/client/lwe.go Query"),("DH query","lib/client/dh.go QueryBytes")])
p("P06","Queries the scheme cannot protect are refused",
 "Predicate clients emit queries for exactly two servers only, and point clients only for at least two servers and a non-negative position; otherwise they stop before drawing or emitting anything. An undecodable query is an error.",
 ["inputs","configurations"],"for all positions and numbers of servers",
 "Tests use valid numbers of servers and positions.",
 ["lib/client/client.go","lib/client/fss.go","lib/client/pir_point.go"],
 [("guards","invalidQueryInputsIT, invalidQueryInputsFSS")])
# ---- server correctness ------------------------------------------------------
p("C01","Every record contributes exactly once to an answer",
 "For every database size, an answer combines every record exactly once: all rows and columns of the point, LWE, amplified and Diffie-Hellman databases, all keys in predicate queries, all elements of each accumulated vector; predicate evaluation skips a record only if the predicate's field does not exist in it or its date is not usable, on every element alike. The native kernels cover the full index ranges.",
 ["inputs","sizes"],"for all database sizes, shapes and block lengths",
 "A skipped first or last record, or a size-dependent split, shows only for particular sizes and positions.",
 ["lib/server/*.go","lib/matrix/matrix.c","lib/matrix/matrix.go","lib/matrix/matrix128.go"],
 [("accumulation loops","lib/server/fss.go answer; point.go Answer, xorValues; dh.go AnswerBytes, processRows"),("kernels","lib/matrix/matrix.c")])
p("C02","Answers depend only on the query and the database",
 "A server's answer is a function of the query, the database and the server's index: it does not depend on the clock, the time zone, randomness, map iteration order, the number of cores, nor on earlier or concurrent queries. The same holds for mapping bytes to field elements and for matching a record to a predicate, on which both servers must agree.",
 ["executions","schedules","environments"],"for all histories, clocks, time zones and servers",
 "Tests run both servers in one process at one moment, so shared ambient state agrees by accident.",
 ["lib/server/*.go","lib/query/query.go","lib/field/field.go","lib/fss/*.go"],
 [("answering","lib/server AnswerBytes of all schemes")])
p("C03","Answering never changes the database and is safe under concurrency",
 "Processing a query never writes to the database or to its metadata, and two queries processed concurrently by one server do not interfere: memory shared between queries is written only under a lock held for the whole evaluation.",
 ["schedules","histories"],"for all interleavings of queries on one server",
 "Interference needs particular interleavings; tests are sequential.",
 ["lib/server/*.go","lib/fss/server.go","lib/fss/common.go","simulations/multi/server/server.go"],
 [("shared scratch","lib/server/fss.go serverFSS"),("answer functions","lib/server")])
p("C04","Client and server encode a predicate the same way",
 "For every predicate (exact, prefix or suffix match on the user id, key algorithm, creation time, conjunction with the year, average) the bits the client puts in the key are the bits the server derives from a matching record: same field, same part of it, same byte and bit order, same order of conjuncts. A record too short for a requested prefix or suffix never matches.",
 ["inputs"],"for all query strings, lengths and records",
 "Tests use one string per predicate; agreement must hold for every length and field.",
 ["lib/query/query.go","lib/server/fss.go","lib/utils/encoding.go"],
 [("encodings","lib/query/query.go IdFor..., To...ClientFSS"),("server side","lib/server/fss.go answer")])
p("C05","Decoders invert encoders",
 "Every wire encoding is inverted by its decoder for all values and sizes: integer slices, matrices of both moduli, lists of matrices, group elements, Merkle proofs and block padding use the same widths, byte orders, offsets and headers on both sides, and none drops or truncates data.",
 ["inputs","sizes"],"for all values and dimensions",
 "Round trips are tested for a few random shapes; header, order or truncation faults can cancel out or need large values.",
 ["lib/utils/encoding.go","lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/database/elliptic.go","lib/merkle/proof.go","lib/database/pgp.go"],
 [("codecs","the encode/decode pairs of these files")])
p("C06","Database metadata reaches the client unchanged",
 "The metadata a server sends is that of the database it answers from, field by field: rows, columns, block size, type, root and proof length are taken from the corresponding fields and restored into the corresponding fields by every client.",
 ["configurations"],"for all databases and all client programs",
 "No stable test exercises the remote metadata exchange.",
 ["cmd/grpc/server/main.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/server/server.go","simulations/multi/client/client.go"],
 [("server side","DatabaseInfo handlers"),("client side","dbInfo; server.getDBInfo")])
p("C07","Published digests bind the database that is served",
 "The LWE digest is the product of the public matrix (same seed and dimensions as the client's) and the very matrix the server answers from, for both moduli; the Diffie-Hellman row digests cover every row and column of the served entries with the same index-to-group hash the client queries with, and the global digest hashes all row digests in order, for every number of rows and routines.",
 ["inputs","sizes"],"for all database shapes and numbers of routines",
 "Digest faults that depend on the shape (splits over routines, left-over rows) or affect both sides alike are not sampled.",
 ["lib/database/lwe.go","lib/database/lwe128.go","lib/database/elliptic.go","lib/client/lwe.go","lib/client/lwe128.go"],
 [("digests","Digest, Digest128, CreateRandomEllipticWithDigest, computeDigests")])
p("C08","All servers build the same key table and clients look in the right bucket",
 "Building the key database from the same files gives the same table on every server: keys are put in a total order before anything depends on it and no map iteration order reaches the table; each key is stored in the bucket its id hashes to over the number of blocks, and clients query that same bucket index over the same number of blocks, big-endian on both sides. Every bucket keeps its own length and position.",
 ["inputs","executions"],"for all key files, iteration orders and ids",
 "The stable tests have no key files; order dependence is a matter of chance.",
 ["lib/database/pgp.go","lib/database/db.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","lib/client/pir_point.go"],
 [("table","GenerateRealKeyBytes, GenerateRealKeyMerkle, makeHashTable, sortById"),("lookup","HashToIndex and its callers")])
p("C09","Only usable keys are published and only the requested key is returned",
 "When a dump is processed, revoked keys, keys without e-mail address and keys above the size limit are left out, the most recent key of an address is kept, every other key is written with exactly its own bytes under its address; reading the files back stops at the first error instead of skipping it. A client returns a key from a block only if the key's primary address is the requested one.",
 ["inputs"],"for all dumps, key orders and blocks",
 "The tests for this need data files that are absent; order and error cases are not sampled.",
 ["lib/pgp/pgp.go"],
 [("filter","saveKeyIfValid"),("writer/reader","WriteKeysOnDisk, LoadKeysFromDisk"),("lookup","RecoverKeyFromBlock")])
p("C10","Security parameters meet their floors and agree on both sides",
 "Predicate authentication uses at least four field elements of 31 bits as tags, on client and server alike; the LWE parameters have at least the documented dimension, noise width and modulus for each variant; the noise bound used in decoding is derived from the same number of rows the query is made for; proofs and trees use 32-byte hashes. Client and server of a scheme are built with the same number of elements.",
 ["configurations"],"for all constructors of all schemes and all database sizes",
 "Weaker parameters give the same answers, only with less security.",
 ["lib/field/field.go","lib/utils/lwe.go","lib/client/predicate_apir.go","lib/server/predicate_apir.go","lib/merkle/hash.go"],
 [("parameters","field constants, ParamsDefault, ParamsDefault128, computeB")])
# ---- system -----------------------------------------------------------------
p("L01","Every query request gets exactly one reply and no query stops the server",
 "The query server replies to every accepted request exactly once, with the answer to that request's query or with an error; a malformed query yields an error and later queries are still answered. Neither a client that gives up nor a shutdown makes the worker block or panic: pending requests are finished before the worker is stopped.",
 ["schedules","inputs","faults"],"for all interleavings of requests, cancellations and shutdown, and all query bytes",
 "Needs cancellations, malformed input or shutdown at particular moments; no stable test runs the server program.",
 ["cmd/grpc/server/main.go","simulations/multi/server/server.go"],
 [("worker","startWorker, stopWorker, Query")])
p("L02","Clients collect exactly one answer from every server, without deadlock",
 "Clients connect to every configured server, send each its query, wait for all answers before combining them, and combine exactly one answer per server; a server that fails stops the operation instead of leaving a partial set. The collection cannot deadlock for any number of servers or order of arrival.",
 ["schedules","faults","configurations"],"for all arrival orders and numbers of servers",
 "Scheduling of the replies is not controlled by tests, and no stable test runs a client program.",
 ["cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","simulations/multi/client/client.go"],
 [("fan-out","runQueries, retrieveDBInfo, Actor.GetKey, Actor.RunQueries, Actor.GetDBInfos")])
p("L03","A failed or refused retrieval is never presented as a result",
 "In every client program, if building the query, contacting a server, reconstruction or key recovery fails, the error is reported and no result is printed, returned or sent to the browser; after an error response nothing else is written. Errors of these steps are never discarded.",
 ["inputs","faults"],"for all failures at any step of any client program",
 "Error paths of the programs are not executed by the tests.",
 ["cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","cmd/grpc/client/interactive/mod.go","cmd/grpc/client/web/mod.go","simulations/multi/client/client.go"],
 [("error handling","retrieveKeyGivenId, retrieveComplexQuery, GetKey, executeStatsQuery, HTTP handlers")])
p("L04","All client-server traffic is authenticated TLS",
 "Every connection a client opens to a query server uses TLS with the certificates pinned for the servers and verifies the server, and every server listens with TLS using its own certificate; no plaintext or unverified transport exists. Message size limits of client and server match, so that large answers are not lost.",
 ["configurations"],"for all dial and listen sites in all programs",
 "Unit tests never open a network connection; an unverified connection works just as well.",
 ["lib/utils/tls.go","cmd/grpc/client/main.go","cmd/grpc/client/manager/mod.go","cmd/grpc/server/main.go","simulations/multi/client/client.go","simulations/multi/server/server.go"],
 [("credentials","LoadServersCertificates, ServerCertificates"),("dial/listen","grpc.DialContext, grpc.NewServer call sites")])
p("L05","Server configuration is loaded completely or refused",
 "The list of server addresses contains, at the position of each server's index, that server's address, for every index from zero to the number of servers minus one; a configuration with unreadable, missing, negative or duplicate indices is an error, never a panic or a list with holes.",
 ["inputs"],"for all configuration files",
 "Tests do not load malformed configurations.",
 ["lib/utils/config.go"],[("loading","lib/utils/config.go LoadConfig")])
p("L06","Native kernels never read or write outside their matrices",
 "Every call of a native matrix kernel passes buffers that hold at least as many elements as the dimensions passed with them, also for matrices decoded from the network, and the kernels index only within these dimensions. No slice is given a length larger than its backing array.",
 ["inputs","sizes"],"for all matrices, including those received from the network",
 "Out-of-bounds native accesses are often silent, and malformed dimensions are not tested.",
 ["lib/matrix/matrix.go","lib/matrix/matrix128.go","lib/matrix/matrix.c"],
 [("dimension checks","BytesToMatrix, BinaryMul, Mul and the 128-bit versions")])
p("L07","Field arithmetic never overflows and stays reduced",
 "Every sum and product of field elements in key generation, evaluation, answering and reconstruction is computed in a type wide enough for all operand values and reduced to at most the field prime before it is used again, so that no wrap-around occurs for any values.",
 ["inputs"],"for all operand values, including the largest field elements",
 "Wrap-around needs operands near the modulus, which random tests rarely hit in the combinations that matter.",
 ["lib/client/fss.go","lib/server/fss.go","lib/fss/client.go","lib/fss/server.go","lib/field/field.go"],
 [("arithmetic","all arithmetic on uint32/uint64 in these files")])
p("L08","Servers evaluate the kind and index of key the client made for them",
 "The server with configuration index j evaluates predicate keys as party j, the client's j-th key; point servers evaluate queries as distributed point function keys exactly when the client produces such keys, namely when there are two servers, over the same domain size, and as bit vectors otherwise.",
 ["configurations"],"for all numbers of servers and server indices",
 "Tests call the servers directly; the programs choosing the mode and index are not executed.",
 ["cmd/grpc/server/main.go","simulations/multi/server/server.go","lib/server/point.go","lib/server/fss.go","lib/client/pir_point.go"],
 [("mode selection","NewPIR/NewPIRTwo call sites; PIR.Answer"),("party index","NewPredicateAPIR/NewPredicatePIR call sites")])
# ---- declined -----------------------------------------------------------------
p("N01","LWE and DH queries are computationally indistinguishable",
 "For any two positions, the distributions of the single-server queries are computationally indistinguishable under the decisional LWE and Diffie-Hellman assumptions for the parameters used.",
 ["adversary"],"for all efficient adversaries","A statement about distributions and hardness.",
 ["lib/client/lwe.go","lib/client/dh.go"],[("query","Query, QueryBytes")])
p("N02","Noise sampler follows the discrete Gaussian it documents",
 "The error sampler's output distribution is within negligible statistical distance of the discrete Gaussian of the documented width.",
 ["executions"],"for all sample sizes","A statistical property of a numeric table.",
 ["lib/utils/gauss.go"],[("table","cdf_table, GaussSample")])
p("N03","Honest predicate counts are exact for every database and predicate",
 "For every database and predicate the recombined answer of honest servers equals the number of matching records (or the truncated average), below the field prime.",
 ["inputs"],"for all databases and predicates","Quantifies over all numeric inputs of the whole protocol.",
 ["lib/fss","lib/server/fss.go"],[("evaluation","EvaluatePF, GenerateTreePF")])
p("N04","Response time and size do not reveal the query",
 "Time to answer, and the time the client takes to accept or reject, are independent of the queried position and predicate input.",
 ["executions"],"for all inputs","A timing property of the compiled code and hardware.",
 ["lib/server","lib/client"],[("answering","AnswerBytes")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
for q in P:
    assert len(q["title"])<=80,q["id"]
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
