From d690c5f690266ee1299c0a045b0ffa948a07d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 01/32] fix: mask every element of an FSS key with PRF output

convertBlock rounded the number of AES blocks down, so with 5 (or 1) elements
the last (or only) one was never masked and was sent in the clear, up to its
sign, to both servers.
---
 lib/fss/common.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..9a9d11f 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -66,7 +66,20 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 }
 
 func convertBlock(f Fss, x []byte, out []uint32) {
-	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	// we can generate four uint32 numbers with a 16-bytes AES block; round the
+	// number of blocks up, so that every element comes from the PRF output
+	numBlocks := (len(out)*field.Bytes + aes.BlockSize - 1) / aes.BlockSize
+	in := make([]byte, aes.BlockSize)
+	for i := 0; i < numBlocks; i += len(f.FixedBlocks) {
+		n := numBlocks - i
+		if n > len(f.FixedBlocks) {
+			n = len(f.FixedBlocks)
+		}
+		// there are only len(f.FixedBlocks) keys: separate their reuses with
+		// a counter in the input
+		copy(in, x)
+		in[aes.BlockSize-1] ^= byte(i / len(f.FixedBlocks))
+		prf(in, f.FixedBlocks, uint(n), f.Temp, f.OutConvertBlock[i*aes.BlockSize:])
+	}
 	field.BytesToElements(out, f.OutConvertBlock)
 }
-- 
2.43.0


From bb5aebe0c507d3c7beb9c5266cca114e584ff736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 02/32] fix: map bytes to field elements deterministically

Both FSS parties expand the same seeds: resampling with fresh randomness (and
without clearing the top bit) made them disagree.
---
 lib/field/field.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..74d3fb6 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -35,13 +35,9 @@ func toElement(in []byte) uint32 {
 	//out := *(*uint32)(unsafe.Pointer(&in))
 	out := binary.BigEndian.Uint32(in[:Bytes])
 	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
+	// (both FSS servers must map the same bytes to the same element)
+	if out == ModP {
+		out = 0
 	}
 	return out
 }
-- 
2.43.0


From 01c9cb39f0342439dfb7ef32e851e9c534d20728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 03/32] fix: never use a partially filled random buffer

io.Reader may return fewer bytes than asked for; the rest of the secret (or of
the shares) would stay zero.
---
 lib/client/pir_point.go  | 2 +-
 lib/database/bytes.go    | 2 +-
 lib/database/elliptic.go | 2 +-
 lib/database/lwe.go      | 2 +-
 lib/database/lwe128.go   | 2 +-
 lib/database/merkle.go   | 2 +-
 lib/field/field.go       | 4 ++--
 lib/fss/client.go        | 8 ++++++--
 lib/matrix/matrix.go     | 2 +-
 lib/matrix/matrix128.go  | 2 +-
 10 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 1be9dc8..c626067 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -91,7 +91,7 @@ func (c *PIR) secretShare(numServers int) ([][]byte, error) {
 	// Get random elements for all numServers-1 vectors.
 	// This is faster than extracting single bits
 	rand := make([]byte, (numServers-1)*vectorLen)
-	if _, err := c.rnd.Read(rand); err != nil {
+	if _, err := io.ReadFull(c.rnd, rand); err != nil {
 		return nil, err
 	}
 
diff --git a/lib/database/bytes.go b/lib/database/bytes.go
index e3ef760..fb322f8 100644
--- a/lib/database/bytes.go
+++ b/lib/database/bytes.go
@@ -49,7 +49,7 @@ func InitBytes(numRows, numColumns, blockLen int) *Bytes {
 func CreateRandomBytes(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
 	// sample random entries
 	entries := make([]byte, dbLen/8)
-	if _, err := rnd.Read(entries); err != nil {
+	if _, err := io.ReadFull(rnd, entries); err != nil {
 		log.Fatal(err)
 	}
 
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..f22b72e 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -22,7 +22,7 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 	// read random bytes for filling out the entries
 	// For simplicity, we use the whole byte to store 0 or 1
 	data := make([]byte, numRows*numColumns)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		log.Fatal(err)
 	}
 	for i := 0; i < len(data); i++ {
diff --git a/lib/database/lwe.go b/lib/database/lwe.go
index 62937ad..57bb5f3 100644
--- a/lib/database/lwe.go
+++ b/lib/database/lwe.go
@@ -33,7 +33,7 @@ func CreateRandomBinaryLWE(rnd io.Reader, numRows, numColumns int) *LWE {
 	m := matrix.NewBytes(numRows, numColumns)
 	// read random bytes for filling out the entries
 	data := make([]byte, (numRows*numColumns)/8+1)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/database/lwe128.go b/lib/database/lwe128.go
index 811c622..cb39d8b 100644
--- a/lib/database/lwe128.go
+++ b/lib/database/lwe128.go
@@ -31,7 +31,7 @@ func CreateRandomBinaryLWE128(rnd io.Reader, numRows, numColumns int) *LWE128 {
 	// read random bytes for filling out the entries
 	// the +1 takes into account a float division by 8
 	data := make([]byte, numRows*numColumns/8+1)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..ed08684 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -15,7 +15,7 @@ func CreateRandomMerkle(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
 	numBlocks := dbLen / (8 * blockLen)
 	// generate random numBlocks blocks
 	data := make([]byte, numBlocks*blockLen)
-	if _, err := rnd.Read(data); err != nil {
+	if _, err := io.ReadFull(rnd, data); err != nil {
 		log.Fatal(err)
 	}
 
diff --git a/lib/field/field.go b/lib/field/field.go
index 74d3fb6..d872d85 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -47,7 +47,7 @@ func RandElementWithPRG(rnd io.Reader) uint32 {
 	var out = ModP
 	// Make sure that toElement is not equal 2^31 - 1
 	for out == ModP {
-		_, err := rnd.Read(buf[:])
+		_, err := io.ReadFull(rnd, buf[:])
 		if err != nil {
 			panic("error in randomness")
 		}
@@ -65,7 +65,7 @@ func RandElement() uint32 {
 func RandVectorWithPRG(length int, rnd io.Reader) []uint32 {
 	bytesLength := length * Bytes
 	buf := make([]byte, bytesLength)
-	_, err := rnd.Read(buf)
+	_, err := io.ReadFull(rnd, buf)
 	if err != nil {
 		panic("error in randomness")
 	}
diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..e84fe3a 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -44,11 +44,15 @@ func (f Fss) GenerateTreePF(a []bool, b []uint32) []FssKeyEq2P {
 	fssKeys := make([]FssKeyEq2P, 2)
 	// Set up initial values
 	tempRand1 := make([]byte, aes.BlockSize+1)
-	rand.Read(tempRand1)
+	if _, err := rand.Read(tempRand1); err != nil {
+		panic(err.Error())
+	}
 	fssKeys[0].SInit = tempRand1[:aes.BlockSize]
 	fssKeys[0].TInit = tempRand1[aes.BlockSize] % 2
 	fssKeys[1].SInit = make([]byte, aes.BlockSize)
-	rand.Read(fssKeys[1].SInit)
+	if _, err := rand.Read(fssKeys[1].SInit); err != nil {
+		panic(err.Error())
+	}
 	fssKeys[1].TInit = fssKeys[0].TInit ^ 1
 
 	// Set current seed being used
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..9ad191b 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -102,7 +102,7 @@ func BytesToMatrices(in []byte) []*Matrix {
 func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	bytesMod := utils.ParamsDefault().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..904a77a 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -61,7 +61,7 @@ func BytesToMatrix128(in []byte) *Matrix128 {
 func NewRandom128(rnd io.Reader, r int, c int) *Matrix128 {
 	bytesMod := utils.ParamsDefault128().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
-- 
2.43.0


From 6d5874d06f0e7c0fe718454dd7b8806e647d5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 04/32] fix: give random matrices the length of their buffer

Reinterpreting the header of a byte slice kept its length in bytes, four times
the number of elements.
---
 lib/matrix/matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 9ad191b..687421b 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -109,7 +109,9 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	m := New(r, c)
 
 	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	if len(m.data) > 0 {
+		m.data = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(m.data))
+	}
 
 	return m
 }
-- 
2.43.0


From d749eb015464e06b4b9134ec0a4c97d508daf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 05/32] fix: check the announced dimensions of a decoded matrix

The native kernels trust them and would read outside the data of a malformed
query or answer.
---
 lib/matrix/matrix.go    | 3 +++
 lib/matrix/matrix128.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 687421b..197a42b 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -54,6 +54,9 @@ func BytesToMatrix(in []byte) *Matrix {
 	c := in[4:8]
 	cols := int(binary.BigEndian.Uint32(c))
 	data := utils.ByteSliceToUint32Slice(in[8:])
+	if rows < 1 || cols < 1 || len(data)/rows != cols || len(data)%rows != 0 {
+		panic("Dimension mismatch")
+	}
 	return &Matrix{
 		rows: rows,
 		cols: cols,
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 904a77a..d9da7db 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -51,6 +51,9 @@ func BytesToMatrix128(in []byte) *Matrix128 {
 	for i := range data {
 		data[i] = uint128.FromBytes(in[8+i*16:])
 	}
+	if rows < 1 || cols < 1 || len(data)/rows != cols || len(data)%rows != 0 {
+		panic("Dimension mismatch")
+	}
 	return &Matrix128{
 		rows: rows,
 		cols: cols,
-- 
2.43.0


From 87b0b1d04129ce440e0eda49378fa0d2b7f36fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 06/32] fix: refuse negative indices and single-server point
 queries

---
 lib/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..2ad31d8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -88,7 +88,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 
 // return true if the query inputs are invalid for IT schemes
 func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+	return index < 0 || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
-- 
2.43.0


From 04904cc0b7b62a6aae5b86a6c00e7a5caf528346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 07/32] fix: let the majority vote replace its candidate

---
 lib/ecc/ecc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..c20ec1b 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -25,7 +25,10 @@ func (e *ECC) Decode(in []uint32) (uint32, error) {
 	decoded := in[0]
 	votes := 1
 	for i := 1; i < len(in); i++ {
-		if in[i] == decoded {
+		if votes == 0 {
+			decoded = in[i]
+			votes = 1
+		} else if in[i] == decoded {
 			votes++
 		} else {
 			votes--
-- 
2.43.0


From e57eae5f0d642b1fafa2c86d65b0e5d4779a7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 08/32] fix: handle row counts that leave a digest routine
 without rows

---
 lib/database/elliptic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index f22b72e..89da526 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -42,6 +42,9 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 		if end > numRows {
 			end = numRows
 		}
+		if begin > end {
+			begin = end
+		}
 		replyChan := make(chan []byte, 1)
 		replies[i] = replyChan
 		go computeDigests(begin, end, data, numColumns, g, h, replyChan)
-- 
2.43.0


From cb56031a80b644a3acbbe07aaba1d5d5cfa93234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 09/32] fix: stop the worker only after the pending queries are
 answered

A query accepted after close(queryChan) panicked with a send on a closed
channel.
---
 cmd/grpc/server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..2456a8d 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -209,8 +209,8 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0


From 32ae9d095c0d410bbae9ff5d2794559d8dac4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 10/32] fix: answer a malformed query with an error instead of
 crashing the server

---
 cmd/grpc/server/main.go            | 13 ++++++++++++-
 simulations/multi/server/server.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 2456a8d..e668552 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -276,7 +276,7 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 func (s *vpirServer) startWorker() {
 	for wrap := range s.queryChan {
 
-		a, err := s.Server.AnswerBytes(wrap.query.GetQuery())
+		a, err := s.answer(wrap.query.GetQuery())
 		if err != nil {
 			wrap.error <- err
 			continue
@@ -291,6 +291,17 @@ func (s *vpirServer) startWorker() {
 	}
 }
 
+// answer turns a panic caused by a malformed query into an error, so that a
+// client cannot stop the server for everybody else.
+func (s *vpirServer) answer(q []byte) (a []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			a, err = nil, fmt.Errorf("impossible to answer the query: %v", r)
+		}
+	}()
+	return s.Server.AnswerBytes(q)
+}
+
 func (s *vpirServer) stopWorker() {
 	close(s.queryChan)
 }
diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index ed9f8fb..4c7018d 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -219,7 +219,7 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 	*proto.QueryResponse, error) {
 	log.Print("got query request")
 
-	a, err := s.Server.AnswerBytes(qr.GetQuery())
+	a, err := s.answer(qr.GetQuery())
 	if err != nil {
 		return nil, err
 	}
@@ -229,6 +229,16 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 	return &proto.QueryResponse{Answer: a}, nil
 }
 
+// answer turns a panic caused by a malformed query into an error
+func (s *vpirServer) answer(q []byte) (a []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			a, err = nil, fmt.Errorf("impossible to answer the query: %v", r)
+		}
+	}()
+	return s.Server.AnswerBytes(q)
+}
+
 func readServerID() int {
 	file, err := os.Open("sid")
 	if err != nil {
-- 
2.43.0


From 1350c24acf88e7dc3ad8133d471d7379e8a5bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 11/32] fix: evaluate DPF keys when the client sends them

With two servers the point client sends DPF keys, which the gRPC server read
as bit vectors.
---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index e668552..328d916 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// the client sends DPF keys when there are exactly two servers
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From 38a99af1ea5c6bbaacf844c368f9324b24e7b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 12/32] fix: do not print a count after a failed query

---
 cmd/grpc/client/web/mod.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..f4c60e4 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -335,6 +335,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -366,6 +367,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From bedd7b8746d48c40db3385a7c420296e5a2a63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 13/32] fix: unpad empty blocks

A bucket without keys is stored as an empty block.
---
 lib/database/pgp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..c4dd458 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// a block of zeros only has no padding and no data
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From e9086616c52e70ba74705edb5d3c8289d29fd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 14/32] fix: reject configurations with missing or duplicate
 server indices

---
 lib/utils/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index 29686fe..aab5378 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -35,6 +35,10 @@ func LoadConfig(configFile string) (*Config, error) {
 		if err != nil {
 			return nil, xerrors.Errorf("could not convert server index to integer: %v", err)
 		}
+		if i < 0 || i >= len(addresses) || addresses[i] != "" {
+			return nil, xerrors.Errorf("server indices must be 0, ..., %d: got %s",
+				len(addresses)-1, index)
+		}
 		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
 	}
 	c.Addresses = addresses
-- 
2.43.0


From 33cb3eb525b3180cb73b9969d56f557f1cfc6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 15/32] fix: report unreadable keys when loading them

---
 lib/pgp/pgp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pgp/pgp.go b/lib/pgp/pgp.go
index 4c4462f..4d4e706 100644
--- a/lib/pgp/pgp.go
+++ b/lib/pgp/pgp.go
@@ -201,6 +201,9 @@ func LoadAndParseKeys(files []string) ([]*openpgp.Entity, error) {
 	el := make([]*openpgp.Entity, len(keys))
 	for i, key := range keys {
 		entities, err = openpgp.ReadKeyRing(bytes.NewBuffer(key.Packet))
+		if err != nil {
+			return nil, err
+		}
 		if len(entities) != 1 {
 			return nil, errors.New("too many encoded entities")
 		}
-- 
2.43.0


From e44c372c67fac82fa7cfbd189a3f92a8d85c52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 16/32] fix: do not let the local time zone decide what matches
 a date

Servers in different time zones evaluated different strings for the same key.
---
 lib/query/query.go | 4 ++--
 lib/server/fss.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..e575140 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,7 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +199,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..28ea110 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -116,7 +116,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From b1936f14877ac6c3f219ffb708d4f81c75cfad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 17/32] fix: make the average independent of the clocks of the
 servers

The shares of two servers answering in different years do not add up.
---
 lib/query/query.go | 4 ++++
 lib/server/fss.go  | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e575140..ef94be9 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -53,6 +53,9 @@ type Info struct {
 
 	// to perform AVG query
 	Avg bool
+	// RefYear is the year from which the AVG query counts. Chosen by the
+	// client, so that both servers use the same one.
+	RefYear int
 
 	// to perform SUM query
 	// TODO: not implemented yet, but implicitely used in AVG
@@ -143,6 +146,7 @@ func (i *Info) ToAndClientFSS(in string) *ClientFSS {
 // TODO: hardcoded for the moment, FIX
 func (i *Info) ToAvgClientFSS(in string) *ClientFSS {
 	id, _ := i.IdForEmail(in)
+	i.RefYear = time.Now().UTC().Year()
 
 	return &ClientFSS{
 		Info:  i,
diff --git a/lib/server/fss.go b/lib/server/fss.go
index 28ea110..e5ac74a 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -3,7 +3,6 @@ package server
 import (
 	"bytes"
 	"encoding/gob"
-	"time"
 
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/field"
@@ -115,8 +114,8 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
-			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
+			// compute difference in years between the query and creation time
+			diffYears := q.RefYear - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From e2b95474db15ca39d8847f2ec8e7b90a6a644625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 18/32] fix: reject malformed FSS answers and averages over
 nothing

One server could turn an average into a count by shortening its answer, or
crash the client.
---
 lib/client/fss.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..3a21bc0 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -81,6 +81,11 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	if len(answers) != 2 || len(answers[0]) != len(answers[1]) ||
+		(len(answers[0]) != c.executions && len(answers[0]) != 2*c.executions) {
+		return 0, errors.New("REJECT: malformed answers")
+	}
+
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
@@ -111,6 +116,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("no entry to average over")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From d7f969641ddacc25dec5b4a1cbe411464212e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 19/32] fix: serialize concurrent FSS evaluations

The evaluations of one server share temporary slices; concurrent queries
corrupted each other.
---
 lib/server/fss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index e5ac74a..1247d9c 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -3,6 +3,7 @@ package server
 import (
 	"bytes"
 	"encoding/gob"
+	"sync"
 
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/field"
@@ -17,6 +18,7 @@ type serverFSS struct {
 
 	serverNum byte
 	fss       *fss.Fss
+	fssLock   sync.Mutex // protects the temporary slices in fss
 }
 
 func (s *serverFSS) dbInfo() *database.Info {
@@ -39,6 +41,9 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 }
 
 func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
+	s.fssLock.Lock()
+	defer s.fssLock.Unlock()
+
 	numIdentifiers := s.db.NumColumns
 
 	if !q.And && !q.Avg && !q.Sum {
-- 
2.43.0


From 72b998437756961bc6c8e8fc21b0927b95d61ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 20/32] fix: compare all the database information of the
 servers

A single malicious server could supply the Merkle root, or turn the
authentication off, when its information happened to be used.
---
 cmd/grpc/client/main.go            | 6 +++++-
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..70ffda4 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -449,7 +450,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..92b68fd 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..25731c8 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From f972f91c7cf836a6f4e31a12c23ba832dc7ab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 21/32] fix: send each query to the server it was made for

Iterating over the map of connections paired queries and servers at random;
FSS keys evaluated by the wrong server yield the negated count, with valid tags.
---
 cmd/grpc/client/main.go            | 7 +++----
 simulations/multi/client/client.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 70ffda4..6f04785 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -398,14 +398,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for j, addr := range lc.config.Addresses {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 25731c8..b1e1e0b 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -373,14 +373,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for j, addr := range lc.config.Addresses[0:lc.flags.numServers] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
-- 
2.43.0


From 06a87b241714632642f74bcbcc4de43d1f31e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 22/32] fix: refuse an unauthenticated database for
 authenticated retrieval

---
 cmd/grpc/client/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 6f04785..fb247d4 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -158,6 +158,9 @@ func (lc *localClient) exec() (string, error) {
 	// start correct client, which can be either IT or DPF.
 	switch lc.flags.scheme {
 	case "pointPIR", "pointVPIR":
+		if lc.flags.scheme == "pointVPIR" && lc.dbInfo.PIRType != "merkle" {
+			return "", errors.New("the servers do not offer an authenticated database")
+		}
 		lc.vpirClient = client.NewPIR(lc.prg, lc.dbInfo)
 
 		// get id
-- 
2.43.0


From bdf595bcfc183d92a1ef77e4ea03345ed6fddff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 23/32] fix: generate Merkle proofs by position

Equal blocks (for instance, empty buckets) all got the proof of the last one,
and the length of the proofs was computed without the repetitions.
---
 lib/database/merkle.go   |  6 +++---
 lib/merkle/merkletree.go | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index ed08684..36b6cd7 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,10 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+func generateMerkleProofs(data [][]byte, offset int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofForIndex(uint32(offset + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..3520bfb 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -58,8 +58,17 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofForIndex(index)
+}
+
+// GenerateProofForIndex generates the proof for the piece of data at the given
+// position; the data at different positions can be equal.
+func (t *MerkleTree) GenerateProofForIndex(index uint32) (*Proof, error) {
+	if int(index) >= len(t.nodes)/2 {
+		return nil, errors.New("index out of range")
+	}
+
+	hashes := make([][]byte, t.proofLength())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -74,7 +83,12 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.proofLength()*t.hash.HashLength() + numHashesByteSize + indexByteSize
+}
+
+// proofLength returns the number of hashes in a proof, i.e. the depth of the tree
+func (t *MerkleTree) proofLength() int {
+	return int(math.Ceil(math.Log2(float64(len(t.nodes) / 2))))
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
-- 
2.43.0


From 1ecf2ef58461277fc02059daa5bce00ff71e852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 24/32] fix: accept a Merkle proof only for the queried
 position

A server could have the client accept the valid block of another position.
---
 lib/client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index 2ad31d8..65db7a6 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -65,6 +65,10 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
 		}
+		// the proof must be for the queried position
+		if int(proof.Index) != state.ix*dbInfo.NumColumns+state.iy {
+			return nil, errors.New("REJECT!")
+		}
 		if !verified {
 			return nil, errors.New("REJECT!")
 		}
-- 
2.43.0


From 1ee1583d13775bf9edb2fb7760a31f62a546037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 25/32] fix: reject malformed point answers and proofs instead
 of crashing the client

---
 lib/client/client.go | 12 +++++++++---
 lib/merkle/proof.go  | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 65db7a6..7373ba3 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -56,6 +56,9 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT!")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof
@@ -65,11 +68,11 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
 		}
-		// the proof must be for the queried position
-		if int(proof.Index) != state.ix*dbInfo.NumColumns+state.iy {
+		if !verified {
 			return nil, errors.New("REJECT!")
 		}
-		if !verified {
+		// the proof must be for the queried position
+		if int(proof.Index) != state.ix*dbInfo.NumColumns+state.iy {
 			return nil, errors.New("REJECT!")
 		}
 
@@ -84,6 +87,9 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
 	for k := range answers {
+		if len(answers[k]) != dbInfo.NumRows*bs {
+			return nil, errors.New("answer of unexpected length")
+		}
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
 	}
 
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..9d79a8d 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -53,6 +53,9 @@ func VerifyProof(data []byte, proof *Proof, root []byte) (bool, error) {
 //
 // This returns true if the proof is verified, otherwise false.
 func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType) (bool, error) {
+	if proof == nil {
+		return false, nil
+	}
 	proofHash := generateProofHash(data, proof, hashType)
 	if bytes.Equal(root, proofHash) {
 		return true, nil
@@ -77,12 +80,20 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof returns nil if p is not an encoded proof
 func DecodeProof(p []byte) *Proof {
+	hashLength := uint32(32) // blake3
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*uint64(hashLength)+indexByteSize {
+		return nil
+	}
 
 	// hashes
-	hashLength := uint32(32) // blake3
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From 69c6fbeb2eed42604cec22b38f9c8891c04ad9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 26/32] fix: reject DH answers that do not have one element per
 row

---
 lib/client/dh.go         | 3 +++
 lib/database/elliptic.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..00651a7 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -78,6 +78,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows {
+		return nil, errors.New("reject")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 89da526..31f159a 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -3,6 +3,7 @@ package database
 import (
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -124,6 +125,9 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
 	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("group elements of unexpected length")
+	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
 		elem := g.NewElement()
-- 
2.43.0


From 2c9375c39e5a56f55894b715033ee90679580a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 27/32] fix: reject point retrievals with missing answers

---
 lib/client/client.go    | 9 +++++++--
 lib/client/pir_point.go | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 7373ba3..b47b62d 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -20,8 +20,9 @@ type Client interface {
 // state of the client, used for all the schemes.
 type state struct {
 	// only used for Merkle tree-based approach and classic PIR
-	ix int
-	iy int
+	ix         int
+	iy         int
+	numServers int
 
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
@@ -83,6 +84,10 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 }
 
 func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
+	if len(answers) != state.numServers {
+		return nil, errors.New("unexpected number of answers")
+	}
+
 	// sum answers as vectors in GF(2)
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index c626067..5dd62e3 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -50,8 +50,9 @@ func (c *PIR) Query(index int, numServers int) [][]byte {
 	// set the client state. The entries specific to VPIR are not used
 	ix, iy := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	c.state = &state{
-		ix: ix,
-		iy: iy,
+		ix:         ix,
+		iy:         iy,
+		numServers: numServers,
 	}
 
 	if numServers == 2 {
-- 
2.43.0


From ec3c88815496e616ab0195ae6119af9c13c150a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 28/32] fix: reject amplified retrievals with missing answers

---
 lib/client/amplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..1842b0f 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -46,6 +46,10 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("REJECT")
+	}
+
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
-- 
2.43.0


From ab441fc0f5eab113411dcf0b83aaeae84aefcd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 29/32] fix: reject FSS answers with truncated elements

---
 lib/client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index b47b62d..1372479 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -39,6 +39,9 @@ func decodeAnswer(in [][]byte) ([][]uint32, error) {
 	// decode all the answers one by one
 	answer := make([][]uint32, len(in))
 	for i, a := range in {
+		if len(a)%4 != 0 {
+			return nil, errors.New("answer is not a sequence of field elements")
+		}
 		answer[i] = utils.ByteSliceToUint32Slice(a)
 	}
 
-- 
2.43.0


From c40d815fdb3d70918c6422edcf12ebb1861de872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 30/32] fix: negative samples of the 128-bit Gaussian error
 were off by one

---
 lib/matrix/matrix128.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index d9da7db..c9362b1 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -84,7 +84,8 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			// -1 is represented by the maximal value
+			m.data[i] = uint128.Max.Sub64(uint64(-g - 1))
 		}
 	}
 
-- 
2.43.0


From a225bdef7b3a8ef46a28348dc2b0838afa50ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 31/32] fix: index matrix elements with 64-bit integers in the
 native kernels

An element index is a product of two dimensions and does not fit in an
int when a matrix has 2^31 elements or more, which a binary database of
256 MiB has.
---
 lib/matrix/matrix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/matrix/matrix.c b/lib/matrix/matrix.c
index 521a35d..585f016 100644
--- a/lib/matrix/matrix.c
+++ b/lib/matrix/matrix.c
@@ -1,7 +1,7 @@
 #include "matrix.h"
 
 void multiply(int aRows, int aCols, int bCols, uint32_t *a, uint32_t *b, uint32_t *out) {
-   	int i, j, k;
+   	int64_t i, j, k;
 	for (i = 0; i < aRows; i++) {
 		for (k = 0; k < aCols; k++) {
 			for (j = 0; j < bCols; j++) {
@@ -12,7 +12,7 @@ void multiply(int aRows, int aCols, int bCols, uint32_t *a, uint32_t *b, uint32_
 }
 
 void binary_multiply(int aRows, int aCols, int bCols, uint32_t *a, uint8_t *b, uint32_t *out) {
-   	int i, j, k;
+   	int64_t i, j, k;
 	for (i = 0; i < aRows; i++) {
 		for (k = 0; k < aCols; k++) {
 			for (j = 0; j < bCols; j++) {
@@ -23,7 +23,7 @@ void binary_multiply(int aRows, int aCols, int bCols, uint32_t *a, uint8_t *b, u
 }
 
 void multiply128(int aRows, int aCols, int bCols, __uint128_t *a, __uint128_t *b, __uint128_t *out) {
-   	int i, j, k;
+   	int64_t i, j, k;
 	for (i = 0; i < aRows; i++) {
 		for (k = 0; k < aCols; k++) {
 			for (j = 0; j < bCols; j++) {
@@ -34,7 +34,7 @@ void multiply128(int aRows, int aCols, int bCols, __uint128_t *a, __uint128_t *b
 }
 
 void binary_multiply128(int aRows, int aCols, int bCols, __uint128_t *a, uint8_t *b, __uint128_t *out) {
-   	int i, j, k;
+   	int64_t i, j, k;
 	for (i = 0; i < aRows; i++) {
 		for (k = 0; k < aCols; k++) {
 			for (j = 0; j < bCols; j++) {
-- 
2.43.0


From cdaf1128dabefff60e18a007e3bacfc62899c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 32/32] fix: encode the identity group element in as many bytes
 as the others

The curves encode the identity in a single byte, so that the digest or the
answer of an all-zero row shifted all following elements and the retrieval
failed.
---
 lib/client/dh.go         |  3 +--
 lib/database/elliptic.go | 33 +++++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 00651a7..7077d7b 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -85,8 +85,7 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
+		d, err := database.UnmarshalElement(c.dbInfo.SubDigests[i*digSize:(i+1)*digSize], g)
 		if err != nil {
 			return nil, err
 		}
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 31f159a..77a18cf 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
 	"errors"
@@ -77,7 +78,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elementSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elementSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -85,7 +87,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := marshalElement(d, elementSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -109,11 +111,32 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
+// Marshal a group element into size bytes. The identity is encoded as zeros,
+// since some groups encode it in fewer bytes than the other elements.
+func marshalElement(el group.Element, size int) ([]byte, error) {
+	if el.IsIdentity() {
+		return make([]byte, size), nil
+	}
+	return el.MarshalBinaryCompress()
+}
+
+// UnmarshalElement decodes a group element of fixed size
+func UnmarshalElement(in []byte, g group.Group) (group.Element, error) {
+	el := g.Identity()
+	if bytes.Equal(in, make([]byte, len(in))) {
+		return el, nil
+	}
+	if err := el.UnmarshalBinary(in); err != nil {
+		return nil, err
+	}
+	return el, nil
+}
+
 // Marshal a slice of group elements
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
-		tmp, err := el.MarshalBinaryCompress()
+		tmp, err := marshalElement(el, marshalledLen)
 		if err != nil {
 			return nil, err
 		}
@@ -124,14 +147,12 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
-	var err error
 	if len(q)%elemSize != 0 {
 		return nil, errors.New("group elements of unexpected length")
 	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
-		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
+		elem, err := UnmarshalElement(q[i:i+elemSize], g)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

