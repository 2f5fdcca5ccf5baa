From 89631751adae88520af9093f4b6bf2384109a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 01/31] fix: ecc: let the majority replace a wrong first symbol
 when decoding

---
 lib/ecc/ecc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..1bbe519 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -30,6 +30,11 @@ func (e *ECC) Decode(in []uint32) (uint32, error) {
 		} else {
 			votes--
 		}
+		// the candidate has been outvoted: this symbol is the new one
+		if votes < 0 {
+			decoded = in[i]
+			votes = 1
+		}
 	}
 	count := 0
 
-- 
2.43.0


From 61e19b80a686f0cc44f30653458429ec8097e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/31] fix: fss: mask every element of the output, also the
 ones past a multiple of four

---
 lib/fss/client.go | 2 +-
 lib/fss/common.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..86b297d 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -17,7 +17,7 @@ import (
 func ClientInitialize(blockLength int) *Fss {
 	f := new(Fss)
 	f.BlockLength = blockLength
-	initPRFLen := 4
+	initPRFLen := len(PrfKeys)
 	// Create fixed AES blocks
 	f.FixedBlocks = make([]cipher.Block, initPRFLen)
 	for i := uint(0); i < uint(initPRFLen); i++ {
diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..c8ca561 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -49,7 +49,8 @@ func init() {
 		{2, 16, 223, 155, 240, 218, 18, 217, 66, 61, 95, 162, 213, 195, 169, 50},
 		{130, 178, 43, 30, 226, 225, 106, 13, 196, 22, 96, 191, 75, 100, 87, 221},
 		{227, 121, 10, 139, 215, 136, 201, 227, 253, 210, 170, 246, 215, 213, 65, 69},
-		{49, 194, 90, 224, 41, 253, 48, 252, 55, 167, 51, 93, 246, 176, 38, 220}}
+		{49, 194, 90, 224, 41, 253, 48, 252, 55, 167, 51, 93, 246, 176, 38, 220},
+		{157, 62, 8, 201, 95, 44, 180, 19, 103, 226, 121, 58, 12, 239, 84, 176}}
 }
 
 // Helper functions
@@ -67,6 +68,10 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 
 func convertBlock(f Fss, x []byte, out []uint32) {
 	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	// (the last one can be partially used: round up, otherwise the remaining
+	// elements are constant and do not mask anything)
+	numBlocks := (len(out) + 3) / 4
+	f.OutConvertBlock = make([]byte, numBlocks*aes.BlockSize)
+	prf(x, f.FixedBlocks, uint(numBlocks), f.Temp, f.OutConvertBlock)
 	field.BytesToElements(out, f.OutConvertBlock)
 }
-- 
2.43.0


From 0e330f4eaf2fb64daa9d8959393f95b6e5e1c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 03/31] fix: field: map equal bytes to equal field elements,
 without resampling

---
 lib/field/field.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..0de67dd 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -34,14 +34,10 @@ func toElement(in []byte) uint32 {
 	// Take the first Bytes bytes
 	//out := *(*uint32)(unsafe.Pointer(&in))
 	out := binary.BigEndian.Uint32(in[:Bytes])
-	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
+	// Make sure that toElement is not equal 2^31 - 1. No resampling here:
+	// both servers must map the same bytes to the same element
+	if out == ModP {
+		out = 0
 	}
 	return out
 }
-- 
2.43.0


From 3ff40f24cc271dc468730bad38342bede6c164b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 04/31] fix: fss: do not skip bit 256 of the input when
 evaluating a key

---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..8a19d8d 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -41,11 +41,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From 885c4a986c375d533a21f3febb7a0edc67526501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/31] fix: fss: let a server evaluate several keys
 concurrently

---
 lib/fss/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index 8a19d8d..03e6581 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -34,6 +34,10 @@ func ServerInitialize(blockLength int) *Fss {
 func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	// reinitialize f.NumBits because we have different input lengths
 	f.NumBits = uint(len(x))
+	// f is a copy, but its slices are not: use temporary slices of our own,
+	// a server can evaluate several keys at the same time
+	f.Temp = make([]byte, len(f.Temp))
+	f.Out = make([]byte, len(f.Out))
 
 	sCurr := make([]byte, aes.BlockSize)
 	copy(sCurr, k.SInit)
-- 
2.43.0


From c8386298275c9e0ffae6017f37fb1418da7cfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 06/31] fix: client: check the answers to a complex query
 against the query, reject an average of nothing

---
 lib/client/client.go |  1 +
 lib/client/fss.go    | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..f4e2a5d 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -26,6 +26,7 @@ type state struct {
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
 	a      []uint32 // cointains [1, alpha_i], i = 0, .., 3
+	avg    bool     // the query is for an average: count and sum are expected
 
 	// for single-server (DH)
 	r  group.Scalar
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..d38f8e6 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -54,6 +54,7 @@ func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
 	c.state.alphas = make([]uint32, c.executions)
 	c.state.a = make([]uint32, c.executions)
 	c.state.a[0] = 1 // to retrieve data
+	c.state.avg = q.Info != nil && q.Avg
 	// below executed only for authenticated. The -1 is to ignore
 	// the value for the data already initialized
 	for i := 0; i < c.executions-1; i++ {
@@ -81,6 +82,15 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	// the query, and not the servers, decides what the answers contain
+	expected := c.executions
+	if c.state.avg {
+		expected = 2 * c.executions
+	}
+	if len(answers) != 2 || len(answers[0]) != expected || len(answers[1]) != expected {
+		return 0, errors.New("REJECT: unexpected number or length of answers")
+	}
+
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
@@ -111,6 +121,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("no match to compute the average of")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From 0667c1fed99159ae334ad2b145ed86f2ac8601be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 07/31] fix: merkle: size the proofs by the depth of the tree,
 not by its distinct data

---
 lib/merkle/merkletree.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..dda3549 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"hash/fnv"
 	"math"
+	"math/bits"
 )
 
 // MerkleTree is the structure for the Merkle tree.
@@ -58,7 +59,18 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
+	return t.GenerateProofAt(index)
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given
+// position in the tree.
+func (t *MerkleTree) GenerateProofAt(index uint32) (*Proof, error) {
+	if int64(index) >= int64(len(t.nodes)/2) {
+		return nil, errors.New("index out of range")
+	}
+
+	// the depth of the tree, also if it contains the same data twice
+	proofLen := bits.Len(uint(len(t.nodes)/2)) - 1
 	hashes := make([][]byte, proofLen)
 
 	cur := 0
@@ -74,7 +86,7 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return (bits.Len(uint(len(t.nodes)/2))-1)*t.hash.HashLength() + numHashesByteSize + indexByteSize
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
-- 
2.43.0


From a70f88519cef5cdcc8d0dcdd2868c6d51d645602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 08/31] fix: database: do not panic when unpadding a block of
 zeros

---
 lib/database/pgp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..2cc0a70 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// nothing but zeros, e.g., the block of an empty bucket
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From 26ee9cb87a2be80a555ed002f1cfdfdc2295e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 09/31] fix: client: accept only the proof of the block that
 was queried, reject malformed answers

---
 lib/client/client.go   | 20 +++++++++++++++++++-
 lib/database/merkle.go |  7 ++++---
 lib/merkle/proof.go    | 16 ++++++++++++++++
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index f4e2a5d..c081c40 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -57,11 +57,21 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT: block too short")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
-		proof := merkle.DecodeProof(encodedProof)
+		proof, err := merkle.DecodeProofChecked(encodedProof)
+		if err != nil {
+			return nil, errors.New("REJECT: " + err.Error())
+		}
+		// a valid proof for another block is not an answer to the query
+		if int64(proof.Index) != int64(state.ix)*int64(dbInfo.NumColumns)+int64(state.iy) {
+			return nil, errors.New("REJECT: proof for another block")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
@@ -79,6 +89,14 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
 	// sum answers as vectors in GF(2)
 	bs := dbInfo.BlockSize
+	if bs < 0 || state.ix >= dbInfo.NumRows {
+		return nil, errors.New("query out of the database")
+	}
+	for k := range answers {
+		if len(answers[k]) != bs*dbInfo.NumRows {
+			return nil, errors.New("REJECT: unexpected answer length")
+		}
+	}
 	sum := make([]byte, bs)
 	for k := range answers {
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..d55a29d 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,11 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+func generateMerkleProofs(data [][]byte, begin int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		// by position, as several blocks can have the same content
+		p, err := t.GenerateProofAt(uint32(begin + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..4013987 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -15,6 +15,7 @@ package merkle
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
 const (
@@ -97,6 +98,21 @@ func DecodeProof(p []byte) *Proof {
 	}
 }
 
+// DecodeProofChecked decodes a proof that comes from an untrusted source
+func DecodeProofChecked(p []byte) (*Proof, error) {
+	hashLength := 32 // blake3
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil, errors.New("encoded proof too short")
+	}
+	// the encoding has exactly one length for a given number of hashes
+	numHashes := uint64(binary.LittleEndian.Uint32(p[:numHashesByteSize]))
+	if numHashes*uint64(hashLength) != uint64(len(p)-numHashesByteSize-indexByteSize) {
+		return nil, errors.New("encoded proof of a wrong length")
+	}
+
+	return DecodeProof(p), nil
+}
+
 func EncodeProof(p *Proof) []byte {
 	// out length is 4 bytes for numHashes, number of bytes for the hashes
 	// (32 bytes for each hash) and 8 bytes for encoded index
-- 
2.43.0


From 10185c25ea356eff3290b9cf8d19f9bf74106471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 10/31] fix: dh: handle the identity element, few rows, and
 encodings of a wrong length

---
 lib/client/dh.go         | 16 +++++++++++-----
 lib/database/elliptic.go | 36 ++++++++++++++++++++++++++++++++++--
 lib/server/dh.go         |  5 +++++
 3 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..bc93198 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -78,15 +78,21 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows {
+		return nil, errors.New("reject: unexpected number of elements")
+	}
+	digests, err := database.UnmarshalGroupElements(c.dbInfo.SubDigests, g, digSize)
+	if err != nil {
+		return nil, err
+	}
+	if len(digests) != c.dbInfo.NumRows {
+		return nil, errors.New("reject: unexpected number of digests")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
-		if err != nil {
-			return nil, err
-		}
+		d := digests[i]
 		d.Mul(d, rneg)
 		m.Add(d, answer[i])
 		if !m.IsIdentity() && !m.IsEqual(c.state.ht) {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..a7f165b 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -3,6 +3,7 @@ package database
 import (
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -42,6 +43,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 		if end > numRows {
 			end = numRows
 		}
+		// and the ones after it take none
+		if begin > end {
+			begin = end
+		}
 		replyChan := make(chan []byte, 1)
 		replies[i] = replyChan
 		go computeDigests(begin, end, data, numColumns, g, h, replyChan)
@@ -85,7 +90,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 		if err != nil {
 			log.Fatal(err)
 		}
-		digs = append(digs, tmp...)
+		digs = append(digs, padElement(tmp, getGroupElementSize(g))...)
 	}
 	replyTo <- digs
 }
@@ -113,7 +118,7 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 		if err != nil {
 			return nil, err
 		}
-		encoded = append(encoded, tmp...)
+		encoded = append(encoded, padElement(tmp, marshalledLen)...)
 	}
 	return encoded, nil
 }
@@ -121,9 +126,17 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
 	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("wrong length of encoded group elements")
+	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
 		elem := g.NewElement()
+		// see padElement
+		if isZero(q[i : i+elemSize]) {
+			decoded = append(decoded, g.Identity())
+			continue
+		}
 		err = elem.UnmarshalBinary(q[i : i+elemSize])
 		if err != nil {
 			return nil, err
@@ -133,6 +146,25 @@ func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Elem
 	return decoded, nil
 }
 
+// padElement extends the encoding of a group element to the given length. Only
+// the identity is shorter than the other elements, a single zero byte for the
+// NIST curves: it becomes a block of zeros.
+func padElement(encoded []byte, marshalledLen int) []byte {
+	for len(encoded) < marshalledLen {
+		encoded = append(encoded, 0)
+	}
+	return encoded
+}
+
+func isZero(in []byte) bool {
+	for _, b := range in {
+		if b != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func getGroupElementSize(g group.Group) int {
 	// Obtaining the scalar and element sizes for the group
 	rnd := utils.RandomPRG()
diff --git a/lib/server/dh.go b/lib/server/dh.go
index 772c33b..4837d4e 100644
--- a/lib/server/dh.go
+++ b/lib/server/dh.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math"
 
 	"github.com/cloudflare/circl/group"
@@ -22,6 +23,10 @@ func (s *DH) AnswerBytes(q []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(query) != s.db.NumColumns {
+		return nil, errors.New("wrong number of elements in the query")
+	}
+
 	NGoRoutines := 1
 	// make sure that we do not need up with routines processing 0 elements
 	if NGoRoutines > s.db.NumRows {
-- 
2.43.0


From 90b7e4ab078ff0153d73635163bdb43a72bacedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 11/31] fix: lwe: reject matrices of a wrong size or encoding
 instead of panicking

---
 lib/client/amplify.go |  6 ++++++
 lib/client/lwe.go     |  6 ++++++
 lib/client/lwe128.go  |  6 ++++++
 lib/matrix/matrix.go  | 26 ++++++++++++++++++++++++++
 lib/server/amplify.go | 11 +++++++++++
 lib/server/lwe.go     |  3 +++
 lib/server/lwe128.go  |  3 +++
 7 files changed, 61 insertions(+)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..004689e 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -46,6 +46,9 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("REJECT")
+	}
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
@@ -61,5 +64,8 @@ func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
 }
 
 func (a *Amplify) ReconstructBytes(answers []byte) (uint32, error) {
+	if err := matrix.CheckMatricesBytes(answers, a.repetitions, 1, a.lwes[0].params.M, 4); err != nil {
+		return 0, errors.New("REJECT: " + err.Error())
+	}
 	return a.Reconstruct(matrix.BytesToMatrices(answers))
 }
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..6e471ae 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -72,6 +72,9 @@ func (c *LWE) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
+	if answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("REJECT")
+	}
 	s_trans_d := matrix.Mul(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
@@ -91,6 +94,9 @@ func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
 }
 
 func (c *LWE) ReconstructBytes(a []byte) (uint32, error) {
+	if err := matrix.CheckBytes(a, 1, c.params.M, 4); err != nil {
+		return 0, errors.New("REJECT: " + err.Error())
+	}
 	return c.Reconstruct(matrix.BytesToMatrix(a))
 }
 
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..dd2b3db 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -73,6 +73,9 @@ func (c *LWE128) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
+	if answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("REJECT")
+	}
 	s_trans_d := matrix.Mul128(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
@@ -92,6 +95,9 @@ func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
 }
 
 func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
+	if err := matrix.CheckBytes(a, 1, c.params.M, 16); err != nil {
+		return 0, errors.New("REJECT: " + err.Error())
+	}
 	return c.Reconstruct(matrix.BytesToMatrix128(a))
 }
 
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..f10391e 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -2,6 +2,7 @@ package matrix
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"unsafe"
 
@@ -61,6 +62,31 @@ func BytesToMatrix(in []byte) *Matrix {
 	}
 }
 
+// CheckBytes verifies that in is the encoding of a rows x cols matrix with
+// elements of elemSize bytes, as any encoding from an untrusted source must be.
+func CheckBytes(in []byte, rows, cols, elemSize int) error {
+	if len(in) != 8+rows*cols*elemSize ||
+		binary.BigEndian.Uint32(in[:4]) != uint32(rows) ||
+		binary.BigEndian.Uint32(in[4:8]) != uint32(cols) {
+		return errors.New("malformed matrix encoding")
+	}
+	return nil
+}
+
+// CheckMatricesBytes is the counterpart of CheckBytes for n matrices
+func CheckMatricesBytes(in []byte, n, rows, cols, elemSize int) error {
+	length := 8 + rows*cols*elemSize
+	if len(in) != 4+n*length || binary.BigEndian.Uint32(in[:4]) != uint32(length) {
+		return errors.New("malformed matrices encoding")
+	}
+	for i := 0; i < n; i++ {
+		if err := CheckBytes(in[4+i*length:4+(i+1)*length], rows, cols, elemSize); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func MatricesToBytes(in []*Matrix) []byte {
 	// the matrices are all the same, so
 	// we can use MatrixToBytes to see how many
diff --git a/lib/server/amplify.go b/lib/server/amplify.go
index aaaaabb..50430cc 100644
--- a/lib/server/amplify.go
+++ b/lib/server/amplify.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -29,6 +31,15 @@ func (a *Amplify) Answer(qq []*matrix.Matrix) []*matrix.Matrix {
 }
 
 func (a *Amplify) AnswerBytes(qq []byte) ([]byte, error) {
+	// each query is a row vector; the client decides how many of them to send
+	length := 8 + 4*a.lwe.db.NumRows
+	n := (len(qq) - 4) / length
+	if n < 1 {
+		return nil, errors.New("malformed query")
+	}
+	if err := matrix.CheckMatricesBytes(qq, n, 1, a.lwe.db.NumRows, 4); err != nil {
+		return nil, err
+	}
 	ans := a.Answer(matrix.BytesToMatrices(qq))
 
 	// encode
diff --git a/lib/server/lwe.go b/lib/server/lwe.go
index 8cc167d..f14ffcf 100644
--- a/lib/server/lwe.go
+++ b/lib/server/lwe.go
@@ -18,6 +18,9 @@ func (s *LWE) DBInfo() *database.Info {
 }
 
 func (s *LWE) AnswerBytes(q []byte) ([]byte, error) {
+	if err := matrix.CheckBytes(q, 1, s.db.NumRows, 4); err != nil {
+		return nil, err
+	}
 	a := s.Answer(matrix.BytesToMatrix(q))
 	return matrix.MatrixToBytes(a), nil
 }
diff --git a/lib/server/lwe128.go b/lib/server/lwe128.go
index caed9cb..f27899f 100644
--- a/lib/server/lwe128.go
+++ b/lib/server/lwe128.go
@@ -18,6 +18,9 @@ func (s *LWE128) DBInfo() *database.Info {
 }
 
 func (s *LWE128) AnswerBytes(q []byte) ([]byte, error) {
+	if err := matrix.CheckBytes(q, 1, s.db.NumRows, 16); err != nil {
+		return nil, err
+	}
 	a := s.Answer(matrix.BytesToMatrix128(q))
 	return matrix.Matrix128ToBytes(a), nil
 }
-- 
2.43.0


From 89f7da91d9e9e3ac2ed51ae603a8db17291d0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 12/31] fix: lwe: do not blind the query with a scalar in the
 range of the noise

---
 lib/client/lwe.go    | 4 ++++
 lib/client/lwe128.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 6e471ae..ade756d 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -39,6 +39,10 @@ func NewLWE(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE {
 func (c *LWE) Query(i, j int) *matrix.Matrix {
 	// Lazy way to sample a random scalar
 	rand := matrix.NewRandom(c.rnd, 1, 1)
+	// a scalar this close to zero cannot be told apart from the noise
+	for t := rand.Get(0, 0); t < 2*c.params.B || t > -(2*c.params.B); t = rand.Get(0, 0) {
+		rand = matrix.NewRandom(c.rnd, 1, 1)
+	}
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE{
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index dd2b3db..df2b78f 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -40,6 +40,11 @@ func NewLWE128(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE
 func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 	// Lazy way to sample a random scalar
 	rand := matrix.NewRandom128(c.rnd, 1, 1)
+	// a scalar this close to zero cannot be told apart from the noise
+	bound := uint128.From64(2 * uint64(c.params.B))
+	for t := rand.Get(0, 0); t.Cmp(bound) < 0 || t.Cmp(uint128.Max.Sub(bound)) > 0; t = rand.Get(0, 0) {
+		rand = matrix.NewRandom128(c.rnd, 1, 1)
+	}
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE128{
-- 
2.43.0


From 5b705c9285e29f4953a55a9d1d1b604b10316b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 13/31] fix: matrix: sample negative gaussian values that are
 not off by one

---
 lib/matrix/matrix128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..bd59ffc 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -81,7 +81,7 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			m.data[i] = uint128.Zero.SubWrap64(uint64(-g))
 		}
 	}
 
-- 
2.43.0


From e41bd73b905af607a0feec126de930dcff630d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 14/31] fix: utils: do not mix the previous content of the
 buffer in the PRG output

---
 lib/utils/rand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utils/rand.go b/lib/utils/rand.go
index eab7c71..6681712 100644
--- a/lib/utils/rand.go
+++ b/lib/utils/rand.go
@@ -104,6 +104,10 @@ func (s *PRGReader) Read(p []byte) (int, error) {
 		s.stream.XORKeyStream(buf[:], buf[:])
 		copy(p[:], buf[:])
 	} else {
+		// what p contains must not end up in the output
+		for i := range p {
+			p[i] = 0
+		}
 		s.stream.XORKeyStream(p, p)
 	}
 	return len(p), nil
-- 
2.43.0


From 3de4e72e5bb54dd141d864b506fb660b7b1e45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 15/31] fix: server: answer malformed queries with an error
 instead of panicking

---
 lib/server/fss.go   | 11 ++++++++++-
 lib/server/point.go | 13 +++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..1c01e11 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -3,6 +3,7 @@ package server
 import (
 	"bytes"
 	"encoding/gob"
+	"fmt"
 	"time"
 
 	"github.com/si-co/vpir-code/lib/database"
@@ -24,7 +25,15 @@ func (s *serverFSS) dbInfo() *database.Info {
 	return &s.db.Info
 }
 
-func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
+func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) (_ []byte, err error) {
+	// a query comes from an untrusted client: if it decodes to something that
+	// cannot be evaluated, the server has to survive it
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed query: %v", r)
+		}
+	}()
+
 	// decode query
 	buf := bytes.NewBuffer(q)
 	dec := gob.NewDecoder(buf)
diff --git a/lib/server/point.go b/lib/server/point.go
index 86e0031..f7132c5 100644
--- a/lib/server/point.go
+++ b/lib/server/point.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math/bits"
 	"runtime"
 
@@ -48,6 +49,18 @@ func (s *PIR) DBInfo() *database.Info {
 
 // AnswerBytes computes the answer for the given query encoded in bytes
 func (s *PIR) AnswerBytes(q []byte) ([]byte, error) {
+	// one bit per column, or the encoding of a DPF key
+	expected := s.db.NumColumns/8 + 1
+	if s.numServers == 2 {
+		expected = 16 + 1 + 16
+		if logN := bits.Len(uint(s.db.NumColumns)); logN > 7 {
+			expected += 18 * (logN - 7)
+		}
+	}
+	if len(q) != expected {
+		return nil, errors.New("malformed query: unexpected length")
+	}
+
 	return s.Answer(q), nil
 }
 
-- 
2.43.0


From f171b942e724c02e47015fa8520c5e6da0ec6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 16/31] fix: query: compare creation times independently of the
 time zone of the machine

---
 lib/query/query.go | 4 ++--
 lib/server/fss.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..e575140 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,7 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +199,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index 1c01e11..3cbed50 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -125,7 +125,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From e308b853f7dc46a71fdecfd4247a801b6bf92e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 17/31] fix: utils: return an error for server indices that are
 not contiguous

---
 lib/utils/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index 29686fe..7e9f569 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -35,6 +35,10 @@ func LoadConfig(configFile string) (*Config, error) {
 		if err != nil {
 			return nil, xerrors.Errorf("could not convert server index to integer: %v", err)
 		}
+		// indices must be 0, ..., len(c.Servers)-1, each of them once
+		if i < 0 || i >= len(addresses) || addresses[i] != "" {
+			return nil, xerrors.Errorf("invalid server index: %v", index)
+		}
 		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
 	}
 	c.Addresses = addresses
-- 
2.43.0


From bfdf7f13a1280977cb0f42dc9d20ad61fcd1104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 18/31] fix: database: build a database also from fewer than
 ten keys

---
 lib/database/db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/db.go b/lib/database/db.go
index d99fb55..8be1e49 100644
--- a/lib/database/db.go
+++ b/lib/database/db.go
@@ -165,6 +165,10 @@ func HashToIndex(id string, length int) uint32 {
 }
 
 func CalculateNumRowsAndColumns(numBlocks int, matrix bool) (numRows, numColumns int) {
+	// a database has at least one block
+	if numBlocks < 1 {
+		numBlocks = 1
+	}
 	if matrix {
 		utils.IncreaseToNextSquare(&numBlocks)
 		numColumns = int(math.Sqrt(float64(numBlocks)))
-- 
2.43.0


From 31ad271f8058859269bc5eaa5259d4a4e5775982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 19/31] fix: grpc server: answer the DPF keys that clients send
 to two servers

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..7234b50 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// with two servers, clients send DPF keys
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From b6410de28c428eca437b51ea1f95666fe3c4ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 20/31] fix: grpc server: keep the worker until pending
 requests are served on shutdown

---
 cmd/grpc/server/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 7234b50..e3eda4e 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -214,8 +214,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// first wait for the pending requests, as they need the worker
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
-- 
2.43.0


From a94329f75d14025f915e4888cb77b869040416fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 21/31] fix: grpc client: send each query to the server it is
 for

---
 cmd/grpc/client/main.go            | 7 ++++++-
 simulations/multi/client/client.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..44b994c 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -398,7 +398,12 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
 	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for _, addr := range lc.config.Addresses {
+		conn, ok := lc.connections[addr]
+		if !ok {
+			continue
+		}
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..d1f4be0 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -370,7 +370,12 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
 	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server of the configuration
+	for _, addr := range lc.config.Addresses {
+		conn, ok := lc.connections[addr]
+		if !ok {
+			continue
+		}
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
-- 
2.43.0


From 905d5dabc677411da56184ab54703241a282185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 22/31] fix: grpc server: do not wait for room in the queue on
 behalf of a canceled request

---
 cmd/grpc/server/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index e3eda4e..b6a7acc 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -265,7 +265,12 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 
 	answerCh := make(chan []byte, 1)
 	errorCh := make(chan error, 1)
-	s.queryChan <- queryWrapper{qr, answerCh, errorCh}
+	select {
+	case s.queryChan <- queryWrapper{qr, answerCh, errorCh}:
+	case <-ctx.Done():
+		// nobody waits for the answer anymore
+		return nil, context.DeadlineExceeded
+	}
 
 	select {
 	case answer := <-answerCh:
-- 
2.43.0


From 8b1be7cb2d6854bf66ac50fd5bae5f511ae27fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 23/31] fix: grpc clients: refuse servers that disagree on the
 scheme or on the Merkle root

---
 cmd/grpc/client/main.go            | 7 ++++++-
 cmd/grpc/client/manager/mod.go     | 7 ++++++-
 simulations/multi/client/client.go | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 44b994c..dbb82fc 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -454,7 +455,11 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			// what authenticates the answers must come from all the servers
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..664496e 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,11 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			// what authenticates the answers must come from all the servers
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index d1f4be0..858ba60 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,11 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			// what authenticates the answers must come from all the servers
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From 58fb82988a2d168a9413feb4be92b27201c78a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 24/31] fix: web client: return an error, not a count, when a
 count query fails

---
 cmd/grpc/client/web/mod.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..62b762b 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -335,6 +336,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -355,6 +357,11 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 			http.Error(w, "year argument not found", http.StatusBadRequest)
 			return
 		}
+		// the query cannot be built from something else than a number
+		if _, err := strconv.Atoi(year); err != nil {
+			http.Error(w, "year is not a number", http.StatusBadRequest)
+			return
+		}
 
 		info := &query.Info{
 			Target: query.CreationTime,
@@ -366,6 +373,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From 755806077eb700a610ae4a58b7fcf4e7c20a632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 25/31] fix: client manager: report the failure of a server
 instead of terminating the process

---
 cmd/grpc/client/manager/mod.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 664496e..1160b01 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -149,13 +149,18 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan database.Info, len(a.servers))
+	errCh := make(chan error, len(a.servers))
 
 	for _, srv := range a.servers {
 		wg.Add(1)
 		go func(srv server) {
 			defer wg.Done()
 
-			info := srv.getDBInfo(ctx)
+			info, err := srv.getDBInfo(ctx)
+			if err != nil {
+				errCh <- err
+				return
+			}
 			resCh <- info
 		}(srv)
 	}
@@ -163,6 +168,11 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	wg.Wait()
 	close(resCh)
 
+	close(errCh)
+	if err := <-errCh; err != nil {
+		return nil, err
+	}
+
 	dbInfo := make([]database.Info, 0, len(resCh))
 
 	for info := range resCh {
@@ -231,8 +241,11 @@ func (s server) query(ctx context.Context, query []byte) []byte {
 
 	answer, err := c.Query(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not query %s: %v",
+		// not fatal for the process, which can have other requests to serve:
+		// the reconstruction fails on the missing answer
+		log.Printf("could not query %s: %v",
 			s.conn.Target(), err)
+		return nil
 	}
 
 	log.Printf("sent query to %s", s.conn.Target())
@@ -242,13 +255,13 @@ func (s server) query(ctx context.Context, query []byte) []byte {
 }
 
 // getDBInfo returns DB info about the server
-func (s server) getDBInfo(ctx context.Context) database.Info {
+func (s server) getDBInfo(ctx context.Context) (database.Info, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.DatabaseInfoRequest{}
 
 	answer, err := c.DatabaseInfo(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not send database info request to %s: %v",
+		return database.Info{}, xerrors.Errorf("could not send database info request to %s: %v",
 			s.conn.Target(), err)
 	}
 
@@ -262,5 +275,5 @@ func (s server) getDBInfo(ctx context.Context) database.Info {
 		Merkle:     &database.Merkle{Root: answer.GetRoot(), ProofLen: int(answer.GetProofLen())},
 	}
 
-	return dbInfo
+	return dbInfo, nil
 }
-- 
2.43.0


From 17cd3779d01eb1b10155f1833f6b77a049ffd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 26/31] fix: matrix: give random matrices the length of their
 data

---
 lib/matrix/matrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index f10391e..67926f5 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -135,7 +135,8 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	m := New(r, c)
 
 	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	// (b has one byte per slot: keep the slots that exist)
+	m.data = (*(*[]uint32)(unsafe.Pointer(&b)))[: r*c : r*c]
 
 	return m
 }
-- 
2.43.0


From 2605daca32fc1c14a558fb604baae032d34672f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 27/31] fix: interactive client: ask again for an empty text,
 which is part of every email

---
 cmd/grpc/client/interactive/mod.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index 85d20b6..a41a5fb 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -298,7 +298,7 @@ func getCountByEmailQuery() (*query.ClientFSS, string, error) {
 
 	var q string
 
-	err = survey.AskOne(prompt, &q)
+	err = survey.AskOne(prompt, &q, survey.WithValidator(survey.Required))
 	if err != nil {
 		return nil, "", xerrors.Errorf("failed to ask: %v", err)
 	}
@@ -399,7 +399,7 @@ func getAvg(actor manager.Actor) error {
 
 	var q string
 
-	err = survey.AskOne(prompt, &q)
+	err = survey.AskOne(prompt, &q, survey.WithValidator(survey.Required))
 	if err != nil {
 		return xerrors.Errorf("failed to ask: %v", err)
 	}
-- 
2.43.0


From 3371cb585bc95ea5854dca0e2d80f886dec8d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 28/31] fix: simulations client: retrieve also the last block,
 and the whole database

---
 simulations/multi/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 858ba60..dc067c0 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -209,7 +209,7 @@ func (lc *localClient) retrievePointPIR() {
 	numRetrieveBlocks := bitsToBlocks(lc.dbInfo.BlockSize, lc.flags.elemBitSize, lc.flags.bitsToRetrieve)
 
 	// pick a random block index to start the retrieval
-	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks)
+	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks + 1)
 
 	queryByte := make([]byte, 4)
 	for j := 0; j < lc.flags.repetitions; j++ {
-- 
2.43.0


From 263d057c8a0b5414697f7dcc20bea7652d91c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 29/31] fix: client: reject a Merkle block whose padding was
 changed

---
 lib/client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/client/client.go b/lib/client/client.go
index c081c40..fa2b9af 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -1,6 +1,7 @@
 package client
 
 import (
+	"bytes"
 	"errors"
 	"log"
 
@@ -56,6 +57,11 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 		if err != nil {
 			return block, err
 		}
+		// any other signal byte has been changed by a server; whether it is the
+		// signal byte depends on the length of the queried block
+		if padding := bytes.TrimRight(block, "\x00"); !bytes.HasSuffix(padding, []byte{0x80}) {
+			return nil, errors.New("REJECT: no padding")
+		}
 		block = database.UnPadBlock(block)
 		if len(block) < dbInfo.ProofLen {
 			return nil, errors.New("REJECT: block too short")
-- 
2.43.0


From 56494e7bf5349489a93070199e82499bdef5da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 30/31] fix: client: verify all the rows of a Merkle answer,
 not only the queried one

---
 lib/client/pir_point.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 1be9dc8..6bb2597 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -74,6 +74,16 @@ func (c *PIR) ReconstructBytes(a [][]byte) (interface{}, error) {
 
 // Reconstruct reconstruct the entry of the database from answers
 func (c *PIR) Reconstruct(answers [][]byte) ([]byte, error) {
+	// Verify also the other rows: otherwise a server could change the answer
+	// for one row and learn from a rejection that this row is queried.
+	if c.dbInfo.PIRType == "merkle" {
+		for row := 0; row < c.dbInfo.NumRows; row++ {
+			other := &state{ix: row, iy: c.state.iy}
+			if _, err := reconstructPIR(answers, c.dbInfo, other); err != nil {
+				return nil, err
+			}
+		}
+	}
 	return reconstructPIR(answers, c.dbInfo, c.state)
 }
 
-- 
2.43.0


From 4fb4e87f96f20b465ff4a25a26b9f7dbcaa4f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 31/31] fix: client: reject words of a complex answer that are
 not field elements

---
 lib/client/fss.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index d38f8e6..4a20e55 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -91,6 +91,16 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 		return 0, errors.New("REJECT: unexpected number or length of answers")
 	}
 
+	// the sums below would overflow for some results, but not for others, and
+	// the rejection would then tell a malicious server which
+	for k := range answers {
+		for _, word := range answers[k] {
+			if word >= field.ModP {
+				return 0, errors.New("REJECT: not a field element")
+			}
+		}
+	}
+
 	// AVG case
 	if len(answers[0]) == 2*c.executions {
 		countFirst := answers[0][:c.executions]
-- 
2.43.0

