package main

import (
	"fmt"

	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID: "C11",
		Bounds: "all sizes 1..70 (thorough 1..300) and around 128, 256, 512, 1024 with all positions; all repetition patterns up to 7 (thorough 9) blocks; " +
			"all changes of one byte of data, of the encoded proof and of the root, all pairs (proof, data, position) for small lists; all pairs of lists of up to 3 blocks over 5 blocks for the roots",
		Assumptions: []string{"BLAKE3 is collision resistant"},
		Run:         runC11,
	})
}

func runC11(r *eng.R) {
	verify := func(data []byte, p *merkle.Proof, root []byte) bool {
		// the client's sequence: no error is expected, a rejection is "false"
		ok, err := merkle.VerifyProof(data, p, root)
		r.Trans(1)
		if err != nil {
			return false
		}
		return ok
	}
	complete := func(blocks [][]byte, positions []int, key string) (*merkle.MerkleTree, []*merkle.Proof) {
		t, err := merkle.New(blocks)
		if err != nil {
			r.Failf("%s: %v", key, err)
		}
		root := dup(t.Root())
		if len(root) != 32 {
			r.Failf("%s: root of %d bytes", key, len(root))
		}
		proofs := make([]*merkle.Proof, len(blocks))
		for _, k := range positions {
			p, err := t.GenerateProofAt(uint32(k))
			if err != nil {
				r.Failf("%s: proof of position %d: %v", key, k, err)
			}
			if int(p.Index) != k {
				r.Failf("%s: the proof of position %d has index %d", key, k, p.Index)
			}
			proofs[k] = p
			if !verify(blocks[k], p, root) {
				r.Failf("%s: the proof of position %d does not verify", key, k)
			}
			enc := merkle.EncodeProof(p)
			if len(enc) != t.EncodedProofLength() {
				r.Failf("%s: encoded proof of %d bytes, %d announced", key, len(enc), t.EncodedProofLength())
			}
			dec, err := merkle.DecodeProofChecked(enc)
			if err != nil {
				r.Failf("%s: encoded proof of position %d: %v", key, k, err)
			}
			if dec.Index != p.Index || len(dec.Hashes) != len(p.Hashes) || !verify(blocks[k], dec, root) {
				r.Failf("%s: the encoded proof of position %d does not verify", key, k)
			}
			d2 := merkle.DecodeProof(enc)
			if d2.Index != p.Index || !verify(blocks[k], d2, root) {
				r.Failf("%s: the decoded proof of position %d does not verify", key, k)
			}
			// by content: a proof of some position with this content
			pc, err := t.GenerateProof(blocks[k])
			if err != nil {
				r.Failf("%s: proof by content of position %d: %v", key, k, err)
			}
			if int(pc.Index) >= len(blocks) || !eq(blocks[pc.Index], blocks[k]) || !verify(blocks[k], pc, root) {
				r.Failf("%s: the proof by content of position %d does not verify", key, k)
			}
			r.State(key, k, enc)
			r.Trace()
		}
		if !eq(root, t.Root()) {
			r.Failf("%s: the root changed", key)
		}
		return t, proofs
	}
	// sizes
	maxN := 70
	if r.Thorough {
		maxN = 300
	}
	sizes := []int{}
	for n := 1; n <= maxN; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 16385, 32769, 65535, 65536, 65537, 70000} {
		if n > maxN {
			sizes = append(sizes, n)
		}
	}
	for _, n := range sizes {
		for kind := 0; kind < 4; kind++ {
			n, kind := n, kind
			r.Case(fmt.Sprintf("size=%d kind=%d", n, kind), func() {
				blocks := make([][]byte, n)
				for k := range blocks {
					switch kind {
					case 0: // distinct
						blocks[k] = []byte(fmt.Sprintf("block %d", k))
					case 1: // equal
						blocks[k] = []byte("the same")
					case 2: // lengths 0.. with prefixes of each other
						blocks[k] = make([]byte, k%67)
					case 3: // empty and not
						if k%3 == 0 {
							blocks[k] = []byte{byte(k), byte(k >> 8)}
						}
					}
				}
				pos := upTo(n)
				if n > 300 {
					pos = boundaries(n)
				}
				_, proofs := complete(blocks, pos, fmt.Sprintf("size %d kind %d", n, kind))
				// neighbours: wrong position or data
				t, _ := merkle.New(blocks)
				root := t.Root()
				for _, k := range pos {
					for _, j := range []int{k - 1, k + 1, k ^ 1, k ^ 2, n - 1, 0} {
						if j < 0 || j >= n || j == k || proofs[k] == nil || proofs[j] == nil {
							continue
						}
						if !eq(blocks[j], blocks[k]) && verify(blocks[j], proofs[k], root) {
							r.Failf("the proof of %d verifies for the data of %d", k, j)
						}
						p := *proofs[k]
						p.Index = uint32(j)
						if verify(blocks[k], &p, root) {
							r.Failf("the proof of %d verifies with index %d", k, j)
						}
						p = *proofs[j]
						p.Index = uint32(k)
						if verify(blocks[j], &p, root) {
							r.Failf("the proof of %d verifies with index %d", j, k)
						}
					}
				}
			})
		}
	}
	// all repetition patterns
	maxP := 7
	if r.Thorough {
		maxP = 9
	}
	for n := 1; n <= maxP; n++ {
		partitions(n, func(p []int) {
			p = append([]int(nil), p...)
			r.Case(fmt.Sprintf("pattern %v", p), func() {
				blocks := make([][]byte, n)
				for k := range blocks {
					blocks[k] = blockData(p[k], 3)
				}
				t, proofs := complete(blocks, upTo(n), fmt.Sprint(p))
				root := t.Root()
				// all triples: proof of k, index i, data of j
				for k := 0; k < n; k++ {
					for i := 0; i < n+3; i++ {
						for j := 0; j < n; j++ {
							q := &merkle.Proof{Hashes: proofs[k].Hashes, Index: uint32(i)}
							good := i == k && eq(blocks[j], blocks[k])
							if i != k && i < n && eq(blocks[i], blocks[j]) {
								// can be the proof of i, when all its hashes are equal
								same := true
								for h := range proofs[i].Hashes {
									same = same && eq(proofs[i].Hashes[h], proofs[k].Hashes[h])
								}
								good = good || same
							}
							if verify(blocks[j], q, root) != good {
								r.Failf("pattern %v: proof of %d with index %d for the data of %d: accepted is %v", p, k, i, j, !good)
							}
							r.Outcome(fmt.Sprint(good))
						}
					}
				}
			})
		})
	}
	// all single byte changes
	for _, n := range []int{1, 2, 3, 5, 8, 13} {
		for _, dl := range []int{1, 28, 60, 64} {
			n, dl := n, dl
			r.Case(fmt.Sprintf("tamper n=%d len=%d", n, dl), func() {
				blocks := make([][]byte, n)
				for k := range blocks {
					blocks[k] = blockData(k, dl)
				}
				t, proofs := complete(blocks, upTo(n), fmt.Sprintf("tamper %d %d", n, dl))
				root := t.Root()
				for k := 0; k < n; k++ {
					enc := merkle.EncodeProof(proofs[k])
					try := func(what string, d, e, rt []byte) {
						p, err := merkle.DecodeProofChecked(e)
						if err == nil && len(p.Hashes) == len(proofs[k].Hashes) && verify(d, p, rt) {
							r.Failf("n=%d k=%d: %s is accepted", n, k, what)
						}
						r.State("t", n, dl, k, d, e, rt)
						r.Trace()
					}
					for i := range enc {
						for b := uint(0); b < 8; b++ {
							e := dup(enc)
							e[i] ^= 1 << b
							// an index that is equal modulo the number of leaves only changes
							// the announced position, which the caller compares
							if i >= len(enc)-4 {
								p, err := merkle.DecodeProofChecked(e)
								if err == nil && p.Index == proofs[k].Index {
									r.Failf("n=%d: changing the index does not change it", n)
								}
							}
							try(fmt.Sprintf("proof with bit %d of byte %d changed", b, i), blocks[k], e, root)
						}
					}
					for i := range blocks[k] {
						for b := uint(0); b < 8; b++ {
							d := dup(blocks[k])
							d[i] ^= 1 << b
							try(fmt.Sprintf("data with bit %d of byte %d changed", b, i), d, enc, root)
						}
					}
					for i := range root {
						for b := uint(0); b < 8; b++ {
							rt := dup(root)
							rt[i] ^= 1 << b
							try(fmt.Sprintf("root with bit %d of byte %d changed", b, i), blocks[k], enc, rt)
						}
					}
					for _, rt := range [][]byte{nil, {}, root[:31], cat(root, []byte{0}), make([]byte, 32)} {
						try("other root", blocks[k], enc, rt)
					}
					for c := 0; c <= len(enc); c++ {
						if c < len(enc) {
							if _, err := merkle.DecodeProofChecked(enc[:c]); err == nil {
								r.Failf("n=%d: a proof cut to %d bytes is decoded", n, c)
							}
						}
					}
					try("extended proof", blocks[k], cat(enc, []byte{0}), root)
					try("cut data", blocks[k][:dl-1], enc, root)
					try("extended data", cat(blocks[k], []byte{0}), enc, root)
				}
			})
		}
	}
	// different lists have different roots
	alpha := [][]byte{{}, {0}, {0, 0, 0, 0}, []byte("a"), []byte("ab")}
	r.Case("roots", func() {
		roots := map[string]string{}
		var rec func(l [][]byte, d string)
		maxL := 4
		if r.Thorough {
			maxL = 6
		}
		rec = func(l [][]byte, d string) {
			if len(l) > 0 {
				t, err := merkle.New(l)
				if err != nil {
					r.Failf("%v", err)
				}
				k := string(t.Root())
				if o, ok := roots[k]; ok {
					r.Failf("lists %s and %s have the same root", o, d)
				}
				roots[k] = d
				r.State("root", d)
				r.Trans(1)
				r.Trace()
			}
			if len(l) == maxL {
				return
			}
			for i, a := range alpha {
				rec(append(append([][]byte(nil), l...), a), fmt.Sprintf("%s,%d", d, i))
			}
		}
		rec(nil, "")
		if _, err := merkle.New(nil); err == nil {
			r.Failf("a tree of nothing")
		}
	})
}
