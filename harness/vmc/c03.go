package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C03",
		Bounds: "(a) all 2^16 tapes (three servers; thorough also all 2^24 for four servers) of every shape whose sharing uses as little randomness, all indices, all coalitions of all servers but one: equal multisets of views; (b) 3..5 servers and larger shapes (up to 300 columns): all unit vectors of the tape space, which determine an affine sharing, plus tapes that confirm it; equal affine images; (c) two servers: the affine hulls of the keys over (bits+64) tapes; (d) the views of pairs of successive queries of one client, likewise; (e) 3 to 17 servers and up to 70000 columns: the relations between at most two bits over 64 tapes, for several indices and those of the columns in a relation",
		Assumptions: []string{"for DPF keys and for larger shapes: what distinguishes two distributions is looked for among GF(2)-affine relations; the pseudorandom generator of the DPF is trusted",
			"the multisets are compared by a 64-bit hash sum"},
		Run: runC03,
	})
}

func queryPIR(c *client.PIR, ix, ns int, viaBytes bool) ([][]byte, error) {
	if !viaBytes {
		return c.Query(ix, ns), nil
	}
	in := make([]byte, 4)
	binary.BigEndian.PutUint32(in, uint32(ix))
	return c.QueryBytes(in, ns)
}

// view is what all servers but the given one receive.
func view(qs [][]byte, out int) []byte {
	var v []byte
	for i, q := range qs {
		if i != out {
			v = append(v, q...)
		}
	}
	return v
}

func runC03(r *eng.R) {
	infoOf := func(rows, cols int, merkle bool) *database.Info {
		n := rows * cols
		in := &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 4, BlockLengths: lensOf(0, n, 4)}
		if merkle {
			in.PIRType = "merkle"
			in.Merkle = &database.Merkle{Root: make([]byte, 32), ProofLen: 8}
			in.BlockSize = 20
		}
		return in
	}
	// run executes the queries on one client with the tape
	run := func(in *database.Info, ns int, ixs []int, tape *detrand.Tape) ([][]byte, int) {
		detrand.Set(tape)
		c := client.NewPIR(tape, in)
		var all [][]byte
		for k, ix := range ixs {
			qs, err := queryPIR(c, ix, ns, k%2 == 0)
			if err != nil {
				r.Failf("query of index %d: %v", ix, err)
			}
			r.Trans(1)
			if len(qs) != ns {
				r.Failf("query of index %d: %d messages for %d servers", ix, len(qs), ns)
			}
			if all == nil {
				all = make([][]byte, ns)
			}
			for i := range qs {
				all[i] = append(all[i], qs[i]...)
				all[i] = append(all[i], 0xa5) // separates the messages of successive queries
			}
		}
		r.Trace()
		return all, tape.Used()
	}
	lens := func(qs [][]byte) string {
		s := ""
		for _, q := range qs {
			s += fmt.Sprint(len(q), " ")
		}
		return s
	}

	// (a) the exact distribution
	exact := func(rows, cols, ns int, pair bool) {
		in := infoOf(rows, cols, false)
		n := rows * cols
		ixs := [][]int{}
		for i := 0; i < n; i++ {
			if !pair {
				ixs = append(ixs, []int{i})
				continue
			}
			for j := 0; j < n; j++ {
				ixs = append(ixs, []int{i, j})
			}
		}
		_, used := run(in, ns, ixs[0], detrand.Prefix(nil, 1))
		limit := 2
		if r.Thorough {
			limit = 3
		}
		if used > limit {
			r.Note("%dx%d, %d servers: %d bytes of randomness, covered by (b)", rows, cols, ns, used)
			return
		}
		var ref []uint64
		refLens := ""
		for k, ix := range ixs {
			sums := make([]uint64, ns)
			tapes := 1 << (8 * uint(used))
			for t := 0; t < tapes; t++ {
				tb := []byte{byte(t), byte(t >> 8), byte(t >> 16)}
				qs, u := run(in, ns, ix, detrand.Prefix(tb[:used], 7))
				if u != used {
					r.Failf("indices %v use %d bytes of randomness, indices %v %d", ix, u, ixs[0], used)
				}
				if l := lens(qs); refLens == "" {
					refLens = l
				} else if l != refLens {
					r.Failf("indices %v: messages of lengths %s, others %s", ix, l, refLens)
				}
				for out := 0; out < ns; out++ {
					f := fnv.New64a()
					f.Write(view(qs, out))
					x := f.Sum64()
					// mix, so that sums of hashes of close inputs do not collide
					x ^= x >> 31
					x *= 0x9e3779b97f4a7c15
					x ^= x >> 29
					sums[out] += x * 0xbf58476d1ce4e5b9
				}
			}
			if ref == nil {
				ref = sums
			}
			for out := range sums {
				if sums[out] != ref[out] {
					r.Failf("%d servers, %dx%d: without server %d, the views for indices %v and %v are distributed differently", ns, rows, cols, out, ixs[0], ixs[k])
				}
				r.State("a", rows, cols, ns, k, out, pair)
			}
			r.Outcome(fmt.Sprintf("tapes2^%d", 8*used))
		}
	}
	for cols := 1; cols <= 7; cols++ {
		for rows := 1; rows <= 2; rows++ {
			for ns := 3; ns <= 4; ns++ {
				cols, rows, ns := cols, rows, ns
				r.Case(fmt.Sprintf("exact rows=%d cols=%d servers=%d", rows, cols, ns), func() { exact(rows, cols, ns, false) })
			}
		}
	}

	// (b) affine sharing
	affine := func(rows, cols, ns int, merkle bool, seqs [][]int) {
		in := infoOf(rows, cols, merkle)
		_, used := run(in, ns, seqs[0], detrand.Prefix(nil, 1))
		var ref []string
		refLens := ""
		for _, seq := range seqs {
			hs := make([]hull, ns)
			feed := func(tape *detrand.Tape) [][]byte {
				qs, u := run(in, ns, seq, tape)
				if u != used {
					r.Failf("indices %v use %d bytes of randomness, indices %v %d", seq, u, seqs[0], used)
				}
				if l := lens(qs); refLens == "" {
					refLens = l
				} else if l != refLens {
					r.Failf("indices %v: messages of lengths %s, others %s", seq, l, refLens)
				}
				for out := range hs {
					hs[out].add(view(qs, out))
				}
				return qs
			}
			feed(detrand.Prefix(make([]byte, used), 1))
			for b := 0; b < 8*used; b++ {
				t := make([]byte, used)
				t[b/8] = 1 << uint(b%8)
				feed(detrand.Prefix(t, 1))
			}
			for k := 0; k < 32; k++ {
				feed(detrand.New(uint64(1000 + k)))
			}
			for out := range hs {
				key := hs[out].key()
				if len(ref) <= out {
					ref = append(ref, key)
				}
				if key != ref[out] {
					r.Failf("%d servers, %dx%d: without server %d, the views for indices %v and %v are distributed differently (%s, %s)", ns, rows, cols, out, seqs[0], seq, ref[out], key)
				}
				r.State("b", rows, cols, ns, fmt.Sprint(seq), out)
			}
			r.Outcome(fmt.Sprintf("affine%d", 8*used))
		}
	}
	// (c) hulls over tapes
	keyed := func(rows, cols, ns int, merkle bool, seqs [][]int) {
		in := infoOf(rows, cols, merkle)
		qs, used := run(in, ns, seqs[0], detrand.New(1))
		refLens := lens(qs)
		bitsN := 0
		for out := 0; out < ns; out++ {
			if n := 8 * len(view(qs, out)); n > bitsN {
				bitsN = n
			}
		}
		var ref []string
		for si, seq := range seqs {
			hs := make([]hull, ns)
			for t := 0; t < bitsN+64; t++ {
				// tapes of their own for every sequence: an unlucky relation
				// between 64 surplus tapes has probability 2^-64
				qs, u := run(in, ns, seq, detrand.New(uint64(si)<<20+uint64(t)+2+r.Seed<<40))
				if u != used {
					r.Failf("indices %v use %d bytes of randomness, indices %v %d", seq, u, seqs[0], used)
				}
				if l := lens(qs); l != refLens {
					r.Failf("indices %v: messages of lengths %s, others %s", seq, l, refLens)
				}
				for out := range hs {
					hs[out].add(view(qs, out))
				}
			}
			for out := range hs {
				key := hs[out].key()
				if len(ref) <= out {
					ref = append(ref, key)
				}
				if key != ref[out] {
					r.Failf("%d servers, %dx%d: without server %d, the views for indices %v and %v are distributed differently (%s, %s)", ns, rows, cols, out, seqs[0], seq, ref[out], key)
				}
				r.State("c", rows, cols, ns, fmt.Sprint(seq), out)
			}
			r.Outcome(fmt.Sprintf("keys%d", bitsN))
		}
	}
	singles := func(rows, cols, max int) [][]int {
		n := rows * cols
		idx := upTo(n)
		if n > max {
			idx = boundaries(n)
		}
		var s [][]int
		for _, i := range idx {
			s = append(s, []int{i})
		}
		return s
	}
	pairs := func(idx []int) [][]int {
		var s [][]int
		for _, i := range idx {
			for _, j := range idx {
				s = append(s, []int{i, j})
			}
		}
		return s
	}
	for _, cols := range []int{1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 130, 300} {
		for ns := 3; ns <= 5; ns++ {
			for rows := 1; rows <= 3; rows += 2 {
				if cols > 65 && (rows > 1 || ns > 3) && !r.Thorough {
					continue
				}
				cols, ns, rows := cols, ns, rows
				max := 310
				if r.Thorough {
					max = 400
				}
				r.Case(fmt.Sprintf("affine rows=%d cols=%d servers=%d", rows, cols, ns), func() {
					affine(rows, cols, ns, rows == 3, singles(rows, cols, max))
				})
			}
		}
	}
	// (e) relations between at most two bits, for large databases
	small := func(rows, cols, ns int) {
		in := infoOf(rows, cols, rows > 1)
		n := rows * cols
		var ref []string
		refLens, refUsed := "", -1
		idx := boundaries(n)
		if len(idx) > 8 {
			idx = []int{0, 1, 8, 63, 256, n / 2, n - 2, n - 1}
		}
		chosen := map[int]bool{}
		for si := 0; si < len(idx); si++ {
			ix := idx[si]
			words := make([][]uint64, ns)
			for t := 0; t < 64; t++ {
				qs, u := run(in, ns, []int{ix}, detrand.New(uint64(si)<<20+uint64(t)+r.Seed<<40+77))
				if refUsed < 0 {
					refUsed, refLens = u, lens(qs)
				}
				if l := lens(qs); u != refUsed || l != refLens {
					r.Failf("index %d: %d bytes of randomness, messages of lengths %s; others %d, %s", ix, u, l, refUsed, refLens)
				}
				for s, q := range qs {
					if words[s] == nil {
						words[s] = make([]uint64, 8*len(q))
					}
					for b := range words[s] {
						words[s][b] |= uint64(q[b/8]>>uint(b%8)&1) << uint(t)
					}
				}
			}
			for out := 0; out < ns; out++ {
				if ns > 5 && out > 1 && out < ns-1 {
					ref = append(ref, "")
					continue
				}
				// the first bit with the same or the opposite values
				first := map[uint64]int{}
				rel := fnv.New64a()
				count, pos := 0, 0
				for s := range words {
					if s == out {
						continue
					}
					for _, w := range words[s] {
						neg := w&1 != 0
						if neg {
							w = ^w
						}
						if p, ok := first[w]; ok || w == 0 {
							count++
							// a relation between bits of columns shows in the
							// views for these columns
							for _, b := range []int{pos, p} {
								if c := b % len(words[s]); si == 0 && c < cols && !chosen[c] && len(chosen) < 100 {
									chosen[c] = true
									idx = append(idx, c)
								}
							}
							fmt.Fprint(rel, pos, " ", p, " ", neg, " ", w == 0, ";")
						}
						if _, ok := first[w]; !ok {
							first[w] = pos
						}
						pos++
					}
				}
				key := fmt.Sprintf("%d relations, %x", count, rel.Sum64())
				if len(ref) <= out {
					ref = append(ref, key)
				}
				if key != ref[out] {
					r.Failf("%d servers, %dx%d: without server %d, the views for indices 0 and %d are distributed differently (%s, %s)", ns, rows, cols, out, ix, ref[out], key)
				}
				r.State("e", rows, cols, ns, ix, out)
			}
			r.Outcome("small relations")
		}
	}
	for _, cols := range []int{300, 512, 520, 600, 1024, 1100, 2100, 4096, 4200, 8200, 70000} {
		for _, ns := range []int{3, 4, 5, 9, 17} {
			for _, rows := range []int{1, 2} {
				if cols > 8200 && (ns > 3 || rows > 1) {
					continue
				}
				cols, ns, rows := cols, ns, rows
				r.Case(fmt.Sprintf("bits rows=%d cols=%d servers=%d", rows, cols, ns), func() { small(rows, cols, ns) })
			}
		}
	}
	for _, cols := range []int{3, 8, 11, 20} {
		for ns := 3; ns <= 4; ns++ {
			cols, ns := cols, ns
			r.Case(fmt.Sprintf("affine pairs cols=%d servers=%d", cols, ns), func() {
				affine(1, cols, ns, false, pairs(upTo(cols)))
			})
		}
	}
	for _, cols := range []int{1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 600, 1100} {
		for rows := 1; rows <= 2; rows++ {
			cols, rows := cols, rows
			max := 40
			if r.Thorough {
				max = 1200
			}
			r.Case(fmt.Sprintf("keys rows=%d cols=%d", rows, cols), func() {
				keyed(rows, cols, 2, rows == 2, singles(rows, cols, max))
			})
		}
	}
	for _, cols := range []int{3, 9, 127, 260} {
		cols := cols
		r.Case(fmt.Sprintf("keys pairs cols=%d", cols), func() {
			idx := upTo(cols)
			if cols > 9 {
				idx = []int{0, 1, 64, cols / 2, cols - 1}
			}
			keyed(1, cols, 2, false, pairs(idx))
		})
	}
}
