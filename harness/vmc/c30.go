package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"lukechampine.com/uint128"
)

func init() {
	register(&eng.Check{
		ID: "C30",
		Bounds: "lattice schemes (32-bit, 128-bit, amplified with t up to 3) and group scheme (4 groups): all indices of shapes up to 64 rows or 12 columns, 4 tapes each: with the same randomness, queries for any two indices agree (up to the noise) outside one place per block; " +
			"every byte of randomness (32-bit, groups; 128-bit: every 8th, 16th for the second query, thorough: every) changed once: which places of the query it masks, at least 1024 (4096) independent coordinates of the secret and 32 bytes per scalar, in the query that is the first or the second of a client; all values of every byte of the blinding; relations between at most two bits of the queries over 64 tapes, for all indices; all small relations between three group elements",
		Assumptions: []string{"the learning-with-errors and the decisional Diffie-Hellman assumption: what is checked is that the mask has the structure that they need; the noise is the subject of C09"},
		QuickSec:    400,
		Run:         runC30,
	})
}

// soloScheme is a single-server scheme over one database. A query consists of
// blocks of places.
type soloScheme struct {
	name   string
	n      int // indices
	blocks int
	client func(rnd io.Reader) func(ix int) ([]byte, error)
	split  func(q []byte) ([]interface{}, error)
	near   func(a, b interface{}) bool
	bucket func(a interface{}) uint64
	mask   int // bytes of randomness that have to mask every block
	blind  int // bytes of randomness that have to blind the place of the index
	step   int // every step-th byte is changed
}

func absDiff128(a, b uint128.Uint128) uint128.Uint128 {
	d := a.SubWrap(b)
	if e := b.SubWrap(a); e.Cmp(d) < 0 {
		return e
	}
	return d
}

func latticeSolo(r *eng.R, kind string, rows, cols, tECC int) *soloScheme {
	bits := make([]byte, rows*cols)
	for i := range bits {
		bits[i] = byte(i*i/3+i) & 1
	}
	l := newLattice(kind, rows, cols, bits, tECC)
	s := &soloScheme{name: fmt.Sprintf("lattice %s %dx%d t=%d", kind, rows, cols, tECC), n: rows * cols, blocks: l.reps, mask: 4 * 1024, blind: 4, step: 1}
	s.client = func(rnd io.Reader) func(int) ([]byte, error) { return l.client(rnd).query }
	add := func(out []interface{}, m *matrix.Matrix) []interface{} {
		for i := 0; i < m.Rows(); i++ {
			for j := 0; j < m.Cols(); j++ {
				out = append(out, uint128.From64(uint64(m.Get(i, j))))
			}
		}
		return out
	}
	noise := uint64(1024)
	s.near = func(a, b interface{}) bool {
		d := uint32(a.(uint128.Uint128).Lo) - uint32(b.(uint128.Uint128).Lo)
		return uint64(d) < noise || uint64(-d) < noise
	}
	s.bucket = func(a interface{}) uint64 { return a.(uint128.Uint128).Lo >> 12 }
	switch kind {
	case "32":
		s.split = func(q []byte) ([]interface{}, error) { return add(nil, matrix.BytesToMatrix(q)), nil }
	case "amp":
		s.split = func(q []byte) ([]interface{}, error) {
			var out []interface{}
			for _, m := range matrix.BytesToMatrices(q) {
				out = add(out, m)
			}
			return out, nil
		}
	case "128":
		s.mask, s.blind, s.step = 16*4096, 16, 8
		if r.Thorough {
			s.step = 1
		}
		s.near = func(a, b interface{}) bool {
			return absDiff128(a.(uint128.Uint128), b.(uint128.Uint128)).Cmp64(noise) < 0
		}
		s.bucket = func(a interface{}) uint64 {
			x := a.(uint128.Uint128)
			return x.Rsh(12).Lo
		}
		s.split = func(q []byte) ([]interface{}, error) {
			var out []interface{}
			m := matrix.BytesToMatrix128(q)
			for i := 0; i < m.Rows(); i++ {
				for j := 0; j < m.Cols(); j++ {
					out = append(out, m.Get(i, j))
				}
			}
			return out, nil
		}
	}
	return s
}

func groupSolo(r *eng.R, name string, g group.Group, rows, cols int) *soloScheme {
	bits := make([]byte, rows*cols)
	for i := range bits {
		bits[i] = byte(i*i/3+i) & 1
	}
	db, err := ellipticDB(rows, cols, bits, g)
	if err != nil {
		r.Failf("%v", err)
	}
	s := &soloScheme{name: fmt.Sprintf("group %s %dx%d", name, rows, cols), n: rows * cols, blocks: 1, mask: 32, blind: 32, step: 1}
	s.client = func(rnd io.Reader) func(int) ([]byte, error) { return client.NewDH(rnd, &db.Info).QueryBytes }
	s.split = func(q []byte) ([]interface{}, error) {
		es, err := database.UnmarshalGroupElements(q, g, db.ElementSize)
		var out []interface{}
		for _, e := range es {
			out = append(out, e)
		}
		return out, err
	}
	s.near = func(a, b interface{}) bool { return a.(group.Element).IsEqual(b.(group.Element)) }
	return s
}

func runC30(r *eng.R) {
	var all []func() *soloScheme
	var names []string
	sweep := map[int]bool{}
	lat := func(kind string, rows, cols, t int, bytes bool) {
		sweep[len(all)] = bytes
		names = append(names, fmt.Sprintf("lattice %s %dx%d t=%d", kind, rows, cols, t))
		all = append(all, func() *soloScheme { return latticeSolo(r, kind, rows, cols, t) })
	}
	lat("32", 1, 1, 0, true)
	lat("32", 2, 1, 0, false)
	lat("32", 3, 2, 0, true)
	lat("32", 4, 4, 0, true)
	lat("32", 8, 1, 0, true)
	lat("32", 5, 3, 0, false)
	lat("32", 16, 2, 0, false)
	lat("32", 33, 1, 0, false)
	lat("32", 64, 3, 0, true)
	lat("128", 2, 1, 0, false)
	lat("128", 4, 2, 0, true)
	lat("128", 9, 1, 0, false)
	lat("amp", 3, 2, 1, true)
	lat("amp", 8, 1, 2, true)
	lat("amp", 4, 1, 3, false)
	for _, g := range []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"P384", group.P384}, {"P521", group.P521}, {"ristretto", group.Ristretto255}} {
		for _, s := range [][2]int{{1, 1}, {2, 3}, {1, 8}, {4, 5}, {3, 9}, {2, 12}} {
			g, s := g, s
			if s[0]*s[1] > 8 && (g.g == group.P384 || g.g == group.P521) && !r.Thorough {
				continue
			}
			names = append(names, fmt.Sprintf("group %s %dx%d", g.name, s[0], s[1]))
			sweep[len(all)] = true
			all = append(all, func() *soloScheme { return groupSolo(r, g.name, g.g, s[0], s[1]) })
		}
	}
	for k := range all {
		k := k
		r.Case("masks "+names[k], func() { masksC30(r, all[k]()) })
		r.Case("relations of bits "+names[k], func() { bitsC30(r, all[k]()) })
		if sweep[k] {
			for second := 0; second < 2; second++ {
				second := second
				r.Case(fmt.Sprintf("bytes of randomness %s, query %d", names[k], second+1), func() { bytesC30(r, all[k](), second) })
			}
		}
		if names[k][0] == 'g' {
			r.Case("relations of elements "+names[k], func() { elementsC30(r, all[k]()) })
		}
	}
}

// ask makes the queries with one client, and tells how much randomness the last
// one takes.
func (s *soloScheme) ask(r *eng.R, rnd *detrand.Tape, ixs ...int) (q []byte, es []interface{}, from, to int) {
	// one tape, whether the client takes its randomness from the reader that it
	// is given or from the system
	detrand.Set(rnd)
	f := s.client(rnd)
	for _, ix := range ixs {
		from = rnd.Used()
		var err error
		if q, err = f(ix); err != nil {
			r.Failf("%s: query %d: %v", s.name, ix, err)
		}
		to = rnd.Used()
		r.Trans(1)
	}
	es, err := s.split(q)
	if err != nil || len(es)%s.blocks != 0 || len(es) == 0 {
		r.Failf("%s: query %v: %d elements, %v", s.name, ixs, len(es), err)
	}
	return
}

// masksC30: what the index changes is one place of every block.
func masksC30(r *eng.R, s *soloScheme) {
	pattern := map[[2]int]string{}
	for tape := uint64(0); tape < 4; tape++ {
		var ref []interface{}
		var refs [][]interface{}
		refLen, refUse := 0, -1
		for ix := 0; ix < s.n; ix++ {
			// as the first query of a client, and after another one
			for _, hist := range [][]int{nil, {0}, {s.n - 1}} {
				t := detrand.New(tape + 100)
				q, es, from, to := s.ask(r, t, append(append([]int(nil), hist...), ix)...)
				if hist != nil {
					// the same as a first query with the rest of the tape
					if to-from != refUse || len(q) != refLen {
						r.Failf("%s: after index %v, the query for %d takes %d bytes of randomness and has %d, a first one %d and %d", s.name, hist, ix, to-from, len(q), refUse, refLen)
					}
					continue
				}
				if ref == nil {
					ref, refLen, refUse = es, len(q), to-from
				}
				if len(q) != refLen || to-from != refUse || len(es) != len(ref) {
					r.Failf("%s: the query for index %d has %d bytes and takes %d bytes of randomness, that for index 0 %d and %d", s.name, ix, len(q), to-from, refLen, refUse)
				}
				refs = append(refs, es)
			}
			r.State(s.name, tape, ix)
		}
		size := len(ref) / s.blocks
		for a := 0; a < s.n; a++ {
			for b := 0; b < a; b++ {
				p := ""
				for k := 0; k < s.blocks; k++ {
					n := 0
					for j := k * size; j < (k+1)*size; j++ {
						if !s.near(refs[a][j], refs[b][j]) {
							p += fmt.Sprint(j, " ")
							n++
						}
					}
					if n > 2 {
						r.Failf("%s: with the same randomness, the queries for %d and %d differ in %d places of a block: the mask depends on the index", s.name, a, b, n)
					}
				}
				if tape == 0 {
					pattern[[2]int{a, b}] = p
				} else if p != pattern[[2]int{a, b}] {
					r.Failf("%s: the queries for %d and %d differ at the places %q, or %q, depending on the randomness", s.name, a, b, pattern[[2]int{a, b}], p)
				}
			}
		}
		// the blocks are masked each on its own
		for j := range ref {
			for i := 0; i < j; i++ {
				if s.near(ref[i], ref[j]) {
					r.Failf("%s: places %d and %d are masked alike", s.name, i, j)
				}
			}
		}
	}
	r.Trace()
	r.Outcome("one place per block")
}

// bytesC30 changes every byte of the randomness once.
func bytesC30(r *eng.R, s *soloScheme, second int) {
	ixs := []int{s.n / 2}
	if second == 1 {
		if s.step > 1 {
			s.step *= 2
		}
		ixs = []int{s.n - 1, s.n / 2}
	}
	fixed := make([]byte, 1<<20)
	detrand.New(uint64(7 + second)).Read(fixed)
	tape := func(edit func(b []byte)) *detrand.Tape {
		b := fixed
		if edit != nil {
			b = append([]byte(nil), fixed...)
			edit(b)
		}
		return detrand.Prefix(b, 3)
	}
	_, ref, from, to := s.ask(r, tape(nil), ixs...)
	fixed = fixed[:to]
	size := len(ref) / s.blocks
	masks := make([]int, s.blocks)
	blinds := make([]int, s.blocks)
	var blindAt []int
	// the same change of the mask must not come from two places of the tape
	type effect struct {
		at int
		es []interface{}
	}
	seen := map[uint64][]effect{}
	for p := 0; p < to; p++ {
		if (p-from)%s.step != 0 && p >= from+64 && p < to-64 || p < from && p%97 != 0 {
			continue
		}
		_, es, _, to2 := s.ask(r, tape(func(b []byte) { b[p] ^= 0x41 }), ixs...)
		if to2 != to {
			// another number of draws, after a rejection
			continue
		}
		r.State(s.name, second, p)
		changed := make([]int, s.blocks)
		blocks, which := 0, 0
		for k := range changed {
			for j := k * size; j < (k+1)*size; j++ {
				if !s.near(es[j], ref[j]) {
					changed[k]++
				}
			}
			if changed[k] > 0 {
				blocks, which = blocks+1, k
			}
		}
		switch {
		case blocks == 0:
			continue
		case p < from:
			r.Failf("%s: byte %d of the randomness of the first query changes the second one", s.name, p)
		case blocks > 1:
			r.Failf("%s: byte %d of the randomness masks %d blocks", s.name, p, blocks)
		case changed[which] == 1 && size > 1:
			blinds[which]++
			blindAt = append(blindAt, p)
		case 2*changed[which] >= size:
			if (p-from)%s.step == 0 {
				masks[which] += s.step
			}
			if s.bucket != nil && size >= 3 {
				b := s.bucket(es[which*size])
				for d := uint64(0); d < 3; d++ {
					for _, o := range seen[b+d-1] {
						same := true
						for j := range es {
							if !s.near(es[j], o.es[j]) {
								same = false
								break
							}
						}
						if same {
							r.Failf("%s: bytes %d and %d of the randomness mask the query in the same way", s.name, o.at, p)
						}
					}
				}
				seen[b] = append(seen[b], effect{p, es})
			}
		default:
			r.Failf("%s: byte %d of the randomness masks only %d of %d places", s.name, p, changed[which], size)
		}
	}
	for k := range masks {
		// the lowest byte of the blinding drowns in the noise
		if masks[k] < s.mask || size > 1 && blinds[k] < s.blind-1 {
			r.Failf("%s, query %d, block %d: %d bytes of the randomness mask it, %d blind the place of the index; there should be at least %d and %d", s.name, second+1, k, masks[k], blinds[k], s.mask, s.blind)
		}
	}
	r.Outcome(fmt.Sprintf("masked by 2^%d bytes", log2(masks[0])))
	// the blinding takes as many values as its bytes
	if s.bucket != nil {
		full := 0
		for _, p := range blindAt {
			var vals []interface{}
			for v := 0; v < 256; v++ {
				_, es, _, to2 := s.ask(r, tape(func(b []byte) { b[p] = byte(v) }), ixs...)
				if to2 != to {
					continue
				}
				e := ref[0]
				for j := range es {
					if !s.near(es[j], ref[j]) {
						e = es[j]
					}
				}
				known := false
				for _, o := range vals {
					known = known || s.near(o, e)
				}
				if !known {
					vals = append(vals, e)
				}
			}
			if len(vals) >= 250 {
				full++
			}
		}
		if full < (s.blind-2)*s.blocks && size > 1 {
			r.Failf("%s: only %d bytes of the blinding give all values", s.name, full)
		}
	}
	r.Trace()
}

func log2(n int) int {
	l := 0
	for ; n > 1; n /= 2 {
		l++
	}
	return l
}

// bitsC30 looks for relations between at most two bits that depend on the index.
func bitsC30(r *eng.R, s *soloScheme) {
	ref := ""
	for ix := 0; ix < s.n; ix++ {
		if s.n > 40 && ix > 8 && ix < s.n-8 && ix%9 != 0 {
			continue
		}
		var words []uint64
		for t := 0; t < 64; t++ {
			q, _, _, _ := s.ask(r, detrand.New(uint64(ix)<<20+uint64(t)+r.Seed<<40+99), ix)
			if words == nil {
				words = make([]uint64, 8*len(q))
			}
			if 8*len(q) != len(words) {
				r.Failf("%s: index %d has queries of %d and of %d bytes", s.name, ix, len(q), len(words)/8)
			}
			for b := range words {
				words[b] |= uint64(q[b/8]>>uint(b%8)&1) << uint(t)
			}
		}
		first := map[uint64]int{}
		rel := fnv.New64a()
		count := 0
		for pos, w := range words {
			neg := w&1 != 0
			if neg {
				w = ^w
			}
			p, ok := first[w]
			if ok || w == 0 {
				count++
				var b [24]byte
				binary.LittleEndian.PutUint64(b[:], uint64(pos))
				binary.LittleEndian.PutUint64(b[8:], uint64(p))
				if neg {
					b[16] = 1
				}
				if w == 0 {
					b[17] = 1
				}
				rel.Write(b[:])
			}
			if !ok {
				first[w] = pos
			}
		}
		key := fmt.Sprintf("%d relations, %x", count, rel.Sum64())
		if ref == "" {
			ref = key
		}
		if key != ref {
			r.Failf("%s: the queries for indices 0 and %d are distributed differently (%s, %s)", s.name, ix, ref, key)
		}
		r.State(s.name, "bits", ix)
	}
	r.Trace()
	r.Outcome("no relation")
}

// elementsC30: no two or three elements of a query, or of the public generators,
// have a relation with small coefficients.
func elementsC30(r *eng.R, s *soloScheme) {
	_, es, _, _ := s.ask(r, detrand.New(5), s.n/2)
	most := 6
	if len(es) > most {
		es = es[:most]
	}
	var g group.Group
	var mult [][]group.Element
	for _, e := range es {
		e := e.(group.Element)
		g = e.Group()
		two := g.NewElement()
		two.Dbl(e)
		three := g.NewElement()
		three.Add(two, e)
		m := []group.Element{g.Identity(), e, two, three}
		for k := 1; k < 4; k++ {
			x := g.NewElement()
			x.Neg(m[k])
			m = append(m, x)
		}
		mult = append(mult, m)
		if e.IsIdentity() {
			r.Failf("%s: the query contains the identity", s.name)
		}
	}
	for a := range mult {
		for b := 0; b <= a; b++ {
			for c := 0; c <= b; c++ {
				if a == b && b == c || a == b || b == c && c > 0 {
					continue
				}
				for i := 1; i < 7; i++ {
					for j := 0; j < 7; j++ {
						if b == c && j > 0 {
							break
						}
						ab := g.NewElement()
						ab.Add(mult[a][i], mult[b][j])
						for k := 0; k < 7; k++ {
							if j == 0 && k == 0 {
								continue
							}
							x := g.NewElement()
							x.Add(ab, mult[c][k])
							if x.IsIdentity() {
								r.Failf("%s: elements %d, %d and %d of a query have a small relation", s.name, a, b, c)
							}
							r.Trans(1)
						}
					}
				}
			}
		}
	}
	r.State(s.name, "elements")
	r.Trace()
	r.Outcome("independent")
}
