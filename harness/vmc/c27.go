package main

import (
	"fmt"
	"strings"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:    "C27",
		MemGB: 4,
		Bounds: "authenticated schemes: Merkle databases of 1..9 blocks in 1..3 rows and of keys of different lengths (2 and 3 servers, every server lying), group elements, lattices of 32 and 128 bits, amplified, complex queries; " +
			"every change of one byte of an answer by 6 values, exchanges and replacements of every row, column, element and word, shifts by every power of two and by the modulus, answers on other databases, wrong lengths: the same change for every index, or for predicates with 0 to 4 matches",
		Assumptions: []string{"a decision that depends on chance, as near the bound of the noise, is compared by how often it is an acceptance in 64 fresh queries"},
		Run:         runC27,
	})
}

// change is something a malicious server does to its answer, knowing the query
// and the honest answer but not what is queried.
type change struct {
	name string
	f    func(q, a []byte) []byte
}

// subject is a scheme with the things that can be queried.
type subject struct {
	name  string
	items []string
	// start makes a fresh client query item k, and returns the query and the
	// honest answer of the liar, and the function that tells whether the client
	// accepts another answer of the liar
	start func(k int, seed uint64) (q, a []byte, decide func([]byte) bool)
}

// compareC27 tries all the changes on all the items.
func compareC27(r *eng.R, s *subject, changes []change, seeds int) {
	type run struct {
		q, a   []byte
		decide func([]byte) bool
	}
	for sd := 0; sd < seeds; sd++ {
		var runs []run
		for k := range s.items {
			q, a, d := s.start(k, uint64(sd)+1)
			r.Trans(2)
			if !d(dup(a)) {
				r.Failf("%s: the honest answer for %s is rejected", s.name, s.items[k])
			}
			runs = append(runs, run{q, a, d})
		}
		for _, c := range changes {
			var acc []int
			for k, x := range runs {
				if x.decide(c.f(dup(x.q), dup(x.a))) {
					acc = append(acc, k)
				}
				r.Trans(1)
			}
			r.State(s.name, c.name, sd)
			if len(acc) == 0 {
				r.Outcome("all rejected")
				continue
			}
			if len(acc) == len(runs) {
				r.Outcome("all accepted")
				continue
			}
			// does it depend on the item, or on chance?
			const tries = 64
			count := make([]int, len(runs))
			lo, hi := 0, 0
			for k := range runs {
				for i := uint64(0); i < tries; i++ {
					q, a, d := s.start(k, 5000+i)
					if d(c.f(dup(q), a)) {
						count[k]++
					}
					r.Trans(3)
				}
				if count[k] < count[lo] {
					lo = k
				}
				if count[k] > count[hi] {
					hi = k
				}
			}
			if count[hi]-count[lo] >= 36 {
				r.Failf("%s: when a server changes its answer (%s), the client accepts it %d times of %d when it queries %s and %d times when it queries %s: the server learns what is queried from whether the client rejects",
					s.name, c.name, count[hi], tries, s.items[hi], count[lo], s.items[lo])
			}
			r.Outcome("chance")
		}
		r.Trace()
	}
}

// byteChanges are changes of single bytes and lengths of an answer of n bytes,
// made of pieces of the given size.
func byteChanges(n, piece int, every bool) []change {
	var out []change
	add := func(name string, f func(a []byte) []byte) {
		out = append(out, change{name, func(q, a []byte) []byte { return f(a) }})
	}
	for p := 0; p < n; p++ {
		if o := p % piece; !every && o > 3 && o < piece-40 && o%7 != 0 {
			continue
		}
		for _, x := range []byte{1, 2, 0x40, 0x80, 0x81, 0xff} {
			p, x := p, x
			add(fmt.Sprintf("byte %d ^ %#x", p, x), func(a []byte) []byte {
				if p < len(a) {
					a[p] ^= x
				}
				return a
			})
		}
	}
	for lo := 0; lo < n; lo += piece {
		lo := lo
		part := func(a []byte) []byte { return a[minInt(lo, len(a)):minInt(lo+piece, len(a))] }
		add(fmt.Sprintf("zeros in %d..", lo), func(a []byte) []byte { copy(part(a), make([]byte, piece)); return a })
		for _, k := range []int{1, 2, 31, 32, 33, 64} {
			k := k
			add(fmt.Sprintf("last %d bytes of %d.. inverted", k, lo), func(a []byte) []byte {
				b := part(a)
				for i := maxInt(0, len(b)-k); i < len(b); i++ {
					b[i] ^= 0xff
				}
				return a
			})
		}
		for l2 := 0; l2 < n; l2 += piece {
			l2 := l2
			if l2 != lo {
				add(fmt.Sprintf("piece %d replaced by %d", lo, l2), func(a []byte) []byte {
					copy(part(a), a[minInt(l2, len(a)):minInt(l2+piece, len(a))])
					return a
				})
			}
			if l2 > lo {
				add(fmt.Sprintf("pieces %d and %d exchanged", lo, l2), func(a []byte) []byte {
					b := a[minInt(l2, len(a)):minInt(l2+piece, len(a))]
					t := dup(b)
					copy(b, part(a))
					copy(part(a), t)
					return a
				})
			}
		}
	}
	for _, d := range []int{-n, -piece - 1, -piece, -piece + 1, -33, -32, -4, -1, 1, 4, 32, piece - 1, piece, piece + 1, n} {
		d := d
		add(fmt.Sprintf("length %+d", d), func(a []byte) []byte {
			m := maxInt(0, len(a)+d)
			return padded(a[:minInt(len(a), m)], m)
		})
	}
	add("nothing", func([]byte) []byte { return nil })
	return out
}

// merkleSubject: server l of ns lies.
func merkleSubject(r *eng.R, name string, db *database.Bytes, items []int, ns, l int) *subject {
	ss := pirServers(db, ns)
	s := &subject{name: fmt.Sprintf("%s, server %d of %d", name, l, ns)}
	for _, k := range items {
		s.items = append(s.items, fmt.Sprint("block ", k))
	}
	s.start = func(k int, seed uint64) ([]byte, []byte, func([]byte) bool) {
		c := client.NewPIR(detrand.Seed(seed), &db.Info)
		q, err := c.QueryBytes(be32(items[k]), ns)
		if err != nil {
			r.Failf("%v", err)
		}
		as, err := answersOf(ss, q)
		if err != nil {
			r.Failf("%v", err)
		}
		return q[l], as[l], func(a []byte) bool {
			x := dups(as)
			x[l] = a
			_, err := c.ReconstructBytes(x)
			return err == nil
		}
	}
	return s
}

func runC27(r *eng.R) {
	merkleC27(r)
	groupC27(r)
	latticeC27(r)
	complexC27(r)
}

func merkleC27(r *eng.R) {
	differences := func(db *database.Bytes) []change {
		// what turns one stored block into another, in every row
		var blocks [][]byte
		pos := 0
		for _, l := range db.BlockLengths {
			blocks = append(blocks, padded(db.Entries[pos:pos+l], db.BlockSize))
			pos += l
		}
		var out []change
		for i := range blocks {
			for j := 0; j < i; j++ {
				if len(blocks) > 9 && j != 0 && j != i-1 && j != i-db.NumColumns {
					continue
				}
				d := dup(blocks[i])
				for p := range d {
					d[p] ^= blocks[j][p]
				}
				for row := 0; row < db.NumRows; row++ {
					off := row * db.BlockSize
					out = append(out, change{fmt.Sprintf("row %d: difference of blocks %d and %d", row, i, j), func(q, a []byte) []byte {
						for p := range d {
							if off+p < len(a) {
								a[off+p] ^= d[p]
							}
						}
						return a
					}})
				}
			}
			for row := 0; row < db.NumRows; row++ {
				off, b := row*db.BlockSize, blocks[i]
				out = append(out, change{fmt.Sprintf("row %d is block %d", row, i), func(q, a []byte) []byte { copy(a[off:], b); return a }},
					change{fmt.Sprintf("row %d plus block %d", row, i), func(q, a []byte) []byte {
						for p := range b {
							a[off+p] ^= b[p]
						}
						return a
					}})
			}
		}
		return out
	}
	for _, sh := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 5}, {2, 3}, {3, 2}, {1, 9}, {3, 3}, {4, 4}} {
		for pat := 0; pat < 3; pat++ {
			for ns := 2; ns <= 3; ns++ {
				for l := 0; l < ns; l++ {
					sh, pat, ns, l := sh, pat, ns, l
					if sh[0]*sh[1] > 9 && !r.Thorough && l != ns-1 {
						continue
					}
					r.Case(fmt.Sprintf("merkle %dx%d pattern %d servers %d liar %d", sh[0], sh[1], pat, ns, l), func() {
						var data [][]byte
						for k := 0; k < sh[0]*sh[1]; k++ {
							switch pat {
							case 0:
								data = append(data, blockData(k, 3))
							case 1:
								data = append(data, blockData(k%2, 2))
							default:
								data = append(data, blockData(0, 1))
							}
						}
						m := mkMerkle(sh[0], len(data[0]), data)
						s := merkleSubject(r, fmt.Sprintf("Merkle %dx%d pattern %d", sh[0], sh[1], pat), m.db, upTo(len(data)), ns, l)
						n := m.db.BlockSize * sh[0]
						compareC27(r, s, append(byteChanges(n, m.db.BlockSize, true), differences(m.db)...), 1)
					})
				}
			}
		}
	}
	// keys of different lengths
	for _, n := range []int{20, 45, 90} {
		for _, reb := range []bool{false, true} {
			for ns := 2; ns <= 3; ns++ {
				n, reb, ns := n, reb, ns
				r.Case(fmt.Sprintf("merkle of %d keys rebalanced=%v servers %d", n, reb, ns), func() {
					dir, done := scratch()
					defer done()
					keys := make([]pgp.Key, n)
					for i := range keys {
						keys[i] = pgp.Key{ID: fmt.Sprintf("k%d@a.org", i), Packet: blockData(i, 1+i%5+i/7)}
					}
					db, err := database.GenerateRealKeyMerkle(writeSplit(dir, keys, []int{n}), reb)
					if err != nil {
						r.Failf("%v", err)
					}
					l := n % ns
					s := merkleSubject(r, fmt.Sprintf("Merkle of %d keys in %dx%d", n, db.NumRows, db.NumColumns), db, upTo(db.NumRows*db.NumColumns), ns, l)
					compareC27(r, s, append(byteChanges(db.BlockSize*db.NumRows, db.BlockSize, db.BlockSize < 300), differences(db)...), 1)
				})
			}
		}
	}
}

func groupC27(r *eng.R) {
	groups := []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"ristretto", group.Ristretto255}, {"P384", group.P384}, {"P521", group.P521}}
	type shape struct{ rows, cols int }
	for gi := range groups {
		g := groups[gi].g
		shapes := []shape{{1, 2}, {2, 1}, {2, 2}, {1, 4}, {3, 2}, {3, 3}, {5, 2}, {2, 5}}
		if gi > 1 && !r.Thorough {
			shapes = shapes[2:5]
		}
		for _, sh := range shapes {
			for pat := 0; pat < 4; pat++ {
				gi, sh, pat := gi, sh, pat
				r.Case(fmt.Sprintf("group %s %dx%d pattern %d", groups[gi].name, sh.rows, sh.cols, pat), func() {
					n := sh.rows * sh.cols
					data := make([]byte, n)
					for i := range data {
						switch pat {
						case 0:
							data[i] = 1
						case 1:
							data[i] = byte((i*i + i/3) & 1)
						case 2:
							data[i] = byte(i / sh.cols & 1)
						case 3:
							data[i] = byte((i + i/sh.cols + 1) & 1)
						}
					}
					db, err := ellipticDB(sh.rows, sh.cols, data, g)
					if err != nil {
						r.Failf("%v", err)
					}
					srv := server.NewDH(db)
					s := &subject{name: fmt.Sprintf("group %s, database %v of %dx%d", groups[gi].name, data, sh.rows, sh.cols)}
					for k := range data {
						s.items = append(s.items, fmt.Sprint("index ", k))
					}
					s.start = func(k int, seed uint64) ([]byte, []byte, func([]byte) bool) {
						c := client.NewDH(detrand.Seed(seed), &db.Info)
						q, err := c.QueryBytes(k)
						if err != nil {
							r.Failf("%v", err)
						}
						a, err := srv.AnswerBytes(dup(q))
						if err != nil {
							r.Failf("%v", err)
						}
						return q, a, func(a []byte) bool {
							_, err := c.ReconstructBytes(a)
							return err == nil
						}
					}
					compareC27(r, s, groupChanges(r, db), 1)
				})
			}
		}
	}
}

func groupChanges(r *eng.R, db *database.Elliptic) []change {
	g, size := db.Group, db.ElementSize
	var out []change
	dec := func(b []byte) []group.Element {
		e, err := database.UnmarshalGroupElements(b, g, size)
		if err != nil {
			panic(err)
		}
		return e
	}
	add := func(name string, f func(q, a []group.Element) []group.Element) {
		out = append(out, change{name, func(q, a []byte) []byte {
			b, err := database.MarshalGroupElements(f(dec(q), dec(a)), size)
			if err != nil {
				panic(err)
			}
			return b
		}})
	}
	type source struct {
		name string
		f    func(q, a []group.Element) group.Element
	}
	src := []source{{"identity", func(q, a []group.Element) group.Element { return g.Identity() }},
		{"generator", func(q, a []group.Element) group.Element { return g.Generator() }}}
	for j := 0; j < db.NumColumns; j++ {
		j := j
		base := database.HashIndexToGroup(uint64(j), g)
		src = append(src, source{fmt.Sprint("query element ", j), func(q, a []group.Element) group.Element { return q[j] }},
			source{fmt.Sprint("base element ", j), func(q, a []group.Element) group.Element { return base }})
	}
	for i := 0; i < db.NumRows; i++ {
		i := i
		src = append(src, source{fmt.Sprint("answer ", i), func(q, a []group.Element) group.Element { return a[i] }},
			source{fmt.Sprint("digest ", i), func(q, a []group.Element) group.Element { return dec(db.SubDigests)[i] }})
	}
	for i := 0; i < db.NumRows; i++ {
		i := i
		for _, s := range src {
			s := s
			add(fmt.Sprintf("row %d is %s", i, s.name), func(q, a []group.Element) []group.Element { a[i] = g.NewElement().Set(s.f(q, a)); return a })
			add(fmt.Sprintf("row %d plus %s", i, s.name), func(q, a []group.Element) []group.Element {
				a[i] = g.NewElement().Add(a[i], s.f(q, a))
				return a
			})
			add(fmt.Sprintf("row %d minus %s", i, s.name), func(q, a []group.Element) []group.Element {
				a[i] = g.NewElement().Add(a[i], g.NewElement().Neg(s.f(q, a)))
				return a
			})
		}
		add(fmt.Sprintf("row %d negated", i), func(q, a []group.Element) []group.Element { a[i] = g.NewElement().Neg(a[i]); return a })
		add(fmt.Sprintf("row %d doubled", i), func(q, a []group.Element) []group.Element { a[i] = g.NewElement().Dbl(a[i]); return a })
		for j := 0; j < i; j++ {
			j := j
			add(fmt.Sprintf("rows %d and %d exchanged", i, j), func(q, a []group.Element) []group.Element { a[i], a[j] = a[j], a[i]; return a })
		}
		add(fmt.Sprintf("row %d left out", i), func(q, a []group.Element) []group.Element {
			return append(append([]group.Element{}, a[:i]...), a[i+1:]...)
		})
		add(fmt.Sprintf("row %d twice", i), func(q, a []group.Element) []group.Element {
			return append(append([]group.Element{}, a[:i+1]...), a[i:]...)
		})
		// the encoding
		for _, o := range []int{0, 1, size / 2, size - 1} {
			for _, x := range []byte{1, 0x80, 0xff} {
				p, x := i*size+o, x
				out = append(out, change{fmt.Sprintf("byte %d ^ %#x", p, x), func(q, a []byte) []byte { a[p] ^= x; return a }})
			}
		}
	}
	add("all identity", func(q, a []group.Element) []group.Element {
		for i := range a {
			a[i] = g.Identity()
		}
		return a
	})
	out = append(out, change{"the digests", func(q, a []byte) []byte { return dup(db.SubDigests) }},
		change{"the query", func(q, a []byte) []byte { return q }},
		change{"nothing", func(q, a []byte) []byte { return nil }},
		change{"one byte less", func(q, a []byte) []byte { return a[:len(a)-1] }},
		change{"one byte more", func(q, a []byte) []byte { return append(a, 0) }})
	// answers on other databases
	for f := range db.Entries {
		if len(db.Entries) > 6 && f%3 != 0 {
			continue
		}
		bits := dup(db.Entries)
		bits[f] ^= 1
		other, err := ellipticDB(db.NumRows, db.NumColumns, bits, g)
		if err != nil {
			r.Failf("%v", err)
		}
		s := server.NewDH(other)
		out = append(out, change{fmt.Sprintf("entry %d flipped", f), func(q, a []byte) []byte {
			b, err := s.AnswerBytes(q)
			if err != nil {
				panic(err)
			}
			return b
		}})
	}
	return out
}

func latticeC27(r *eng.R) {
	type lat struct {
		kind       string
		rows, cols int
		t          int
	}
	var all []lat
	for _, sh := range [][2]int{{1, 2}, {2, 1}, {2, 2}, {3, 3}, {2, 5}, {5, 2}} {
		all = append(all, lat{"32", sh[0], sh[1], 0}, lat{"amp", sh[0], sh[1], 1})
		if sh[0]*sh[1] <= 4 || r.Thorough {
			all = append(all, lat{"128", sh[0], sh[1], 0}, lat{"amp", sh[0], sh[1], 2})
		}
	}
	all = append(all, lat{"amp", 1, 3, 0}, lat{"128", 1, 3, 0}, lat{"128", 2, 5, 0}, lat{"32", 1, 70, 0}, lat{"amp", 2, 17, 1}, lat{"32", 1, 130, 0}, lat{"amp", 1, 70, 1}, lat{"128", 1, 20, 0})
	for _, c := range all {
		for pat := 0; pat < 3; pat++ {
			c, pat := c, pat
			if pat > 0 && c.cols > 9 && !r.Thorough {
				continue
			}
			r.Case(fmt.Sprintf("lattice %s %dx%d t=%d pattern %d", c.kind, c.rows, c.cols, c.t, pat), func() {
				n := c.rows * c.cols
				bits := make([]byte, n)
				for i := range bits {
					switch pat {
					case 0:
						bits[i] = byte((i*i + i/3 + 1) & 1)
					case 1:
						bits[i] = 1
					case 2:
						bits[i] = byte(i / c.cols & 1)
					}
				}
				l := newLattice(c.kind, c.rows, c.cols, bits, c.t)
				s := &subject{name: fmt.Sprintf("lattice %s %dx%d t=%d pattern %d", c.kind, c.rows, c.cols, c.t, pat)}
				var items []int
				for k := range bits {
					if n > 9 && k > 2 && k < n-2 && k%16 > 0 && k != n/2 {
						continue
					}
					items = append(items, k)
					s.items = append(s.items, fmt.Sprint("index ", k))
				}
				s.start = func(k int, seed uint64) ([]byte, []byte, func([]byte) bool) {
					cl := l.client(detrand.Seed(seed))
					q, err := cl.query(items[k])
					if err != nil {
						r.Failf("%v", err)
					}
					a, err := l.answer(dup(q))
					if err != nil {
						r.Failf("%v", err)
					}
					return q, a, func(a []byte) bool {
						_, err := cl.rec(a)
						return err == nil
					}
				}
				var changes []change
				for _, lie := range l.lies(nil) {
					// fewer powers of two of the amplified scheme and of wide matrices
					if p := strings.LastIndex(lie.name, "2^"); p >= 0 && (c.kind == "amp" || c.cols > 9) && !r.Thorough {
						if k := lie.name[p+2:]; len(k) == 2 && k != "12" && k != "16" && k != "31" && k != "20" || len(k) == 1 && k > "0" && k < "7" {
							continue
						}
					}
					changes = append(changes, change{lie.name, lie.f})
				}
				for f := 0; f < n; f++ {
					if n > 9 && f > 1 && f < n-1 && f != n/2 {
						continue
					}
					o := dup(bits)
					o[f] ^= 1
					other := newLattice(c.kind, c.rows, c.cols, o, c.t)
					changes = append(changes, change{fmt.Sprintf("entry %d flipped", f), func(q, a []byte) []byte {
						b, err := other.answer(q)
						if err != nil {
							panic(err)
						}
						return b
					}})
				}
				// every column of a wide matrix
				if c.cols > 9 {
					size, off := 8+l.elem*l.cols, 0
					if c.kind == "amp" {
						off = 4
					}
					for j := 0; j < c.cols; j++ {
						for rep := 0; rep < l.reps; rep++ {
							for b := 0; b < l.elem; b++ {
								p := off + rep*size + 8 + j*l.elem + b
								// not the lowest bits, which the noise hides
								if b == l.elem/2 {
									changes = append(changes, change{fmt.Sprintf("byte %d of column %d of answer %d inverted", b, j, rep), func(q, a []byte) []byte { a[p] ^= 0xff; return a }})
								}
							}
						}
					}
				}
				compareC27(r, s, changes, 1)
			})
		}
	}
}

func complexC27(r *eng.R) {
	al := recAlphabet()
	recs := []keyRec{al[0], al[0], al[2], al[3], al[8], al[10], al[10], al[10], al[1], al[9]}
	p := field.ModP
	type family struct {
		name string
		qs   []*complexQuery
	}
	families := []family{
		{"email", []*complexQuery{qEmail("nobody@x.y"), qEmail("alice@epfl.ch"), qEmail("bob@mit.edu"), qEmail("dan@mit.edu"), qEmail("")}},
		{"start of email", []*complexQuery{qStarts("zz"), qStarts("bo"), qStarts("al"), qStarts("da")}},
		{"end of email", []*complexQuery{qEnds("zz"), qEnds("om"), qEnds("ch"), qEnds("du")}},
		{"algorithm", []*complexQuery{qAlgo("RSA"), qAlgo("DSA"), qAlgo("ElGamal"), qAlgo("ECDSA"), qAlgo("ECDH")}},
		{"creation time", []*complexQuery{qTime(2019), qTime(2018), qTime(1999)}},
		{"year and end of email", []*complexQuery{qYear(2018, "du", false), qYear(2018, "ch", false), qYear(2018, "zz", false), qYear(2001, "ch", false)}},
		{"average", []*complexQuery{qAvg("ch"), qAvg("du"), qAvg("om")}},
	}
	for _, f := range families {
		for l := 0; l < 2; l++ {
			f, l := f, l
			r.Case(fmt.Sprintf("complex %s liar %d", f.name, l), func() {
				sch := fssSchemes[0]
				db := keysDB(recs)
				ss := sch.servers(db)
				s := &subject{name: fmt.Sprintf("complex query for the %s, server %d", f.name, l)}
				for _, q := range f.qs {
					m, err := q.eval(recs)
					s.items = append(s.items, fmt.Sprintf("%s (%d %v)", q.name, m, err))
				}
				words := 0
				s.start = func(k int, seed uint64) ([]byte, []byte, func([]byte) bool) {
					c := sch.client(detrand.Seed(seed), &db.Info)
					in, err := f.qs[k].q.Encode()
					if err != nil {
						r.Failf("%v", err)
					}
					q, err := c.QueryBytes(in, 2)
					if err != nil {
						r.Failf("%v", err)
					}
					as := make([][]byte, 2)
					for i := range as {
						if as[i], err = ss[i].AnswerBytes(dup(q[i])); err != nil {
							r.Failf("%v", err)
						}
					}
					words = len(as[l]) / 4
					return q[l], as[l], func(a []byte) bool {
						x := dups(as)
						x[l] = a
						_, err := c.ReconstructBytes(x)
						return err == nil
					}
				}
				s.start(0, 1)
				var changes []change
				add := func(name string, g func(a []uint32) []uint32) {
					changes = append(changes, change{name, func(q, a []byte) []byte { return fromU32(g(toU32(a))) }})
				}
				values := []uint32{1, 2, 3, p - 1, p - 2, p - 3, p, p + 1, 1 << 30, 1 << 31, 0xffffffff, 0xfffffffe}
				for k := 0; k < 31; k += 3 {
					values = append(values, 1<<uint(k))
				}
				for w := 0; w < words; w++ {
					w := w
					for _, v := range values {
						v := v
						add(fmt.Sprintf("word %d plus %d", w, v), func(a []uint32) []uint32 { a[w] += v; return a })
						add(fmt.Sprintf("word %d plus %d modulo p", w, v), func(a []uint32) []uint32 {
							a[w] = uint32((uint64(a[w]) + uint64(v)) % uint64(p))
							return a
						})
						add(fmt.Sprintf("word %d is %d", w, v), func(a []uint32) []uint32 { a[w] = v; return a })
					}
					add(fmt.Sprintf("word %d is 0", w), func(a []uint32) []uint32 { a[w] = 0; return a })
					add(fmt.Sprintf("word %d negated", w), func(a []uint32) []uint32 { a[w] = (p - a[w]) % p; return a })
					add(fmt.Sprintf("word %d doubled", w), func(a []uint32) []uint32 { a[w] = uint32(2 * uint64(a[w]) % uint64(p)); return a })
					for w2 := 0; w2 < words; w2++ {
						w2 := w2
						if w2 == w {
							continue
						}
						add(fmt.Sprintf("word %d is word %d", w, w2), func(a []uint32) []uint32 { a[w] = a[w2]; return a })
						add(fmt.Sprintf("word %d plus word %d", w, w2), func(a []uint32) []uint32 { a[w] = (a[w] + a[w2]) % p; return a })
						add(fmt.Sprintf("words %d and %d plus p", w, w2), func(a []uint32) []uint32 { a[w] += p; a[w2] += p; return a })
						if w2 > w {
							add(fmt.Sprintf("words %d and %d exchanged", w, w2), func(a []uint32) []uint32 { a[w], a[w2] = a[w2], a[w]; return a })
						}
						if w != 0 && w2 != 0 {
							add(fmt.Sprintf("words 0, %d and %d plus 1, 2, 3", w, w2), func(a []uint32) []uint32 {
								a[0], a[w], a[w2] = (a[0]+1)%p, (a[w]+2)%p, (a[w2]+3)%p
								return a
							})
						}
					}
				}
				for _, v := range values {
					v := v
					add(fmt.Sprintf("all words plus %d", v), func(a []uint32) []uint32 {
						for i := range a {
							a[i] += v
						}
						return a
					})
					add(fmt.Sprintf("all words times %d", v), func(a []uint32) []uint32 {
						for i := range a {
							a[i] = uint32(uint64(a[i]) * uint64(v) % uint64(p))
						}
						return a
					})
				}
				add("all zero", func(a []uint32) []uint32 { return make([]uint32, len(a)) })
				add("rotated", func(a []uint32) []uint32 { return append(a[1:], a[0]) })
				for n := 0; n <= 2*words+1; n++ {
					n := n
					if n != words {
						add(fmt.Sprintf("%d words", n), func(a []uint32) []uint32 {
							o := make([]uint32, n)
							copy(o, a)
							return o
						})
					}
				}
				for _, d := range []int{-3, -2, -1, 1, 2, 3} {
					d := d
					changes = append(changes, change{fmt.Sprintf("%+d bytes", d), func(q, a []byte) []byte { return padded(a[:minInt(len(a), len(a)+d)], len(a)+d) }})
				}
				// answers on other databases
				for i := range recs {
					drop := append(append([]keyRec{}, recs[:i]...), recs[i+1:]...)
					for name, rs := range map[string][]keyRec{"without": drop, "with twice": append(append([]keyRec{}, recs...), recs[i])} {
						os := sch.servers(keysDB(rs))[l]
						changes = append(changes, change{fmt.Sprintf("%s record %d", name, i), func(q, a []byte) []byte {
							b, err := os.AnswerBytes(q)
							if err != nil {
								panic(err)
							}
							return b
						}})
					}
				}
				compareC27(r, s, changes, 2)
			})
		}
	}
}
