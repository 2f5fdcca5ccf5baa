package main

import (
	"encoding/binary"
	"fmt"
	"io"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"lukechampine.com/uint128"
)

func init() {
	register(&eng.Check{
		ID:     "C09",
		Bounds: "32-bit scheme: all bit matrices of all shapes with up to 9 (thorough 12) entries, all indices, answers computed on every other matrix; boundary patterns of shapes up to 100x100, of up to 4100 rows or columns, with all single flips; all blinding scalars within 2B+2 of zero; element moves and malformed encodings; 128-bit scheme and amplified scheme (t up to 3): the same with up to 4 (thorough 6) entries; noise of 20000 coordinates",
		Assumptions: []string{
			"the 32-bit scheme accepts a lie with probability about 4B/2^32 per attempt: a wrong value counts as a violation when the same lie is accepted again, at least twice in 64 fresh queries",
			"the noise generator is seeded once per process; moments of the noise are compared with those of the documented distribution",
		},
		Run: runC09,
	})
	dumps["noise32"] = func() []byte { return latNoise("32") }
	dumps["noise128"] = func() []byte { return latNoise("128") }
}

// latNoise is a query made with fixed client randomness.
func latNoise(kind string) []byte {
	l := newLattice(kind, 16, 1, make([]byte, 16), 0)
	q, err := l.client(detrand.New(5)).query(3)
	if err != nil {
		panic(err)
	}
	return q
}

type latClient struct {
	query func(int) ([]byte, error)
	rec   func([]byte) (interface{}, error)
}

// lattice is one database with its scheme.
type lattice struct {
	kind       string
	rows, cols int
	elem, reps int
	bits       []byte
	params     *utils.ParamsLWE
	client     func(rnd io.Reader) latClient
	answer     func([]byte) ([]byte, error)
}

func packBits(b []byte) []byte {
	o := make([]byte, len(b)/8+1)
	for i := range b {
		o[i/8] |= b[i] << uint(i%8)
	}
	return o
}

// newLattice builds a database for the scheme kind: 32, 128 or amp.
func newLattice(kind string, rows, cols int, bits []byte, tECC int) *lattice {
	l := &lattice{kind: kind, rows: rows, cols: cols, elem: 4, reps: 1}
	rnd := detrand.Prefix(packBits(bits), 77)
	get := func(m *matrix.MatrixBytes) {
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				l.bits = append(l.bits, m.Get(i, j))
			}
		}
	}
	if kind == "128" {
		l.elem = 16
		db := database.CreateRandomBinaryLWE128(rnd, rows, cols)
		get(db.Matrix)
		p := utils.ParamsWithDatabaseSize128(rows, cols)
		l.params = p
		l.client = func(rnd io.Reader) latClient {
			c := client.NewLWE128(rnd, &db.Info, p)
			return latClient{c.QueryBytes, func(a []byte) (interface{}, error) { return c.ReconstructBytes(a) }}
		}
		s := server.NewLWE128(db)
		l.answer = s.AnswerBytes
		return l
	}
	db := database.CreateRandomBinaryLWE(rnd, rows, cols)
	get(db.Matrix)
	p := utils.ParamsWithDatabaseSize(rows, cols)
	l.params = p
	if kind == "amp" {
		l.reps = 2*tECC + 1
		l.client = func(rnd io.Reader) latClient {
			c := client.NewAmplify(rnd, &db.Info, p, tECC)
			return latClient{c.QueryBytes, func(a []byte) (interface{}, error) { return c.ReconstructBytes(a) }}
		}
		s := server.NewAmplify(db)
		l.answer = s.AnswerBytes
		return l
	}
	l.client = func(rnd io.Reader) latClient {
		c := client.NewLWE(rnd, &db.Info, p)
		return latClient{c.QueryBytes, func(a []byte) (interface{}, error) { return c.ReconstructBytes(a) }}
	}
	s := server.NewLWE(db)
	l.answer = s.AnswerBytes
	return l
}

// lie computes a dishonest answer from the query and the honest answer.
type latLie struct {
	name string
	f    func(q, a []byte) []byte
}

// lies: prev is an answer to another query of the same client.
func (l *lattice) lies(prev []byte) []latLie {
	var out []latLie
	add := func(name string, f func(q, a []byte) []byte) { out = append(out, latLie{name, f}) }
	size := 8 + l.elem*l.cols // of one encoded answer
	off := 0
	if l.kind == "amp" {
		off = 4
	}
	at := func(rep, j int) int { return off + rep*size + 8 + j*l.elem }
	// 32-bit elements are big endian, 128-bit ones little endian
	plus := func(x []byte, k uint, neg bool) {
		v := uint128.From64(1).Lsh(k)
		if neg {
			v = uint128.Zero.SubWrap(v)
		}
		if l.elem == 4 {
			binary.BigEndian.PutUint32(x, binary.BigEndian.Uint32(x)+uint32(v.Lo))
		} else {
			uint128.FromBytes(x).AddWrap(v).PutBytes(x)
		}
	}
	for rep := 0; rep < l.reps; rep++ {
		for j := 0; j < l.cols; j++ {
			if l.cols > 4 && j > 1 && j < l.cols-1 {
				continue
			}
			o := at(rep, j)
			for k := 0; k < 8*l.elem; k++ {
				if l.elem == 16 && k > 10 && k%8 != 7 && k%16 != 0 {
					continue
				}
				k := k
				add(fmt.Sprintf("rep %d column %d plus 2^%d", rep, j, k), func(q, a []byte) []byte { plus(a[o:], uint(k), false); return a })
				add(fmt.Sprintf("rep %d column %d minus 2^%d", rep, j, k), func(q, a []byte) []byte { plus(a[o:], uint(k), true); return a })
			}
			add(fmt.Sprintf("rep %d column %d zero", rep, j), func(q, a []byte) []byte { copy(a[o:], make([]byte, l.elem)); return a })
			add(fmt.Sprintf("rep %d column %d ones", rep, j), func(q, a []byte) []byte {
				for i := 0; i < l.elem; i++ {
					a[o+i] = 0xff
				}
				return a
			})
			for j2 := 0; j2 < l.cols && j2 < 4; j2++ {
				o2 := at(rep, j2)
				if o2 != o {
					add(fmt.Sprintf("rep %d column %d like %d", rep, j, j2), func(q, a []byte) []byte { copy(a[o:o+l.elem], a[o2:]); return a })
				}
			}
			for i := 0; i < l.rows && i < 3; i++ {
				qo := off + rep*(8+l.elem*l.rows) + 8 + i*l.elem
				add(fmt.Sprintf("rep %d column %d is query %d", rep, j, i), func(q, a []byte) []byte { copy(a[o:o+l.elem], q[qo:]); return a })
			}
		}
		for rep2 := 0; rep2 < l.reps; rep2++ {
			if rep2 != rep {
				o, o2 := at(rep, 0), at(rep2, 0)
				add(fmt.Sprintf("rep %d like %d", rep, rep2), func(q, a []byte) []byte { copy(a[o:o+l.elem*l.cols], a[o2:]); return a })
			}
		}
	}
	if prev != nil {
		add("former answer", func(q, a []byte) []byte { return dup(prev) })
	}
	add("all zero", func(q, a []byte) []byte {
		for rep := 0; rep < l.reps; rep++ {
			copy(a[at(rep, 0):], make([]byte, l.elem*l.cols))
		}
		return a
	})
	add("the query", func(q, a []byte) []byte { return q })
	add("empty", func(q, a []byte) []byte { return nil })
	for _, d := range []int{-16, -8, -4, -1, 1, 4, 8, 16} {
		d := d
		add(fmt.Sprintf("length %+d", d), func(q, a []byte) []byte { return padded(a[:minInt(len(a), maxInt(0, len(a)+d))], maxInt(0, len(a)+d)) })
	}
	// dimensions
	for rep := 0; rep < l.reps; rep++ {
		o := off + rep*size
		for _, v := range [][2]uint32{{0, 0}, {0, uint32(l.cols)}, {1, 0}, {1, uint32(l.cols) - 1}, {1, uint32(l.cols) + 1}, {2, uint32(l.cols)}, {uint32(l.cols), 1}, {1 << 31, 2}, {0xffffffff, 0xffffffff}} {
			v := v
			add(fmt.Sprintf("rep %d is %dx%d", rep, v[0], v[1]), func(q, a []byte) []byte {
				binary.BigEndian.PutUint32(a[o:], v[0])
				binary.BigEndian.PutUint32(a[o+4:], v[1])
				return a
			})
		}
	}
	return out
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type latRun struct {
	r *eng.R
	l *lattice
	c latClient
}

func (x *latRun) honest(ix int) (q, a []byte) {
	l, r := x.l, x.r
	q, err := x.c.query(ix)
	if err != nil {
		r.Failf("query %d: %v", ix, err)
	}
	a, err = l.answer(dup(q))
	if err != nil {
		r.Failf("answer %d: %v", ix, err)
	}
	v, err := x.c.rec(dup(a))
	r.Trans(3)
	if err != nil {
		r.Failf("honest answer for index %d of %v (%dx%d): %v", ix, l.bits, l.rows, l.cols, err)
	}
	if b, ok := bitOf(v); !ok || b != l.bits[ix] {
		r.Failf("index %d of %v (%dx%d): got %v", ix, l.bits, l.rows, l.cols, v)
	}
	r.Trace()
	r.Outcome(fmt.Sprintf("honest%d", l.bits[ix]))
	return q, a
}

// judge lets the client reconstruct a lie.
func (x *latRun) judge(ix int, q, a []byte, lie latLie) {
	l, r := x.l, x.r
	wrong := func(c latClient, ans []byte) bool {
		v, err := c.rec(ans)
		r.Trans(1)
		if err != nil {
			r.Outcome("reject")
			return false
		}
		r.Outcome("accept")
		b, ok := bitOf(v)
		return !ok || b != l.bits[ix]
	}
	if !wrong(x.c, lie.f(dup(q), dup(a))) {
		return
	}
	// luck or not?
	n := 0
	for i := uint64(0); i < 64; i++ {
		c := l.client(detrand.New(9000 + i))
		q, err := c.query(ix)
		if err != nil {
			r.Failf("%v", err)
		}
		a, err := l.answer(dup(q))
		if err != nil {
			r.Failf("%v", err)
		}
		if wrong(c, lie.f(dup(q), a)) {
			n++
		}
	}
	if n >= 2 {
		r.Failf("index %d of %v (%dx%d): lie %q makes the client return a wrong bit, in %d of 64 other runs as well", ix, l.bits, l.rows, l.cols, lie.name, n)
	}
	r.Note("a lie was accepted by luck")
}

func runC09(r *eng.R) {
	all := map[string][]*lattice{}
	family := func(kind string, rows, cols int) []*lattice {
		k := fmt.Sprint(kind, rows, cols)
		if all[k] == nil {
			n := rows * cols
			for x := 0; x < 1<<uint(n); x++ {
				all[k] = append(all[k], newLattice(kind, rows, cols, matrixBits(x, n), 1))
			}
		}
		return all[k]
	}
	// all matrices against all matrices
	for _, k := range []struct {
		kind          string
		quick, thorou int
	}{{"32", 9, 12}, {"amp", 4, 6}, {"128", 4, 6}} {
		limit := k.quick
		if r.Thorough {
			limit = k.thorou
		}
		for n := 1; n <= limit; n++ {
			for rows := 1; rows <= n; rows++ {
				if n%rows != 0 {
					continue
				}
				cols := n / rows
				for m := 0; m < 1<<uint(n); m++ {
					k, rows, cols, m := k, rows, cols, m
					r.Case(fmt.Sprintf("%s %dx%d matrix %0*b", k.kind, rows, cols, rows*cols, m), func() {
						fam := family(k.kind, rows, cols)
						l := fam[m]
						x := &latRun{r, l, l.client(detrand.New(r.Seed<<32 + uint64(m)))}
						var prev []byte
						for ix := range l.bits {
							q, a := x.honest(ix)
							r.State(k.kind, rows, cols, l.bits, ix)
							for o := range fam {
								if o == m || (len(fam) > 1024 && o&(o^m)&((o^m)-1) != 0) {
									continue
								}
								ea, err := fam[o].answer(dup(q))
								if err != nil {
									r.Failf("%v", err)
								}
								o := o
								x.judge(ix, q, a, latLie{fmt.Sprintf("answer on %v", fam[o].bits), func(q, a []byte) []byte {
									if ea != nil {
										e := ea
										ea = nil
										return e
									}
									e, _ := fam[o].answer(q)
									return e
								}})
							}
							r.State("others", k.kind, rows, cols, l.bits, ix)
							if len(l.bits) <= 4 || ix == m%len(l.bits) {
								for _, lie := range l.lies(prev) {
									x.judge(ix, q, a, lie)
								}
							}
							prev = a
						}
						// the last query can still be answered
						x.honest(len(l.bits) - 1)
					})
				}
			}
		}
	}
	// larger shapes
	pats := []string{"zero", "one", "alternate", "rows", "mixed", "last"}
	pattern := func(p, n, cols int) []byte {
		b := make([]byte, n)
		for i := range b {
			switch p {
			case 1:
				b[i] = 1
			case 2:
				b[i] = byte(i & 1)
			case 3:
				b[i] = byte(i / cols & 1)
			case 4:
				b[i] = byte((i*i + i/3) & 1)
			case 5:
				if i == n-1 {
					b[i] = 1
				}
			}
		}
		return b
	}
	for _, kind := range []string{"32", "amp", "128"} {
		shapes := [][2]int{{4, 4}, {3, 5}, {5, 3}, {7, 9}, {1, 33}, {33, 1}, {16, 8}, {8, 17}, {31, 32}, {32, 31}, {100, 100}}
		if kind == "128" {
			shapes = append(shapes[:8], [2]int{520, 3}, [2]int{3, 260}, [2]int{1030, 1})
		} else {
			shapes = append(shapes, [2]int{520, 3}, [2]int{3, 520}, [2]int{1030, 2}, [2]int{4100, 1}, [2]int{1, 4100})
		}
		for _, sh := range shapes {
			for p := range pats {
				kind, rows, cols, p := kind, sh[0], sh[1], p
				if rows*cols > 1000 && (p == 0 || p == 5) && !r.Thorough {
					continue
				}
				if (rows > 100 || cols > 100) && p != 3 && p != 4 && !r.Thorough {
					continue
				}
				r.Case(fmt.Sprintf("%s %dx%d %s", kind, rows, cols, pats[p]), func() {
					n := rows * cols
					l := newLattice(kind, rows, cols, pattern(p, n, cols), 1)
					x := &latRun{r, l, l.client(detrand.New(uint64(p)))}
					var prev []byte
					step := 1
					if n > 300 {
						step = 37
					}
					if kind == "128" && n > 60 && !r.Thorough {
						step = 11
					}
					if rows > 100 || cols > 100 {
						step = n/6 + 1
					}
					for ix := 0; ix < n; ix += step {
						q, a := x.honest(ix)
						r.State(kind, rows, cols, p, ix)
						// another database, equal up to one bit
						for _, f := range []int{ix, (ix + 1) % n, (ix + cols) % n} {
							if n == 1 && f != ix {
								continue
							}
							if ix%5 != 0 && n > 20 {
								continue
							}
							bits := dup(l.bits)
							bits[f] ^= 1
							o := newLattice(kind, rows, cols, bits, 1)
							x.judge(ix, q, a, latLie{fmt.Sprintf("bit %d flipped", f), func(q, a []byte) []byte {
								e, _ := o.answer(q)
								return e
							}})
						}
						if ix == n/step/2*step {
							for _, lie := range l.lies(prev) {
								x.judge(ix, q, a, lie)
							}
						}
						prev = a
					}
				})
			}
		}
	}
	// repetitions
	for t := 0; t <= 3; t++ {
		for _, sh := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}} {
			for m := 0; m < 1<<uint(sh[0]*sh[1]); m++ {
				t, sh, m := t, sh, m
				r.Case(fmt.Sprintf("amplified t=%d %dx%d matrix %b", t, sh[0], sh[1], m), func() {
					n := sh[0] * sh[1]
					l := newLattice("amp", sh[0], sh[1], matrixBits(m, n), t)
					x := &latRun{r, l, l.client(detrand.New(uint64(m)))}
					var prev []byte
					for ix := 0; ix < n; ix++ {
						q, a := x.honest(ix)
						r.State("amp", t, sh[0], sh[1], m, ix)
						for _, lie := range l.lies(prev) {
							x.judge(ix, q, a, lie)
						}
						// every subset of the repetitions answered on another matrix
						for o := 0; o < 1<<uint(n); o++ {
							if o == m {
								continue
							}
							other := newLattice("amp", sh[0], sh[1], matrixBits(o, n), t)
							size := 8 + 4*sh[1]
							for sub := 1; sub < 1<<uint(l.reps); sub++ {
								if (n > 4 || t == 3) && sub != 1 && sub != 1<<uint(l.reps)-1 && sub != 1<<uint(t+1)-1 {
									continue
								}
								sub := sub
								x.judge(ix, q, a, latLie{fmt.Sprintf("repetitions %b on matrix %b", sub, o), func(q, a []byte) []byte {
									e, _ := other.answer(q)
									for k := 0; k < l.reps; k++ {
										if sub>>uint(k)&1 == 1 {
											copy(a[4+k*size:4+(k+1)*size], e[4+k*size:])
										}
									}
									return a
								}})
							}
						}
						prev = a
					}
				})
			}
		}
	}
	// blinding scalars close to zero, in all the ways to write them
	for _, kind := range []string{"32", "128", "amp"} {
		for _, rows := range []int{1, 2, 5} {
			l0 := newLattice(kind, rows, 1, pattern(1, rows, 1), 1)
			B := int(l0.params.B)
			step := 40
			for lo := -2*B - 3; lo <= 2*B+3; lo += step {
				kind, rows, lo, l0 := kind, rows, lo, l0
				r.Case(fmt.Sprintf("%s %d rows, scalars from %d", kind, rows, lo), func() {
					for t := lo; t < lo+step && t <= 2*B+3; t++ {
						if kind == "128" && t%4 != 0 && abs(abs(t)-B) > 1 && abs(abs(t)-2*B) > 1 && abs(t) > 3 {
							continue
						}
						for end := 0; end < 2; end++ {
							v := uint128.From64(uint64(abs(t)))
							if t < 0 {
								v = uint128.Zero.SubWrap(v)
							}
							b := make([]byte, l0.elem)
							if l0.elem == 16 {
								v.PutBytes(b)
								if end == 1 {
									for i, j := 0, 15; i < j; i, j = i+1, j-1 {
										b[i], b[j] = b[j], b[i]
									}
								}
							} else if end == 0 {
								binary.LittleEndian.PutUint32(b, uint32(v.Lo))
							} else {
								binary.BigEndian.PutUint32(b, uint32(v.Lo))
							}
							reps := 6
							if kind == "128" {
								reps = 2
							}
							for k := 0; k < reps; k++ {
								x := &latRun{r, l0, l0.client(detrand.Prefix(b, uint64(k)))}
								x.honest(k % rows)
							}
							r.State("scalar", kind, rows, t, end)
						}
					}
				})
			}
		}
		// runs of zeros and ones of every length at the start of the tape
		for _, n := range []int{1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 64, 100, 4400, 4404, 4408, 76800, 76816} {
			for _, v := range []byte{0, 0xff, 1, 0x80} {
				kind, n, v := kind, n, v
				r.Case(fmt.Sprintf("%s tape starts with %d bytes %x", kind, n, v), func() {
					l := newLattice(kind, 2, 2, []byte{1, 0, 1, 1}, 1)
					p := make([]byte, n)
					for i := range p {
						p[i] = v
					}
					for ix := range l.bits {
						x := &latRun{r, l, l.client(detrand.Prefix(p, 1))}
						q, a := x.honest(ix)
						x.honest(3 - ix)
						x.honest(ix)
						_, _ = q, a
						r.State("run", kind, n, v, ix)
					}
				})
			}
		}
	}
	// noise
	for _, kind := range []string{"32", "128"} {
		kind := kind
		r.Case("noise "+kind, func() { noiseC09(r, kind) })
		r.Case("noise of other processes "+kind, func() {
			a, err := inProcess("noise"+kind, 1)
			if err != nil {
				r.Failf("%v", err)
			}
			b, err := inProcess("noise"+kind, 2)
			if err != nil {
				r.Failf("%v", err)
			}
			r.Trans(2)
			if eq(a, b) {
				r.Failf("two processes make the same noise")
			}
			r.State("processes", kind)
		})
	}
	// constructors from a length
	for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 24, 25, 26, 99, 100, 101} {
		n := n
		r.Case(fmt.Sprintf("databases of length %d", n), func() {
			for _, kind := range []string{"32", "128"} {
				if kind == "128" && n > 26 {
					continue
				}
				var rows, cols int
				var m *matrix.MatrixBytes
				if kind == "32" {
					db := database.CreateRandomBinaryLWEWithLength(detrand.New(3), n)
					rows, cols, m = db.NumRows, db.NumColumns, db.Matrix
				} else {
					db := database.CreateRandomBinaryLWEWithLength128(detrand.New(3), n)
					rows, cols, m = db.NumRows, db.NumColumns, db.Matrix
				}
				if rows*cols < n || m.Len() != rows*cols {
					r.Failf("%dx%d with %d entries for %d bits", rows, cols, m.Len(), n)
				}
				bits := make([]byte, rows*cols)
				for i := range bits {
					bits[i] = m.Get(i/cols, i%cols)
				}
				l := newLattice(kind, rows, cols, bits, 0)
				x := &latRun{r, l, l.client(detrand.New(3))}
				for ix := range bits {
					if l.bits[ix] > 1 {
						r.Failf("entry %d is %d", ix, l.bits[ix])
					}
					x.honest(ix)
					r.State("length", kind, n, ix)
				}
			}
		})
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// constTape serves one byte for ever.
type constTape byte

func (c constTape) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(c)
	}
	return len(p), nil
}

// noiseC09 recovers the noise of queries whose secret is known: with a tape of
// equal bytes the secret is a constant vector.
func noiseC09(r *eng.R, kind string) {
	rows, per := 64, 20
	if kind == "128" {
		per = 8
	}
	l := newLattice(kind, rows, 1, make([]byte, rows), 0)
	p := l.params
	// sums of the columns of A
	col := make([]uint128.Uint128, rows)
	if kind == "32" {
		A := matrix.NewRandom(utils.NewPRG(p.SeedA), p.N, rows)
		for j := range col {
			s := uint32(0)
			for i := 0; i < p.N; i++ {
				s += A.Get(i, j)
			}
			col[j] = uint128.From64(uint64(s))
		}
	} else {
		A := matrix.NewRandom128(utils.NewPRG(p.SeedA), p.N, rows)
		for j := range col {
			for i := 0; i < p.N; i++ {
				col[j] = col[j].AddWrap(A.Get(i, j))
			}
		}
	}
	signed := func(v uint128.Uint128) (int64, bool) {
		if kind == "32" {
			x := int32(uint32(v.Lo))
			return int64(x), x < 1<<20 && x > -(1<<20)
		}
		if v.Hi == 0 && v.Lo < 1<<20 {
			return int64(v.Lo), true
		}
		n := uint128.Zero.SubWrap(v)
		return -int64(n.Lo), n.Hi == 0 && n.Lo < 1<<20
	}
	var noise []int64
	at := map[string][]int64{} // by place relative to the index, and by place
	seen := map[string]bool{}
	unknown := 0
	for _, b := range []byte{1, 2, 3, 5, 7, 0x11, 0x20, 0x3c, 0x55, 0x7f, 0x80, 0x81, 0xaa, 0xc3, 0xf0, 0xfe} {
		c := l.client(constTape(b))
		w := make([]byte, 16)
		for i := range w {
			w[i] = b
		}
		v := uint128.FromBytes(w)
		for k := 0; k < per; k++ {
			i := (k * 7) % rows
			q, err := c.query(i)
			if err != nil {
				r.Failf("%v", err)
			}
			r.Trans(1)
			if seen[string(q)] {
				r.Failf("two queries with the same secret are equal: no fresh noise")
			}
			seen[string(q)] = true
			el := func(j int) uint128.Uint128 {
				if kind == "32" {
					return uint128.From64(uint64(binary.BigEndian.Uint32(q[8+4*j:])))
				}
				return uint128.FromBytes(q[8+16*j:])
			}
			residual := func(s uint128.Uint128) ([]int64, bool) {
				var e []int64
				for j := 0; j < rows; j++ {
					x := el(j).SubWrap(s.MulWrap(col[j]))
					if j == i {
						x = x.SubWrap(v)
					}
					n, ok := signed(x)
					if !ok {
						return nil, false
					}
					e = append(e, n)
				}
				return e, true
			}
			if _, ok := residual(uint128.Zero); ok {
				r.Failf("the query does not contain the secret")
			}
			e, ok := residual(v)
			if !ok {
				unknown++
				continue
			}
			noise = append(noise, e...)
			for j := range e {
				d := j - i
				if d > 3 || d < -3 {
					d = 4
				}
				at[fmt.Sprintf("%+d places after the index", d)] = append(at[fmt.Sprintf("%+d places after the index", d)], e[j])
				at[fmt.Sprintf("place %d", j)] = append(at[fmt.Sprintf("place %d", j)], e[j])
			}
			r.State(kind, b, k, q)
		}
	}
	if unknown > 0 {
		if len(noise) > 0 {
			r.Failf("%d of the queries have another structure or huge noise", unknown)
		}
		r.Note("%s: the secret does not follow from the tape; noise not measured", kind)
		return
	}
	n := float64(len(noise))
	var sum, sq, zero, two float64
	for _, e := range noise {
		x := float64(e)
		sum += x
		sq += x * x
		if e == 0 {
			zero++
		}
		if e > 12 || e < -12 {
			two++
		}
		if e > 84 || e < -84 {
			r.Failf("noise of %d", e)
		}
	}
	mean, vari := sum/n, sq/n
	r.Note("%s: %d noise coordinates, mean %.2f, variance %.1f, zero %.3f, beyond two sigma %.3f", kind, len(noise), mean, vari, zero/n, two/n)
	if mean > 0.45 || mean < -0.45 || vari < 35 || vari > 47 || zero/n < 0.047 || zero/n > 0.078 || two/n < 0.035 || two/n > 0.062 {
		r.Failf("noise of %d coordinates has mean %.2f, variance %.1f, zeros %.3f, beyond two sigma %.3f", len(noise), mean, vari, zero/n, two/n)
	}
	// every place has noise of its own
	for w, es := range at {
		if len(es) < 100 {
			continue
		}
		var sq, zero float64
		for _, e := range es {
			sq += float64(e * e)
			if e == 0 {
				zero++
			}
		}
		n := float64(len(es))
		if sq/n < 13 || sq/n > 100 || zero/n > 0.3 {
			r.Failf("noise %s: variance %.1f, zeros %.3f of %d", w, sq/n, zero/n, len(es))
		}
	}
	// it does not repeat itself
	win := map[[12]int8]bool{}
	for i := 0; i+12 <= len(noise); i++ {
		var w [12]int8
		for k := range w {
			w[k] = int8(noise[i+k])
		}
		if win[w] {
			r.Failf("the noise repeats itself")
		}
		win[w] = true
	}
	r.Trace()
}
