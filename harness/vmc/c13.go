package main

import (
	"fmt"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"lukechampine.com/uint128"
)

func init() {
	register(&eng.Check{
		ID:          "C13",
		Bounds:      "all operand values over boundary alphabets for products with up to 8 (thorough 10) operand entries; for all shapes up to 8x8x8 (thorough 12x12x12) and inner/outer dimensions across vector widths (up to 1025) all pairs of positions (small shapes) or dense boundary patterns; sums, differences: all positions; codecs: all shapes up to 12x12 with dense patterns, lists of up to 5 matrices, empty matrices; random matrices of all shapes up to 20x20",
		Assumptions: []string{"the reference is schoolbook arithmetic on Go's uint32 and on lukechampine.com/uint128"},
		Run:         runC13,
	})
}

type u128 = uint128.Uint128

// ring hides the element type of the two kinds of matrices; elements are u128.
type ring struct {
	name  string
	alpha []u128
	mask  func(u128) u128
	mul   func(ar, ac, bc int, a, b []u128) (res, a2, b2 []u128)
	bmul  func(ar, ac, bc int, a []u128, b []byte) (res, a2 []u128, b2 []byte)
	add   func(r, c int, a, b []u128, sub bool) (res, b2 []u128)
	codec func(r, c int, a []u128) (r2, c2 int, a2 []u128)
	rnd   func(seed uint64, r, c int) (r2, c2 int, a []u128, panicked bool)
	gauss func(r, c int) (r2, c2 int, a []u128)
}

func mask32(x u128) u128 { return uint128.From64(x.Lo & 0xffffffff) }

func ring32() *ring {
	mk := func(r, c int, a []u128) *matrix.Matrix {
		m := matrix.New(r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.Set(i, j, uint32(a[i*c+j].Lo))
			}
		}
		return m
	}
	get := func(m *matrix.Matrix) []u128 {
		o := make([]u128, 0, m.Rows()*m.Cols())
		for i := 0; i < m.Rows(); i++ {
			for j := 0; j < m.Cols(); j++ {
				o = append(o, uint128.From64(uint64(m.Get(i, j))))
			}
		}
		return o
	}
	g := &ring{name: "32", mask: mask32}
	for _, v := range []uint64{0, 1, 0xffffffff, 0x80000000, 0x10001, 0x7fffffff, 2, 0xfffffffe, 0x01020304} {
		g.alpha = append(g.alpha, uint128.From64(v))
	}
	g.mul = func(ar, ac, bc int, a, b []u128) ([]u128, []u128, []u128) {
		x, y := mk(ar, ac, a), mk(ac, bc, b)
		z := matrix.Mul(x, y)
		if z.Rows() != ar || z.Cols() != bc || z.Len() != ar*bc {
			return nil, get(x), get(y)
		}
		return get(z), get(x), get(y)
	}
	g.bmul = func(ar, ac, bc int, a []u128, b []byte) ([]u128, []u128, []byte) {
		x, y := mk(ar, ac, a), mkBytes(ac, bc, b)
		z := matrix.BinaryMul(x, y)
		if z.Rows() != ar || z.Cols() != bc || z.Len() != ar*bc {
			return nil, get(x), getBytes(y, ac, bc)
		}
		return get(z), get(x), getBytes(y, ac, bc)
	}
	g.add = func(r, c int, a, b []u128, sub bool) ([]u128, []u128) {
		x, y := mk(r, c, a), mk(r, c, b)
		if sub {
			x.Sub(y)
		} else {
			x.Add(y)
		}
		return get(x), get(y)
	}
	g.codec = func(r, c int, a []u128) (int, int, []u128) {
		x := mk(r, c, a)
		e := matrix.MatrixToBytes(x)
		keep := dup(e)
		y := matrix.BytesToMatrix(e)
		if !eq(keep, e) || y.Len() != r*c {
			return -1, -1, nil
		}
		if fmt.Sprint(get(x)) != fmt.Sprint(a) {
			return -2, -2, nil
		}
		return y.Rows(), y.Cols(), get(y)
	}
	g.rnd = func(seed uint64, r, c int) (int, int, []u128, bool) {
		m := matrix.NewRandom(detrand.New(seed), r, c)
		if m.Len() != r*c {
			return m.Rows(), m.Cols(), nil, false
		}
		return m.Rows(), m.Cols(), get(m), false
	}
	g.gauss = func(r, c int) (int, int, []u128) {
		m := matrix.NewGauss(r, c)
		return m.Rows(), m.Cols(), get(m)
	}
	return g
}

func mkBytes(r, c int, b []byte) *matrix.MatrixBytes {
	m := matrix.NewBytes(r, c)
	for i := range b {
		m.SetData(i, b[i])
	}
	return m
}

func getBytes(m *matrix.MatrixBytes, r, c int) []byte {
	var o []byte
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			o = append(o, m.Get(i, j))
		}
	}
	return o
}

func ring128() *ring {
	mk := func(r, c int, a []u128) *matrix.Matrix128 {
		m := matrix.New128(r, c)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.Set(i, j, a[i*c+j])
			}
		}
		return m
	}
	get := func(m *matrix.Matrix128) []u128 {
		o := make([]u128, 0, m.Rows()*m.Cols())
		for i := 0; i < m.Rows(); i++ {
			for j := 0; j < m.Cols(); j++ {
				o = append(o, m.Get(i, j))
			}
		}
		return o
	}
	g := &ring{name: "128", mask: func(x u128) u128 { return x }}
	g.alpha = []u128{uint128.Zero, uint128.From64(1), uint128.Max, uint128.New(0, 1<<63), uint128.New(0, 1), uint128.New(1<<63, 0),
		uint128.New(^uint64(0), 0), uint128.New(^uint64(0)-1, ^uint64(0)), uint128.New(0x0102030405060708, 0x090a0b0c0d0e0f10)}
	g.mul = func(ar, ac, bc int, a, b []u128) ([]u128, []u128, []u128) {
		x, y := mk(ar, ac, a), mk(ac, bc, b)
		z := matrix.Mul128(x, y)
		if z.Rows() != ar || z.Cols() != bc {
			return nil, get(x), get(y)
		}
		return get(z), get(x), get(y)
	}
	g.bmul = func(ar, ac, bc int, a []u128, b []byte) ([]u128, []u128, []byte) {
		x, y := mk(ar, ac, a), mkBytes(ac, bc, b)
		z := matrix.BinaryMul128(x, y)
		if z.Rows() != ar || z.Cols() != bc {
			return nil, get(x), getBytes(y, ac, bc)
		}
		return get(z), get(x), getBytes(y, ac, bc)
	}
	g.add = func(r, c int, a, b []u128, sub bool) ([]u128, []u128) {
		x, y := mk(r, c, a), mk(r, c, b)
		if sub {
			x.Sub(y)
		} else {
			x.Add(y)
		}
		return get(x), get(y)
	}
	g.codec = func(r, c int, a []u128) (int, int, []u128) {
		x := mk(r, c, a)
		e := matrix.Matrix128ToBytes(x)
		keep := dup(e)
		y := matrix.BytesToMatrix128(e)
		if !eq(keep, e) {
			return -1, -1, nil
		}
		if fmt.Sprint(get(x)) != fmt.Sprint(a) {
			return -2, -2, nil
		}
		return y.Rows(), y.Cols(), get(y)
	}
	g.rnd = func(seed uint64, r, c int) (int, int, []u128, bool) {
		m := matrix.NewRandom128(detrand.New(seed), r, c)
		return m.Rows(), m.Cols(), get(m), false
	}
	g.gauss = func(r, c int) (int, int, []u128) {
		m := matrix.NewGauss128(r, c)
		return m.Rows(), m.Cols(), get(m)
	}
	return g
}

func refMul(g *ring, ar, ac, bc int, a, b []u128) []u128 {
	o := make([]u128, ar*bc)
	for i := 0; i < ar; i++ {
		for j := 0; j < bc; j++ {
			s := uint128.Zero
			for k := 0; k < ac; k++ {
				if !a[i*ac+k].IsZero() && !b[k*bc+j].IsZero() {
					s = s.AddWrap(a[i*ac+k].MulWrap(b[k*bc+j]))
				}
			}
			o[i*bc+j] = g.mask(s)
		}
	}
	return o
}

func sameU(a, b []u128) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC13(r *eng.R) {
	checkMul := func(g *ring, ar, ac, bc int, a, b []u128) {
		z, x, y := g.mul(ar, ac, bc, a, b)
		if !sameU(x, a) || !sameU(y, b) {
			r.Failf("%s: product %dx%dx%d changed an operand", g.name, ar, ac, bc)
		}
		if want := refMul(g, ar, ac, bc, a, b); !sameU(z, want) {
			r.Failf("%s: product of %v (%dx%d) and %v (%dx%d) is %v, not %v", g.name, a, ar, ac, b, ac, bc, z, want)
		}
		r.Trans(1)
	}
	checkBMul := func(g *ring, ar, ac, bc int, a []u128, b []byte) {
		z, x, y := g.bmul(ar, ac, bc, a, b)
		if !sameU(x, a) || !eq(y, b) {
			r.Failf("%s: binary product %dx%dx%d changed an operand", g.name, ar, ac, bc)
		}
		bb := make([]u128, len(b))
		for i := range b {
			bb[i] = uint128.From64(uint64(b[i]))
		}
		if want := refMul(g, ar, ac, bc, a, bb); !sameU(z, want) {
			r.Failf("%s: binary product of %v (%dx%d) and %v (%dx%d) is %v, not %v", g.name, a, ar, ac, b, ac, bc, z, want)
		}
		r.Trans(1)
	}
	checkAdd := func(g *ring, rows, cols int, a, b []u128) {
		for _, sub := range []bool{false, true} {
			z, y := g.add(rows, cols, a, b, sub)
			if !sameU(y, b) {
				r.Failf("%s: sum changed its operand", g.name)
			}
			want := make([]u128, len(a))
			for i := range a {
				if sub {
					want[i] = g.mask(a[i].SubWrap(b[i]))
				} else {
					want[i] = g.mask(a[i].AddWrap(b[i]))
				}
			}
			if !sameU(z, want) {
				r.Failf("%s: sub=%v of %v and %v (%dx%d) is %v", g.name, sub, a, b, rows, cols, z)
			}
			r.Trans(1)
		}
	}
	// digits of x in base k
	assign := func(alpha []u128, k, x, n int) []u128 {
		o := make([]u128, n)
		for i := range o {
			o[i] = alpha[x%k]
			x /= k
		}
		return o
	}
	pow := func(k, n int) int {
		p := 1
		for i := 0; i < n; i++ {
			p *= k
		}
		return p
	}
	dense := func(g *ring, n, p int) []u128 {
		o := make([]u128, n)
		for i := range o {
			switch p {
			case 0:
				o[i] = g.mask(uint128.Max)
			case 1:
				o[i] = g.alpha[(i*7+1)%len(g.alpha)]
			default:
				x := uint64(i+1) * 0x9e3779b97f4a7c15
				o[i] = g.mask(uint128.New(x, x*0xbf58476d1ce4e5b9+uint64(p)))
			}
		}
		return o
	}
	for _, g := range []*ring{ring32(), ring128()} {
		g := g
		// all values
		limit, maxDim := 8, 8
		if r.Thorough {
			limit, maxDim = 10, 12
		}
		for ar := 1; ar <= limit; ar++ {
			for ac := 1; ac <= limit; ac++ {
				for bc := 1; bc <= limit; bc++ {
					na, nb := ar*ac, ac*bc
					if na+nb > limit {
						continue
					}
					ar, ac, bc := ar, ac, bc
					k := 9
					for pow(k, na+nb) > 50000 && k > 3 {
						k--
					}
					r.Case(fmt.Sprintf("%s all products %dx%dx%d over %d values", g.name, ar, ac, bc, k), func() {
						for x := 0; x < pow(k, na+nb); x++ {
							v := assign(g.alpha, k, x, na+nb)
							checkMul(g, ar, ac, bc, v[:na], v[na:])
						}
						r.State(g.name, ar, ac, bc)
						r.Trace()
					})
					r.Case(fmt.Sprintf("%s all binary products %dx%dx%d", g.name, ar, ac, bc), func() {
						ka := 9
						for pow(ka, na)*pow(2, nb) > 50000 && ka > 3 {
							ka--
						}
						for x := 0; x < pow(ka, na); x++ {
							a := assign(g.alpha, ka, x, na)
							for y := 0; y < 1<<uint(nb); y++ {
								checkBMul(g, ar, ac, bc, a, matrixBits(y, nb))
							}
						}
						r.State(g.name, "b", ar, ac, bc)
						r.Trace()
					})
				}
			}
		}
		// every pair of positions
		for ar := 1; ar <= maxDim; ar++ {
			for ac := 1; ac <= maxDim; ac++ {
				ar, ac := ar, ac
				r.Case(fmt.Sprintf("%s pairs of positions %dx%dx*", g.name, ar, ac), func() {
					for bc := 1; bc <= maxDim; bc++ {
						a, b, bb := make([]u128, ar*ac), make([]u128, ac*bc), make([]byte, ac*bc)
						for i := range a {
							a[i] = g.alpha[3]
							if i%2 == 1 {
								a[i] = g.alpha[2]
							}
							for j := range b {
								b[j] = g.alpha[1+(i+j)%8]
								checkMul(g, ar, ac, bc, a, b)
								b[j] = uint128.Zero
								bb[j] = 1
								checkBMul(g, ar, ac, bc, a, bb)
								bb[j] = 0
							}
							a[i] = uint128.Zero
						}
						for p := 0; p < 3; p++ {
							checkMul(g, ar, ac, bc, dense(g, ar*ac, p), dense(g, ac*bc, p+1))
							for j := range bb {
								bb[j] = byte(j*j+j/(p+2)+p) & 1
							}
							checkBMul(g, ar, ac, bc, dense(g, ar*ac, p), bb)
						}
						r.State(g.name, "pos", ar, ac, bc)
					}
					r.Trace()
				})
			}
		}
		// across vector widths
		for _, d := range []int{7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34, 39, 40, 41, 47, 48, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025} {
			d := d
			r.Case(fmt.Sprintf("%s dimension %d", g.name, d), func() {
				shapes := [][3]int{{1, 1, d}, {1, d, 1}, {d, 1, 1}, {1, d, 2}, {1, 2, d}, {2, 1, d}, {2, 3, d}, {3, d, 2}, {d, 2, 3}, {1, d, 5}, {1, 5, d}}
				if d <= 66 {
					shapes = append(shapes, [3]int{d, d, 1}, [3]int{1, d, d}, [3]int{d, 1, d}, [3]int{3, d, d}, [3]int{d, d, 3})
				}
				if d <= 33 || r.Thorough && d <= 129 {
					shapes = append(shapes, [3]int{d, d, d})
				}
				for _, s := range shapes {
					for p := 0; p < 4; p++ {
						a, b := dense(g, s[0]*s[1], p), dense(g, s[1]*s[2], (p+2)%4)
						checkMul(g, s[0], s[1], s[2], a, b)
						bb := make([]byte, s[1]*s[2])
						for j := range bb {
							bb[j] = byte(j*j+j/(p+2)+p) & 1
							if p == 0 {
								bb[j] = 1
							}
						}
						checkBMul(g, s[0], s[1], s[2], a, bb)
					}
					r.State(g.name, "dim", s)
				}
				// single positions
				for i := 0; i < d; i++ {
					b := make([]u128, d)
					b[i] = g.mask(uint128.Max)
					checkMul(g, 2, 1, d, dense(g, 2, 2), b)
					checkMul(g, 2, d, 1, dense(g, 2*d, 2), b)
					bb := make([]byte, d)
					bb[i] = 1
					checkBMul(g, 2, 1, d, dense(g, 2, 2), bb)
					checkBMul(g, 2, d, 1, dense(g, 2*d, 2), bb)
				}
				r.Trace()
			})
		}
		// sums
		for rows := 1; rows <= 12; rows++ {
			rows := rows
			r.Case(fmt.Sprintf("%s sums and codecs of %d rows", g.name, rows), func() {
				for cols := 1; cols <= 12; cols++ {
					n := rows * cols
					for p := 0; p < 4; p++ {
						checkAdd(g, rows, cols, dense(g, n, p), dense(g, n, (p+1)%4))
					}
					for i := 0; i < n; i++ {
						for k := range g.alpha {
							a, b := dense(g, n, 2), make([]u128, n)
							b[i] = g.alpha[k]
							if k%3 != i%3 && n > 16 {
								continue
							}
							checkAdd(g, rows, cols, a, b)
							checkAdd(g, rows, cols, b, a)
							r2, c2, b2 := g.codec(rows, cols, b)
							if r2 != rows || c2 != cols || !sameU(b, b2) {
								r.Failf("%s: decoding the encoding of %v (%dx%d) gives %v (%dx%d)", g.name, b, rows, cols, b2, r2, c2)
							}
							r.Trans(1)
						}
					}
					r.State(g.name, "sum", rows, cols)
				}
				r.Trace()
			})
		}
		r.Case(g.name+" all sums of two elements", func() {
			for x := range g.alpha {
				for y := range g.alpha {
					for z := range g.alpha {
						checkAdd(g, 1, 2, []u128{g.alpha[x], g.alpha[y]}, []u128{g.alpha[z], g.alpha[x]})
						checkAdd(g, 2, 1, []u128{g.alpha[y], g.alpha[x]}, []u128{g.alpha[z], g.alpha[x]})
					}
				}
			}
			r.State(g.name, "elements")
			r.Trace()
		})
		r.Case(g.name+" codecs of other shapes", func() {
			for _, s := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {0, 7}, {7, 0}, {1, 255}, {1, 256}, {1, 257}, {256, 1}, {257, 1}, {16, 16}, {255, 257}, {1, 65535}, {1, 65536}, {65537, 1}} {
				a := dense(g, s[0]*s[1], 2)
				r2, c2, a2 := g.codec(s[0], s[1], a)
				if r2 != s[0] || c2 != s[1] || !sameU(a, a2) {
					r.Failf("%s: decoding the encoding of a %dx%d matrix gives %dx%d", g.name, s[0], s[1], r2, c2)
				}
				r.State(g.name, "codec", s)
				r.Trans(1)
			}
			r.Trace()
		})
		r.Case(g.name+" random matrices", func() {
			for rows := 1; rows <= 20; rows++ {
				for cols := 1; cols <= 20; cols++ {
					r2, c2, a, _ := g.rnd(uint64(rows), rows, cols)
					if r2 != rows || c2 != cols || len(a) != rows*cols {
						r.Failf("%s: random %dx%d matrix is %dx%d with %d elements", g.name, rows, cols, r2, c2, len(a))
					}
					_, _, b, _ := g.rnd(uint64(rows), rows, cols)
					if !sameU(a, b) {
						r.Failf("%s: random matrix depends on something else than its source", g.name)
					}
					// the elements are different
					seen := map[u128]int{}
					for i := range a {
						seen[a[i]]++
					}
					if len(seen) < len(a)-2 {
						r.Failf("%s: only %d different elements in a random matrix of %d", g.name, len(seen), len(a))
					}
					// and can be used
					z, x, _ := g.mul(rows, cols, 1, a, dense(g, cols, 1))
					if !sameU(z, refMul(g, rows, cols, 1, a, dense(g, cols, 1))) || !sameU(x, a) {
						r.Failf("%s: product of a random matrix", g.name)
					}
					r3, c3, e := g.gauss(rows, cols)
					if r3 != rows || c3 != cols || len(e) != rows*cols {
						r.Failf("%s: noise matrix is %dx%d", g.name, r3, c3)
					}
					for i := range e {
						s := e[i]
						n := g.mask(uint128.Zero.SubWrap(s))
						if !(s.Hi == 0 && s.Lo <= 132 || n.Hi == 0 && n.Lo <= 132) {
							r.Failf("%s: noise %v", g.name, s)
						}
					}
					r.State(g.name, "rnd", rows, cols)
					r.Trans(4)
				}
			}
			r.Trace()
		})
	}
	// lists of matrices
	for n := 1; n <= 5; n++ {
		n := n
		r.Case(fmt.Sprintf("lists of %d matrices", n), func() {
			for rows := 1; rows <= 7; rows++ {
				for cols := 1; cols <= 7; cols++ {
					var l []*matrix.Matrix
					for k := 0; k < n; k++ {
						m := matrix.New(rows, cols)
						for i := 0; i < rows; i++ {
							for j := 0; j < cols; j++ {
								m.Set(i, j, uint32(k*1000003+i*7919+j)*0x9e3779b1)
							}
						}
						l = append(l, m)
					}
					e := matrix.MatricesToBytes(l)
					keep := dup(e)
					d := matrix.BytesToMatrices(e)
					r.Trans(2)
					if !eq(keep, e) {
						r.Failf("decoding changes its input")
					}
					if len(d) != n {
						r.Failf("list of %d decodes to %d", n, len(d))
					}
					for k := range d {
						if d[k].Rows() != rows || d[k].Cols() != cols || d[k].Len() != rows*cols {
							r.Failf("matrix %d of %d (%dx%d) decodes to %dx%d", k, n, rows, cols, d[k].Rows(), d[k].Cols())
						}
						for i := 0; i < rows; i++ {
							for j := 0; j < cols; j++ {
								if d[k].Get(i, j) != l[k].Get(i, j) || l[k].Get(i, j) != uint32(k*1000003+i*7919+j)*0x9e3779b1 {
									r.Failf("matrix %d of %d (%dx%d): wrong element %d,%d", k, n, rows, cols, i, j)
								}
							}
						}
					}
					r.State("list", n, rows, cols)
				}
			}
			r.Trace()
		})
	}
	for _, n := range []int{15, 16, 17, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1024, 4097, 32769, 65535, 65536, 65537, 70000} {
		for _, sh := range [][2]int{{1, 1}, {1, 2}, {3, 1}} {
			n, sh := n, sh
			r.Case(fmt.Sprintf("lists of %d matrices of %dx%d", n, sh[0], sh[1]), func() {
				var l []*matrix.Matrix
				for k := 0; k < n; k++ {
					m := matrix.New(sh[0], sh[1])
					for i := 0; i < sh[0]*sh[1]; i++ {
						m.Set(i/sh[1], i%sh[1], uint32(k*5+i)*0x9e3779b1)
					}
					l = append(l, m)
				}
				d := matrix.BytesToMatrices(matrix.MatricesToBytes(l))
				r.Trans(2)
				if len(d) != n {
					r.Failf("list of %d decodes to %d", n, len(d))
				}
				for k := range d {
					if d[k].Rows() != sh[0] || d[k].Cols() != sh[1] || d[k].Len() != sh[0]*sh[1] {
						r.Failf("matrix %d of %d decodes to %dx%d", k, n, d[k].Rows(), d[k].Cols())
					}
					for i := 0; i < sh[0]*sh[1]; i++ {
						if d[k].Get(i/sh[1], i%sh[1]) != uint32(k*5+i)*0x9e3779b1 {
							r.Failf("matrix %d of %d: wrong element %d", k, n, i)
						}
					}
				}
				r.State("long list", n, sh)
				r.Trace()
			})
		}
	}
	r.Case("slices of words", func() {
		for n := 0; n <= 70; n++ {
			w := make([]uint32, n)
			for i := range w {
				w[i] = uint32(i+1) * 0x9e3779b1
			}
			if n > 1 {
				w[0], w[n-1] = 0xffffffff, 0x80000000
			}
			b := utils.Uint32SliceToByteSlice(w)
			v := utils.ByteSliceToUint32Slice(b)
			if len(b) != 4*n || len(v) != n {
				r.Failf("%d words encode to %d bytes, decode to %d words", n, len(b), len(v))
			}
			for i := range w {
				if w[i] != v[i] {
					r.Failf("word %d of %d changes", i, n)
				}
			}
			r.State("words", n)
			r.Trans(2)
		}
		r.Trace()
	})
}
