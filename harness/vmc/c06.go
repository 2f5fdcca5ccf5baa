package main

import (
	"fmt"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C06",
		Bounds: "all special inputs x all inputs for lengths <=8 (thorough <=10) bits; lengths up to 320 bits with all inputs at Hamming distance <=1 and all-prefix inputs; lengths up to 4104 bits with those that differ near the limits of 64-bit words; output vectors of 1..20 elements with boundary values; reuse of one generator and evaluator for all lengths",
		Run:    runC06,
	})
}

func bitsOf(x uint64, n int) []bool {
	o := make([]bool, n)
	for i := range o {
		o[i] = x>>(uint(n-1-i))&1 == 1
	}
	return o
}

func boolKey(b []bool) []byte {
	o := make([]byte, len(b))
	for i := range b {
		if b[i] {
			o[i] = 1
		}
	}
	return o
}

func modP(x uint64) uint32 { return uint32(x % uint64(field.ModP)) }

// evalBoth checks the evaluations of both keys on x, twice.
func evalBoth(r *eng.R, srv []*fss.Fss, keys []fss.FssKeyEq2P, x []bool, want []uint32, what string) {
	var out [2][]uint32
	for s := 0; s < 2; s++ {
		for rep := 0; rep < 2; rep++ {
			o := make([]uint32, len(want))
			if rep == 1 { // what the output contains before must not matter
				for i := range o {
					o[i] = 0xdeadbeef
				}
			}
			srv[s].EvaluatePF(byte(s), keys[s], x, o)
			r.Trans(1)
			if rep == 1 {
				for i := range o {
					if o[i] != out[s][i] {
						r.Failf("%s: evaluation of server %d is not deterministic: %v, %v", what, s, out[s], o)
					}
				}
			}
			out[s] = o
		}
	}
	for i := range want {
		got := modP(uint64(out[0][i]) + uint64(out[1][i]))
		if got != want[i] {
			r.Failf("%s: coordinate %d is %d instead of %d", what, i, got, want[i])
		}
	}
	r.Trace()
}

func runC06(r *eng.R) {
	type outv struct {
		name string
		b    []uint32
	}
	p := field.ModP
	outs := []outv{
		{"1", []uint32{1}},
		{"0", []uint32{0}},
		{"p-1", []uint32{p - 1}},
		{"mac", []uint32{1, 0, p - 1, 12345, 1 << 30}},
		{"mac0", []uint32{1, p - 1, p - 1, 0, 0}},
	}
	zero := func(n int) []uint32 { return make([]uint32, n) }
	seed := uint64(0)
	maxN := 8
	if r.Thorough {
		maxN = 10
	}
	for _, ov := range outs {
		for n := 1; n <= maxN; n++ {
			for alpha := uint64(0); alpha < 1<<uint(n); alpha++ {
				ov, n, alpha := ov, n, alpha
				seed++
				sd := seed
				r.Case(fmt.Sprintf("all out=%s n=%d special=%d", ov.name, n, alpha), func() {
					for tape := uint64(0); tape < 2; tape++ {
						detrand.Seed(r.Seed<<32 ^ sd<<2 ^ tape)
						cl := fss.ClientInitialize(len(ov.b))
						srv := []*fss.Fss{fss.ServerInitialize(len(ov.b)), fss.ServerInitialize(len(ov.b))}
						keys := cl.GenerateTreePF(bitsOf(alpha, n), append([]uint32(nil), ov.b...))
						for x := uint64(0); x < 1<<uint(n); x++ {
							want := zero(len(ov.b))
							if x == alpha {
								want = ov.b
								r.Outcome("special")
							} else {
								r.Outcome("zero")
							}
							evalBoth(r, srv, keys, bitsOf(x, n), want, fmt.Sprintf("x=%d tape=%d", x, tape))
							r.State("all", ov.name, n, alpha, x)
						}
					}
				})
			}
		}
	}
	// long inputs
	lengths := []int{11, 12, 15, 16, 17, 24, 31, 32, 33, 40, 47, 63, 64, 65, 72, 96, 112, 120, 127, 128, 129, 136, 160, 192, 248, 255, 256, 257, 264, 320, 504, 511, 512, 513, 520, 640, 1023, 1024, 1025, 1032, 2056, 4104}
	if r.Thorough {
		lengths = nil
		for n := 9; n <= 400; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 504, 511, 512, 513, 520, 640, 1023, 1024, 1025, 1032, 2056, 4104)
	}
	for _, n := range lengths {
		for pat := 0; pat < 4; pat++ {
			n, pat := n, pat
			ov := outs[(n+pat)%len(outs)]
			seed++
			sd := seed
			r.Case(fmt.Sprintf("long n=%d pattern=%d out=%s", n, pat, ov.name), func() {
				detrand.Seed(r.Seed<<32 ^ sd<<2)
				a := make([]bool, n)
				for i := range a {
					switch pat {
					case 1:
						a[i] = true
					case 2:
						a[i] = i%2 == 0
					case 3:
						a[i] = (i*i+i/3)%5 < 2
					}
				}
				cl := fss.ClientInitialize(len(ov.b))
				srv := []*fss.Fss{fss.ServerInitialize(len(ov.b)), fss.ServerInitialize(len(ov.b))}
				in := append([]bool(nil), a...)
				keys := cl.GenerateTreePF(in, append([]uint32(nil), ov.b...))
				for i := range a {
					if in[i] != a[i] {
						r.Failf("key generation changed its input")
					}
				}
				evalBoth(r, srv, keys, a, ov.b, "special input")
				r.State("long", n, pat, boolKey(a))
				for i := 0; i < n; i++ {
					if n > 400 && i > 8 && i < n-8 && (i+1)%64 > 2 {
						continue // around the limits of words only
					}
					x := append([]bool(nil), a...)
					x[i] = !x[i]
					evalBoth(r, srv, keys, x, zero(len(ov.b)), fmt.Sprintf("special input with bit %d flipped", i))
					r.State("long", n, pat, boolKey(x))
					// all bits from i on flipped
					if i%8 == 0 && n-i > 1 {
						y := append([]bool(nil), a...)
						for j := i; j < n; j++ {
							y[j] = !y[j]
						}
						evalBoth(r, srv, keys, y, zero(len(ov.b)), fmt.Sprintf("special input with bits %d.. flipped", i))
						r.State("long", n, pat, boolKey(y))
					}
				}
			})
		}
	}
	// output vectors of every length
	for bl := 1; bl <= 20; bl++ {
		for _, n := range []int{1, 3, 8} {
			bl, n := bl, n
			seed++
			sd := seed
			r.Case(fmt.Sprintf("outlen=%d n=%d", bl, n), func() {
				detrand.Seed(r.Seed<<32 ^ sd<<2)
				for hot := -1; hot < bl; hot++ {
					b := make([]uint32, bl)
					for i := range b {
						b[i] = uint32(i+1) * 7919 % p
						if hot >= 0 {
							b[i] = 0
						}
					}
					if hot >= 0 {
						b[hot] = p - 1
					}
					cl := fss.ClientInitialize(bl)
					srv := []*fss.Fss{fss.ServerInitialize(bl), fss.ServerInitialize(bl)}
					a := bitsOf(uint64(hot+2), n)
					keys := cl.GenerateTreePF(a, append([]uint32(nil), b...))
					for x := uint64(0); x < 1<<uint(n); x++ {
						xb := bitsOf(x, n)
						want := zero(bl)
						if string(boolKey(xb)) == string(boolKey(a)) {
							want = b
						}
						evalBoth(r, srv, keys, xb, want, fmt.Sprintf("x=%d hot=%d", x, hot))
						r.State("ol", bl, n, hot, x)
					}
				}
			})
		}
	}
	// one generator and one pair of evaluators for a history of keys of
	// different lengths, evaluated in all orders of two
	hist := []int{1, 8, 3, 128, 16, 8, 257, 4}
	for i := range hist {
		for j := range hist {
			i, j := i, j
			seed++
			sd := seed
			r.Case(fmt.Sprintf("history %d,%d", i, j), func() {
				detrand.Seed(r.Seed<<32 ^ sd<<2)
				b := []uint32{1, 2, 3, 4, 5}
				cl := fss.ClientInitialize(len(b))
				srv := []*fss.Fss{fss.ServerInitialize(len(b)), fss.ServerInitialize(len(b))}
				var ks [][]fss.FssKeyEq2P
				var as [][]bool
				for _, h := range []int{hist[i], hist[j]} {
					a := make([]bool, h)
					for q := range a {
						a[q] = (q+i+j)%3 == 0
					}
					as = append(as, a)
					ks = append(ks, cl.GenerateTreePF(a, b))
				}
				for _, k := range []int{0, 1, 0, 1, 1, 0} {
					evalBoth(r, srv, ks[k], as[k], b, fmt.Sprintf("key %d", k))
					for q := range as[k] {
						if q > 20 {
							break
						}
						x := append([]bool(nil), as[k]...)
						x[q] = !x[q]
						evalBoth(r, srv, ks[k], x, zero(len(b)), fmt.Sprintf("key %d bit %d", k, q))
					}
					r.State("hist", i, j, k)
				}
			})
		}
	}
}
