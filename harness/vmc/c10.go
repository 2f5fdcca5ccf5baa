package main

import (
	"fmt"

	"github.com/si-co/vpir-code/lib/ecc"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C10",
		Bounds: "all words over 4 symbols for t<=3 and over 3 symbols for t=4 (thorough: t=5,6), several alphabets of symbol values; encoding for t<=64; all one-value error patterns up to t=40 at the boundary t, t+1",
		Run:    runC10,
	})
}

func runC10(r *eng.R) {
	alphabets := [][]uint32{
		{0, 1, 2, 0xffffffff},
		{1, 0, 0xffffffff, 2},
		{0xffffffff, 0x80000000, 0x7fffffff, 0},
		{5, 6, 7, 8},
	}
	// encoding
	for t := 0; t <= 64; t++ {
		t := t
		r.Case(fmt.Sprintf("encode t=%d", t), func() {
			for _, v := range []uint32{0, 1, 2, 1 << 31, 0xffffffff} {
				w := ecc.New(t).Encode(v)
				r.Trans(1)
				if len(w) != 2*t+1 {
					r.Failf("encoding of %d has %d symbols", v, len(w))
				}
				for _, s := range w {
					if s != v {
						r.Failf("encoding of %d contains %d", v, s)
					}
				}
				d, err := ecc.New(t).Decode(w)
				if err != nil || d != v {
					r.Failf("decode(encode(%d)) = %d, %v", v, d, err)
				}
				r.State("enc", t, v)
				r.Trace()
			}
		})
	}
	// all words
	decode := func(e *ecc.ECC, w []uint32, alpha []uint32, idx []int) {
		in := append([]uint32(nil), w...)
		d, err := e.Decode(in)
		r.Trans(1)
		r.Trace()
		// reference: count
		maj, ok := uint32(0), false
		for s := range alpha {
			c := 0
			for _, x := range idx {
				if x == s {
					c++
				}
			}
			if 2*c > len(w) {
				maj, ok = alpha[s], true
			}
		}
		if ok && (err != nil || d != maj) {
			r.Failf("decode(%v) = %d, %v; the majority is %d", w, d, err, maj)
		}
		if !ok && err == nil {
			r.Failf("decode(%v) = %d without a majority", w, d)
		}
		if ok {
			r.Outcome("value")
		} else {
			r.Outcome("error")
		}
	}
	maxT := 4
	if r.Thorough {
		maxT = 6
	}
	for ai, alpha := range alphabets {
		for t := 0; t <= maxT; t++ {
			k := 4
			if t >= 4 {
				k = 3
			}
			n := 2*t + 1
			first := 1
			if n >= 3 {
				first = k * k
			}
			for f := 0; f < first; f++ {
				t, alpha, f := t, alpha, f
				r.Case(fmt.Sprintf("words alphabet=%d t=%d prefix=%d", ai, t, f), func() {
					e := ecc.New(t)
					idx := make([]int, n)
					w := make([]uint32, n)
					fix := 0
					if n >= 3 {
						idx[0], idx[1], fix = f%k, f/k, 2
					}
					for {
						for i := range idx {
							w[i] = alpha[idx[i]]
						}
						decode(e, w, alpha, idx)
						if t <= 4 {
							r.State("w", n, fmt.Sprint(w))
						}
						i := fix
						for i < n {
							idx[i]++
							if idx[i] < k {
								break
							}
							idx[i] = 0
							i++
						}
						if i == n {
							break
						}
					}
				})
			}
		}
	}
	// boundary: exactly t and t+1 errors, contiguous, spread, at the beginning or the end
	for t := 1; t <= 40; t++ {
		t := t
		r.Case(fmt.Sprintf("boundary t=%d", t), func() {
			n := 2*t + 1
			e := ecc.New(t)
			for _, nerr := range []int{1, t - 1, t, t + 1} {
				for start := 0; start < n; start++ {
					for _, step := range []int{1, 2} {
						w := e.Encode(9)
						cnt := 0
						idx := make([]int, n)
						for i, p := 0, start; i < nerr && p < start+n*step; i, p = i+1, p+step {
							q := p % n
							if w[q] == 9 {
								w[q] = 4
								idx[q] = 1
								cnt++
							}
						}
						decode(e, w, []uint32{9, 4}, idx)
						r.State("b", t, fmt.Sprint(w))
					}
				}
			}
		})
	}
}
