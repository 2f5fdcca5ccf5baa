package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/bits"
)

// hull is the GF(2)-affine hull of a set of bit vectors: an origin and a basis
// in reduced row echelon form. Two sets have the same hull iff key() is equal.
type hull struct {
	n      int // bits
	origin []uint64
	rows   [][]uint64
	pivot  []int
	stable int // vectors added since the last increase of the dimension
}

func toWords(b []byte) []uint64 {
	w := make([]uint64, (len(b)+7)/8)
	for i, x := range b {
		w[i/8] |= uint64(x) << (8 * uint(i%8))
	}
	return w
}

// add adds a vector; it returns false if its length differs from the others.
func (h *hull) add(b []byte) bool {
	if h.origin == nil {
		h.n = 8 * len(b)
		h.origin = toWords(b)
		return true
	}
	if h.n != 8*len(b) {
		return false
	}
	v := toWords(b)
	for i := range v {
		v[i] ^= h.origin[i]
	}
	for k, p := range h.pivot {
		if v[p/64]>>(uint(p)%64)&1 == 1 {
			xorInto(v, h.rows[k])
		}
	}
	p := firstBit(v)
	if p < 0 {
		h.stable++
		return true
	}
	h.stable = 0
	h.rows = append(h.rows, v)
	h.pivot = append(h.pivot, p)
	return true
}

func xorInto(a, b []uint64) {
	for i := range a {
		a[i] ^= b[i]
	}
}

func firstBit(v []uint64) int {
	for i, w := range v {
		if w != 0 {
			return 64*i + bits.TrailingZeros64(w)
		}
	}
	return -1
}

// key canonicalises: full reduction of the rows, sorted by pivot, and of the
// origin.
func (h *hull) key() string {
	// order by pivot
	for i := range h.rows {
		for j := i + 1; j < len(h.rows); j++ {
			if h.pivot[j] < h.pivot[i] {
				h.pivot[i], h.pivot[j] = h.pivot[j], h.pivot[i]
				h.rows[i], h.rows[j] = h.rows[j], h.rows[i]
			}
		}
	}
	// forward: make every row's first bit its pivot and unique
	var rows [][]uint64
	for _, r := range h.rows {
		rows = append(rows, append([]uint64(nil), r...))
	}
	rref(rows)
	o := append([]uint64(nil), h.origin...)
	f := fnv.New128a()
	var b [8]byte
	for _, r := range rows {
		p := firstBit(r)
		if o[p/64]>>(uint(p)%64)&1 == 1 {
			xorInto(o, r)
		}
		for _, w := range r {
			binary.LittleEndian.PutUint64(b[:], w)
			f.Write(b[:])
		}
	}
	for _, w := range o {
		binary.LittleEndian.PutUint64(b[:], w)
		f.Write(b[:])
	}
	return fmt.Sprintf("%d bits dim %d %x", h.n, len(rows), f.Sum(nil))
}

// rref brings independent rows to reduced row echelon form (by lowest bit).
func rref(rows [][]uint64) {
	done := 0
	if len(rows) == 0 {
		return
	}
	n := len(rows[0]) * 64
	for c := 0; c < n && done < len(rows); c++ {
		s := -1
		for i := done; i < len(rows); i++ {
			if rows[i][c/64]>>(uint(c)%64)&1 == 1 {
				s = i
				break
			}
		}
		if s < 0 {
			continue
		}
		rows[done], rows[s] = rows[s], rows[done]
		for i := range rows {
			if i != done && rows[i][c/64]>>(uint(c)%64)&1 == 1 {
				xorInto(rows[i], rows[done])
			}
		}
		done++
	}
}

func (h *hull) dim() int { return len(h.rows) }

// freeBits returns how many single bits vary.
func (h *hull) freeBits() int {
	n := 0
	or := make([]uint64, len(h.origin))
	for _, r := range h.rows {
		for i := range r {
			or[i] |= r[i]
		}
	}
	for _, w := range or {
		n += bits.OnesCount64(w)
	}
	return n
}

// hullP is the affine hull of vectors over the field of integers modulo p.
type hullP struct {
	p      uint64
	origin []uint64
	rows   [][]uint64
}

func (h *hullP) inv(a uint64) uint64 {
	r, e := uint64(1), h.p-2
	for a %= h.p; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * a % h.p
		}
		a = a * a % h.p
	}
	return r
}

// add keeps the rows in reduced form all the time.
func (h *hullP) add(v []uint64) bool {
	w := make([]uint64, len(v))
	for i := range v {
		w[i] = v[i] % h.p
	}
	if h.origin == nil {
		h.origin = w
		return true
	}
	if len(w) != len(h.origin) {
		return false
	}
	for i := range w {
		w[i] = (w[i] + h.p - h.origin[i]) % h.p
	}
	for _, r := range h.rows {
		h.reduce(w, r)
	}
	lead := leadOf(w)
	if lead < 0 {
		return true
	}
	f := h.inv(w[lead])
	for i := range w {
		w[i] = w[i] * f % h.p
	}
	for _, r := range h.rows {
		h.reduce(r, w)
	}
	at := 0
	for at < len(h.rows) && leadOf(h.rows[at]) < lead {
		at++
	}
	h.rows = append(h.rows, nil)
	copy(h.rows[at+1:], h.rows[at:])
	h.rows[at] = w
	return true
}

func leadOf(v []uint64) int {
	for i, x := range v {
		if x != 0 {
			return i
		}
	}
	return -1
}

// reduce makes w zero at the leading position of r.
func (h *hullP) reduce(w, r []uint64) {
	l := leadOf(r)
	f := w[l]
	if f == 0 {
		return
	}
	for i := range w {
		w[i] = (w[i] + (h.p-f)*r[i]) % h.p
	}
}

func (h *hullP) key() string {
	o := append([]uint64(nil), h.origin...)
	for _, r := range h.rows {
		h.reduce(o, r)
	}
	return fmt.Sprint(len(h.rows), h.rows, o)
}
