package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:          "C14",
		Bounds:      "all sequences of up to 3 (thorough 4) reads over 14 sizes from one generator, into clean and dirty memory; all database constructors over lists of shapes, each built twice in a process with other constructions in between and in 3 other processes (other startup randomness, time zone, number of processors); all words over a boundary alphabet at all positions of a vector of field elements",
		Assumptions: []string{"two outputs are related if they share 8 consecutive bytes"},
		Run:         runC14,
	})
	dumps["replicas"] = func() []byte {
		var out bytes.Buffer
		for _, b := range builders() {
			if want := os.Getenv("VERIF_ARG"); want != "" && !strings.HasPrefix(b.name, want) {
				continue
			}
			out.WriteString(b.name + "=" + hex.EncodeToString(b.f(3)) + "\n")
		}
		return out.Bytes()
	}
}

type builder struct {
	name   string
	seeded bool
	f      func(seed byte) []byte
}

func seedOf(b byte) *utils.PRGKey {
	var k utils.PRGKey
	for i := range k {
		k[i] = b + byte(i)*17
	}
	return &k
}

func canonInfo(w *bytes.Buffer, in *database.Info) {
	fmt.Fprint(w, in.NumRows, " ", in.NumColumns, " ", in.BlockSize, " ", in.BlockLengths, " ", in.PIRType, " ")
	if in.Auth != nil {
		fmt.Fprintf(w, "%x %x %d %d %v ", in.Digest, in.SubDigests, in.SubDigestLength, in.ElementSize, in.Hash)
		if in.DigestLWE != nil {
			w.Write(matrix.MatrixToBytes(in.DigestLWE))
		}
		if in.DigestLWE128 != nil {
			w.Write(matrix.Matrix128ToBytes(in.DigestLWE128))
		}
	}
	if in.Merkle != nil {
		fmt.Fprintf(w, "%x %d ", in.Merkle.Root, in.Merkle.ProofLen)
	}
}

// builders derive things from a seed.
func builders() []builder {
	var out []builder
	add := func(name string, f func(rnd io.Reader, w *bytes.Buffer)) {
		out = append(out, builder{name: name, seeded: true, f: func(seed byte) []byte {
			var w bytes.Buffer
			f(utils.NewPRG(seedOf(seed)), &w)
			return w.Bytes()
		}})
	}
	for _, sh := range [][3]int{{1, 1, 1}, {1, 8, 1}, {2, 4, 3}, {3, 5, 16}, {4, 4, 15}, {1, 17, 17}, {7, 9, 33}, {10, 10, 64}} {
		sh := sh
		add(fmt.Sprint("bytes", sh), func(rnd io.Reader, w *bytes.Buffer) {
			db := database.CreateRandomBytes(rnd, 8*sh[0]*sh[1]*sh[2], sh[0], sh[2])
			w.Write(db.Entries)
			canonInfo(w, &db.Info)
		})
		add(fmt.Sprint("merkle", sh), func(rnd io.Reader, w *bytes.Buffer) {
			db := database.CreateRandomMerkle(rnd, 8*sh[0]*sh[1]*sh[2], sh[0], sh[2])
			w.Write(db.Entries)
			canonInfo(w, &db.Info)
		})
		add(fmt.Sprint("bits", sh), func(rnd io.Reader, w *bytes.Buffer) {
			db, err := database.CreateRandomBitsDB(rnd, 32*sh[0]*sh[1]*sh[2], sh[0], sh[2])
			if err != nil {
				panic(err)
			}
			for _, e := range db.Entries {
				binary.Write(w, binary.BigEndian, e)
			}
			canonInfo(w, &db.Info)
		})
	}
	for _, n := range []int{1, 2, 5, 17, 40} {
		n := n
		add(fmt.Sprint("keys", n), func(rnd io.Reader, w *bytes.Buffer) {
			db, err := database.CreateRandomKeysDB(rnd, n)
			if err != nil {
				panic(err)
			}
			for _, k := range db.KeysInfo {
				fmt.Fprintf(w, "%s %s %d %d %d;", k.UserId.Id, k.UserId.Email, k.CreationTime.Unix(), k.PubKeyAlgo, k.BitLength)
			}
			canonInfo(w, &db.Info)
		})
	}
	out[len(out)-1].seeded = false
	for i := range out {
		if strings.HasPrefix(out[i].name, "keys") {
			out[i].seeded = false // documented: a fixed seed
		}
	}
	for _, sh := range [][2]int{{1, 1}, {1, 9}, {9, 1}, {3, 5}, {5, 3}, {16, 16}, {33, 20}} {
		sh := sh
		add(fmt.Sprint("lwe", sh), func(rnd io.Reader, w *bytes.Buffer) {
			db := database.CreateRandomBinaryLWE(rnd, sh[0], sh[1])
			w.Write(getBytes(db.Matrix, sh[0], sh[1]))
			canonInfo(w, &db.Info)
		})
		add(fmt.Sprint("128lwe", sh), func(rnd io.Reader, w *bytes.Buffer) {
			db := database.CreateRandomBinaryLWE128(rnd, sh[0], sh[1])
			w.Write(getBytes(db.Matrix, sh[0], sh[1]))
			canonInfo(w, &db.Info)
		})
		add(fmt.Sprint("matrix", sh), func(rnd io.Reader, w *bytes.Buffer) {
			w.Write(matrix.MatrixToBytes(matrix.NewRandom(rnd, sh[0], sh[1])))
			w.Write(matrix.Matrix128ToBytes(matrix.NewRandom128(rnd, sh[0], sh[1])))
		})
	}
	for _, n := range []int{1, 2, 10, 17, 26, 80} {
		for _, reb := range []bool{false, true} {
			for gi, g := range []group.Group{group.P256, group.Ristretto255, group.P384, group.P521} {
				n, reb, g := n, reb, g
				if gi > 1 && n > 10 {
					continue
				}
				add(fmt.Sprint("elliptic", gi, n, reb), func(rnd io.Reader, w *bytes.Buffer) {
					db := database.CreateRandomEllipticWithDigest(rnd, n, g, reb)
					w.Write(db.Entries)
					canonInfo(w, &db.Info)
				})
			}
		}
	}
	for _, n := range []int{1, 2, 3, 4, 5, 16, 64} {
		n := n
		add(fmt.Sprint("field", n), func(rnd io.Reader, w *bytes.Buffer) {
			for _, e := range field.RandVectorWithPRG(n, rnd) {
				binary.Write(w, binary.BigEndian, e)
			}
			for i := 0; i < n; i++ {
				binary.Write(w, binary.BigEndian, field.RandElementWithPRG(rnd))
			}
		})
	}
	for j := uint64(0); j < 5; j++ {
		j := j
		out = append(out, builder{name: fmt.Sprint("hash", j), f: func(byte) []byte {
			var w bytes.Buffer
			for _, g := range []group.Group{group.P256, group.Ristretto255, group.P384, group.P521} {
				b, err := database.HashIndexToGroup(j*255, g).MarshalBinaryCompress()
				if err != nil {
					panic(err)
				}
				w.Write(b)
			}
			fmt.Fprint(&w, database.HashToIndex(fmt.Sprint("a", j), 1000))
			k := utils.GetDefaultSeedMatrixA()
			w.Write(k[:])
			for i := range k {
				k[i] = 0 // somebody else's copy
			}
			w.Write(utils.GetDefaultSeedMatrixA()[:])
			p := utils.ParamsDefault().SeedA
			w.Write(p[:])
			p[0] ^= 1
			return w.Bytes()
		}})
	}
	return out
}

func runC14(r *eng.R) {
	// reads from one generator
	sizes := []int{1, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 64, 100}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	read := func(seed byte, seq []int, dirt int) [][]byte {
		g := utils.NewPRG(seedOf(seed))
		var out [][]byte
		for _, n := range seq {
			b := make([]byte, n)
			for i := range b {
				switch dirt {
				case 1:
					b[i] = 0xff
				case 2:
					b[i] = byte(i*37 + n)
				}
			}
			m, err := io.ReadFull(g, b)
			if err != nil || m != n {
				r.Failf("read of %d bytes: %d, %v", n, m, err)
			}
			r.Trans(1)
			out = append(out, b)
		}
		return out
	}
	var seqs func(pre []int)
	windows := func(m map[string]string, who string, b []byte) {
		for i := 0; i+8 <= len(b); i++ {
			w := string(b[i : i+8])
			if prev, ok := m[w]; ok {
				r.Failf("%s and %s share the bytes %x", prev, who, w)
			}
			m[w] = who
		}
	}
	explore := func(seq []int) {
		a := read(1, seq, 0)
		for dirt := 1; dirt <= 2; dirt++ {
			b := read(1, seq, dirt)
			for i := range a {
				if !eq(a[i], b[i]) {
					r.Failf("reads %v: read %d depends on what the memory contained", seq, i)
				}
			}
		}
		c := read(2, seq, 0)
		m := map[string]string{}
		for i := range a {
			windows(m, fmt.Sprint("read ", i), a[i])
			windows(m, fmt.Sprint("read ", i, " with another seed"), c[i])
		}
		parts := []interface{}{}
		for i := range a {
			parts = append(parts, a[i])
		}
		r.State(parts...)
		r.Trace()
	}
	seqs = func(pre []int) {
		if len(pre) > 0 {
			explore(append([]int{}, pre...))
		}
		if len(pre) == depth {
			return
		}
		for _, n := range sizes {
			seqs(append(append([]int{}, pre...), n))
		}
	}
	for _, n := range sizes {
		n := n
		r.Case(fmt.Sprintf("read sequences that start with %d", n), func() { seqs([]int{n}) })
	}
	r.Case("every read size", func() {
		for n := 1; n <= 300; n++ {
			explore([]int{n, n, n})
			explore([]int{n, 16, n})
			// reads of one size from generators with neighbouring seeds
			m := map[string]string{}
			for s := 0; s < 8; s++ {
				windows(m, fmt.Sprint("seed ", s), read(byte(s), []int{n}, 0)[0])
			}
		}
		for _, n := range []int{1000, 4095, 4096, 8191, 8192, 8193, 65536, 100000} {
			explore([]int{n, n, 5, n})
		}
	})
	r.Case("keys", func() {
		// all keys at distance one
		m := map[string]string{}
		k := *seedOf(9)
		for i := -1; i < 128; i++ {
			x := k
			if i >= 0 {
				x[i/8] ^= 1 << uint(i%8)
			}
			g := utils.NewPRG(&x)
			x = utils.PRGKey{} // the generator has its own key
			b := make([]byte, 48)
			g.Read(b)
			windows(m, fmt.Sprint("key with bit ", i), b)
			r.State("key", b)
			r.Trans(1)
		}
		// random keys are different
		seen := map[utils.PRGKey]bool{}
		for i := 0; i < 100; i++ {
			x := *utils.RandomPRGKey()
			if seen[x] {
				r.Failf("random key repeats")
			}
			seen[x] = true
		}
		for i := 0; i < 50; i++ {
			b := make([]byte, 32)
			utils.RandomPRG().Read(b)
			windows(m, fmt.Sprint("random generator ", i), b)
		}
		r.Trace()
	})
	// long runs of short reads, as noise and secrets are read
	r.Case("streams", func() {
		for _, n := range []int{8, 9, 12, 16, 20} {
			g := utils.NewPRG(seedOf(1))
			m := map[string]string{}
			for i := 0; i < 3000; i++ {
				b := make([]byte, n)
				g.Read(b)
				windows(m, fmt.Sprint("read ", i), b)
			}
			r.Trans(3000)
			r.State("stream", n)
		}
		// math/rand on top of the buffered generator
		g, h := utils.NewBufPRG(utils.NewPRG(seedOf(1))), utils.NewBufPRG(utils.NewPRG(seedOf(1)))
		seen := map[uint64]bool{}
		for i := 0; i < 20000; i++ {
			x, y := g.Uint64(), h.Uint64()
			if x != y {
				r.Failf("buffered generators with the same seed differ at read %d", i)
			}
			if seen[x] {
				r.Failf("buffered generator repeats %x at read %d", x, i)
			}
			seen[x] = true
		}
		r.Trans(40000)
		r.Trace()
	})
	// builders
	for bi := range builders() {
		bi := bi
		all := builders()
		b := all[bi]
		r.Case("twice: "+b.name, func() {
			x := b.f(3)
			// something else in between, also with the memory recycled
			junk := make([][]byte, 0)
			for i := 0; i < 8; i++ {
				j := make([]byte, 1<<uint(6+i))
				for k := range j {
					j[k] = 0xff
				}
				junk = append(junk, j)
			}
			_ = junk
			y3 := all[(bi+5)%len(all)].f(9)
			_ = y3
			detrand.Seed(uint64(bi) + 100)
			if y := b.f(3); !eq(x, y) {
				r.Failf("%s: built twice from the same seed, different results", b.name)
			}
			r.State(b.name, x)
			r.Trans(2)
			if b.seeded {
				// (a database of one bit differs for some seed)
				same := true
				for s := byte(4); same && s < 44; s++ {
					y := b.f(s)
					same = eq(x, y)
					r.State(b.name, y)
					r.Trans(1)
				}
				if same {
					r.Failf("%s does not depend on the seed", b.name)
				}
			}
			r.Trace()
		})
	}
	for p, env := range [][]string{{"TZ=Asia/Tokyo", "GOMAXPROCS=1"}, {"TZ=America/New_York", "GOMAXPROCS=7", "GODEBUG=madvdontneed=1"}, {"TZ=UTC"}} {
		p, env := p, env
		r.Case(fmt.Sprint("another process ", p), func() {
			out, err := inProcess("replicas", p+11, env...)
			if err != nil {
				r.Failf("%v", err)
			}
			got := map[string]string{}
			for _, l := range strings.Split(string(out), "\n") {
				if i := strings.LastIndex(l, "="); i > 0 {
					got[l[:i]] = l[i+1:]
				}
			}
			for _, b := range builders() {
				x := hex.EncodeToString(b.f(3))
				r.Trans(2)
				r.State("process", p, b.name)
				if got[b.name] != x {
					r.Failf("%s differs between processes", b.name)
				}
			}
			r.Trace()
		})
	}
	// databases from different seeds are unrelated
	r.Case("unrelated databases", func() {
		m := map[string]string{}
		for s := byte(1); s < 6; s++ {
			windows(m, fmt.Sprint("bytes ", s), database.CreateRandomBytes(utils.NewPRG(seedOf(s)), 8*4000, 4, 10).Entries)
			r.State("unrelated", int(s))
		}
		r.Trace()
	})
	shapesC14(r)
	// field elements
	alpha := []byte{0x00, 0x01, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	words := func() [][]byte {
		var o [][]byte
		for x := 0; x < 4096; x++ {
			o = append(o, []byte{alpha[x&7], alpha[x>>3&7], alpha[x>>6&7], alpha[x>>9&7]})
		}
		return o
	}
	for n := 1; n <= 6; n++ {
		n := n
		r.Case(fmt.Sprintf("elements: vectors of length %d", n), func() {
			canon := func(what string, v []uint32) {
				for i, e := range v {
					if e >= field.ModP {
						r.Failf("%s: element %d is %d", what, i, e)
					}
				}
			}
			for wi, w := range words() {
				for pos := 0; pos < n; pos++ {
					if n > 3 && (wi+pos)%4 != 0 && w[1] != 0xff {
						continue
					}
					for _, fill := range []byte{0x00, 0xff, 0x55} {
						in := make([]byte, 4*n)
						for i := range in {
							in[i] = fill
						}
						copy(in[4*pos:], w)
						a, b := make([]uint32, n), make([]uint32, n)
						for i := range b {
							b[i] = 0xffffffff
						}
						field.BytesToElements(a, dup(in))
						detrand.Seed(uint64(wi))
						field.BytesToElements(b, append(dup(in), 0xff, 0x7f, 0xff))
						r.Trans(2)
						for i := range a {
							if a[i] != b[i] {
								r.Failf("bytes %x: element %d is %d or %d", in, i, a[i], b[i])
							}
						}
						canon(fmt.Sprintf("bytes %x", in), a)
						v := field.RandVectorWithPRG(n, detrand.Prefix(in, 5))
						u := field.RandVectorWithPRG(n, detrand.Prefix(in, 5))
						r.Trans(2)
						canon(fmt.Sprintf("random vector from %x", in), v)
						for i := range v {
							if u[i] != v[i] {
								r.Failf("random vector from %x is not a function of the source", in)
							}
						}
						if len(v) != n {
							r.Failf("random vector of length %d, not %d", len(v), n)
						}
						e, f := field.RandElementWithPRG(detrand.Prefix(in, 5)), field.RandElementWithPRG(detrand.Prefix(in, 5))
						canon(fmt.Sprintf("random element from %x", in), []uint32{e})
						if e != f {
							r.Failf("random element from %x is not a function of the source", in)
						}
						r.Trans(2)
					}
					r.State("elements", n, pos, w)
				}
			}
			r.Trace()
		})
	}
	r.Case("elements: system randomness", func() {
		seen := map[uint32]int{}
		for i := 0; i < 2000; i++ {
			e := field.RandElement()
			if e >= field.ModP {
				r.Failf("element %d", e)
			}
			seen[e]++
			if seen[e] > 2 {
				r.Failf("element %d is drawn again and again", e)
			}
			v := field.RandVector(3)
			if len(v) != 3 || v[0] >= field.ModP || v[1] >= field.ModP || v[2] >= field.ModP {
				r.Failf("vector %v", v)
			}
			for _, x := range v {
				seen[x]++
				if seen[x] > 2 {
					r.Failf("element %d is drawn again and again", x)
				}
			}
		}
		r.State("system")
		r.Trans(4000)
		r.Trace()
	})
	// the keys of the point functions have the same outputs on all servers
	r.Case("elements of evaluated keys", func() {
		for s := 0; s < 40; s++ {
			detrand.Seed(uint64(s))
			c := fss.ClientInitialize(c14Block)
			k := c.GenerateTreePF(bitsOf(uint64(s), 6), evalVec(s))
			for p := byte(0); p < 2; p++ {
				srv := fss.ServerInitialize(c14Block)
				for x := uint64(0); x < 64; x++ {
					out := make([]uint32, c14Block)
					srv.EvaluatePF(p, k[p], bitsOf(x, 6), out)
					out2 := make([]uint32, c14Block)
					fss.ServerInitialize(c14Block).EvaluatePF(p, k[p], bitsOf(x, 6), out2)
					r.Trans(2)
					for i := range out {
						if out[i] != out2[i] {
							r.Failf("evaluation %d of key %d at %d: %d or %d", i, s, x, out[i], out2[i])
						}
					}
				}
			}
			r.State("key elements", s)
		}
		r.Trace()
	})
}

// shapesC14: what the constructors make has the shape that was asked for, and no
// part of it repeats another.
func shapesC14(r *eng.R) {
	// (without the highest bits, which elements of the field may lack; at any
	// offset in bytes)
	repeats := func(what string, vs []uint32) {
		flat := make([]byte, 0, 4*len(vs))
		for _, v := range vs {
			flat = append(flat, byte(v>>24)&0x7f, byte(v>>16)&0x7f, byte(v>>8)&0x7f, byte(v)&0x7f)
		}
		for _, little := range []bool{false, true} {
			if little {
				for i := 0; i < len(flat); i += 4 {
					flat[i], flat[i+1], flat[i+2], flat[i+3] = flat[i+3], flat[i+2], flat[i+1], flat[i]
				}
			}
			m := map[string]int{}
			for i := 0; i+12 <= len(flat); i++ {
				w := string(flat[i : i+12])
				if p, ok := m[w]; ok {
					r.Failf("%s: bytes %d and %d on are the same", what, p, i)
				}
				m[w] = i
			}
		}
	}
	bit := func(what string, bits []byte) {
		m := map[string]int{}
		if len(bits) < 200 {
			return
		}
		ones := 0
		for i := range bits {
			if bits[i] > 1 {
				r.Failf("%s: entry %d is %d", what, i, bits[i])
			}
			ones += int(bits[i])
		}
		if ones*4 < len(bits) || ones*4 > 3*len(bits) {
			r.Failf("%s: %d ones of %d bits", what, ones, len(bits))
		}
		for i := 0; i+80 <= len(bits); i++ {
			w := string(bits[i : i+80])
			if p, ok := m[w]; ok {
				r.Failf("%s: bits %d and %d on are the same", what, p, i)
			}
			m[w] = i
		}
	}
	for _, rows := range []int{1, 2, 3, 7, 10, 64} {
		for _, cols := range []int{1, 2, 5, 31, 63, 64, 65, 100, 127, 128, 129, 200, 257, 300, 1030} {
			for _, bl := range []int{1, 2, 4, 16, 33} {
				if rows*cols*bl > 70000 && !r.Thorough {
					continue
				}
				rows, cols, bl := rows, cols, bl
				r.Case(fmt.Sprintf("shape %dx%d of %d", rows, cols, bl), func() {
					rnd := func() io.Reader { return utils.NewPRG(seedOf(byte(rows + cols))) }
					for _, merkle := range []bool{false, true} {
						if merkle && rows*cols > 3000 && !r.Thorough {
							continue
						}
						var db *database.Bytes
						what := fmt.Sprintf("bytes %dx%d of %d, merkle %v", rows, cols, bl, merkle)
						if merkle {
							db = database.CreateRandomMerkle(rnd(), 8*rows*cols*bl, rows, bl)
						} else {
							db = database.CreateRandomBytes(rnd(), 8*rows*cols*bl, rows, bl)
						}
						r.Trans(1)
						if db.NumRows != rows || db.NumColumns != cols || len(db.BlockLengths) != rows*cols {
							r.Failf("%s: it is %dx%d with %d blocks", what, db.NumRows, db.NumColumns, len(db.BlockLengths))
						}
						sum := 0
						for k, l := range db.BlockLengths {
							if l > db.BlockSize || l < bl {
								r.Failf("%s: block %d has %d bytes in blocks of %d", what, k, l, db.BlockSize)
							}
							sum += l
						}
						if sum != len(db.Entries) {
							r.Failf("%s: blocks of %d bytes, %d entries", what, sum, len(db.Entries))
						}
						if !merkle {
							if db.BlockSize != bl {
								r.Failf("%s: blocks of %d", what, db.BlockSize)
							}
							m := map[string]int{}
							for i := 0; i+8 <= len(db.Entries); i++ {
								w := string(db.Entries[i : i+8])
								if p, ok := m[w]; ok {
									r.Failf("%s: bytes %d and %d on are the same", what, p, i)
								}
								m[w] = i
							}
						}
						r.State("shape", rows, cols, bl, merkle)
					}
					// random elements
					what := fmt.Sprintf("elements %dx%d of %d", rows, cols, bl)
					db, err := database.CreateRandomBitsDB(rnd(), 32*rows*cols*bl, rows, bl)
					r.Trans(1)
					if err != nil {
						r.Failf("%s: %v", what, err)
					}
					if db.NumRows != rows || db.NumColumns != cols || db.BlockSize != bl || len(db.Entries) != db.NumRows*db.NumColumns*bl {
						r.Failf("%s: it is %dx%d of %d with %d elements", what, db.NumRows, db.NumColumns, db.BlockSize, len(db.Entries))
					}
					repeats(what, db.Entries)
					if bl == 1 {
						w := fmt.Sprintf("matrix of bits %dx%d", rows, cols)
						d := database.CreateRandomBinaryLWE(rnd(), rows, cols)
						r.Trans(2)
						if d.NumRows != rows || d.NumColumns != cols || d.Matrix.Len() != rows*cols {
							r.Failf("%s: it is %dx%d", w, d.NumRows, d.NumColumns)
						}
						bit(w, getBytes(d.Matrix, rows, cols))
						if rows*cols <= 1000 {
							d := database.CreateRandomBinaryLWE128(rnd(), rows, cols)
							if d.NumRows != rows || d.NumColumns != cols || d.Matrix.Len() != rows*cols {
								r.Failf("%s, 128: it is %dx%d", w, d.NumRows, d.NumColumns)
							}
							bit(w+", 128", getBytes(d.Matrix, rows, cols))
						}
						mx := matrix.NewRandom(rnd(), rows, cols)
						var vs []uint32
						for i := 0; i < rows; i++ {
							for j := 0; j < cols; j++ {
								vs = append(vs, mx.Get(i, j))
							}
						}
						repeats("matrix", vs)
						m8 := matrix.NewRandom128(rnd(), rows, cols)
						vs = nil
						for i := 0; i < rows; i++ {
							for j := 0; j < cols; j++ {
								e := m8.Get(i, j)
								vs = append(vs, uint32(e.Lo), uint32(e.Lo>>32), uint32(e.Hi), uint32(e.Hi>>32))
							}
						}
						repeats("matrix of 128 bits", vs)
						repeats("random vector", field.RandVectorWithPRG(rows*cols, rnd()))
					}
					r.State("elements", rows, cols, bl)
					r.Trace()
				})
			}
		}
	}
	// shapes for numbers of blocks
	r.Case("shapes for all numbers of blocks", func() {
		try := func(n, s int) {
			for _, square := range []bool{false, true} {
				want := [2]int{1, n}
				if n < 1 {
					want[1] = 1
				}
				if square {
					want = [2]int{s, s}
				}
				rows, cols := database.CalculateNumRowsAndColumns(n, square)
				if rows != want[0] || cols != want[1] {
					r.Failf("%d blocks, square %v: %dx%d instead of %dx%d", n, square, rows, cols, want[0], want[1])
				}
				r.Trans(1)
			}
			if n%1000 < 4 {
				r.State("blocks", n)
			}
		}
		try(0, 1)
		s := 1
		for n := 1; n <= 300000; n++ {
			if s*s < n {
				s++
			}
			try(n, s)
		}
		for s := 548; s <= 1<<15; s++ {
			try(s*s-1, s)
			try(s*s, s)
			try(s*s+1, s+1)
		}
		r.Trace()
	})
	for _, n := range []int{10, 100, 250, 256, 257, 300, 1000} {
		n := n
		r.Case(fmt.Sprintf("%d random keys", n), func() {
			db, err := database.CreateRandomKeysDB(utils.NewPRG(seedOf(1)), n)
			if err != nil {
				r.Failf("%v", err)
			}
			if len(db.KeysInfo) != n {
				r.Failf("%d keys instead of %d", len(db.KeysInfo), n)
			}
			r.Trans(1)
			r.State("keys", n)
			r.Trace()
		})
	}
	for _, n := range []int{100, 256, 257, 400, 1000, 70000} {
		for _, reb := range []bool{false, true} {
			n, reb := n, reb
			if n > 1000 && !reb {
				continue
			}
			r.Case(fmt.Sprintf("elliptic %d %v", n, reb), func() {
				db := database.CreateRandomEllipticWithDigest(utils.NewPRG(seedOf(1)), n, group.Ristretto255, reb)
				if rows, cols := shapeFor(n, reb); db.NumRows != rows || db.NumColumns != cols {
					r.Failf("%d bits, square %v: it is %dx%d", n, reb, db.NumRows, db.NumColumns)
				}
				if len(db.Entries) != db.NumRows*db.NumColumns || len(db.Entries) < n {
					r.Failf("%d entries for %dx%d, %d asked for", len(db.Entries), db.NumRows, db.NumColumns, n)
				}
				bit(fmt.Sprint("elliptic ", n), db.Entries)
				r.Trans(1)
				r.State("elliptic", n, reb)
				r.Trace()
			})
		}
	}
}

// shapeFor is the shape for n blocks: one row, or the smallest square.
func shapeFor(n int, square bool) (int, int) {
	if n < 1 {
		n = 1
	}
	if !square {
		return 1, n
	}
	s := 1
	for s*s < n {
		s++
	}
	return s, s
}

func evalVec(s int) []uint32 {
	o := make([]uint32, c14Block)
	for i := range o {
		o[i] = uint32(s*7+i*13+1) % field.ModP
	}
	return o
}

const c14Block = 5
