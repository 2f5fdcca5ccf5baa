package main

import (
	"encoding/binary"
	"fmt"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID: "C02",
		Bounds: "authenticated databases of 1..9 blocks (thorough 1..17) in 1..3 rows, with all repetition patterns up to 5 blocks; every index; 2..4 servers, each of them lying; " +
			"every other block of the database, all relabelled, truncated, extended and shifted proofs, inner nodes as leaves, every byte of data and proof changed, answers of other queries, wrong lengths and numbers of answers",
		Assumptions: []string{"BLAKE3 is collision resistant: forgeries are enumerated from a catalogue, not searched for"},
		Run:         runC02,
	})
}

// fixedReader serves the given bytes first.
type merkleDB struct {
	db     *database.Bytes
	data   [][]byte // data of the blocks
	stored [][]byte // blocks with their proofs, as stored
}

func mkMerkle(rows, bl int, data [][]byte) *merkleDB {
	var flat []byte
	for _, d := range data {
		flat = append(flat, d...)
	}
	db := database.CreateRandomMerkle(detrand.Prefix(flat, 1), len(data)*bl*8, rows, bl)
	m := &merkleDB{db: db, data: data}
	pos := 0
	for k := range data {
		l := db.BlockLengths[k]
		m.stored = append(m.stored, db.Entries[pos:pos+l])
		pos += l
	}
	return m
}

// partitions enumerates the restricted growth strings of length n.
func partitions(n int, f func(p []int)) {
	p := make([]int, n)
	var rec func(i, max int)
	rec = func(i, max int) {
		if i == n {
			f(p)
			return
		}
		for v := 0; v <= max+1; v++ {
			p[i] = v
			m := max
			if v > max {
				m = v
			}
			rec(i+1, m)
		}
	}
	if n == 0 {
		f(p)
		return
	}
	p[0] = 0
	rec(1, 0)
}

func blockData(sym, bl int) []byte {
	b := make([]byte, bl)
	for i := range b {
		b[i] = byte(sym*37 + i*11 + 1)
	}
	// symbols that end in zeros, or in what looks like padding
	switch sym % 4 {
	case 1:
		b[bl-1] = 0
	case 2:
		b[bl-1] = 0x80
	case 3:
		if bl > 1 {
			b[bl-1], b[bl-2] = 0, 0x80
		}
	}
	return b
}

type attack struct {
	name  string
	block []byte // what the malicious servers make the client see as the stored block
}

func le32(v uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, v)
	return b
}

func cat(p ...[]byte) []byte {
	var o []byte
	for _, x := range p {
		o = append(o, x...)
	}
	return o
}

// forgeries returns blocks to present instead of block ix.
func forgeries(m *merkleDB, ix int, everyByte bool) []attack {
	var out []attack
	bs, pl := m.db.BlockSize, m.db.ProofLen
	add := func(name string, parts ...[]byte) {
		b := cat(parts...)
		if len(b) > bs {
			b = b[:bs]
		}
		out = append(out, attack{name, padded(b, bs)})
	}
	split := func(k int) (data, proof []byte) {
		s := m.stored[k]
		d := s[:len(s)-1-pl]
		return d, s[len(s)-1-pl : len(s)-1]
	}
	sig := []byte{0x80}
	data, proof := split(ix)
	n := len(m.data)
	depth := (pl - 8) / 32
	hash := func(p []byte, h int) []byte { return p[4+32*h : 4+32*(h+1)] }
	add("zeros")
	add("signal only", sig)
	add("proof only", proof, sig)
	for k := 0; k < n; k++ {
		dk, pk := split(k)
		add(fmt.Sprintf("block %d", k), m.stored[k])
		add(fmt.Sprintf("data %d own proof", k), dk, proof, sig)
		add(fmt.Sprintf("own data proof %d", k), data, pk, sig)
		// proof of k with the index of ix
		add(fmt.Sprintf("block %d relabelled", k), dk, pk[:pl-4], proof[pl-4:], sig)
		add(fmt.Sprintf("block %d relabelled high", k), dk, pk[:pl-4], le32(uint32(ix)+1<<uint(depth)), sig)
		// data of k, hashes of ix, index of k
		add(fmt.Sprintf("data %d hashes own index %d", k, k), dk, proof[:pl-4], pk[pl-4:], sig)
		// the first hash replaced by the other's
		for h := 0; h < depth; h++ {
			p := dup(pk)
			copy(hash(p, h), hash(proof, h))
			copy(p[pl-4:], proof[pl-4:])
			add(fmt.Sprintf("block %d with hash %d of own proof", k, h), dk, p, sig)
		}
	}
	// indices
	for _, d := range []uint32{1, 2, 1 << 31, 1 << 30, 1 << 16, 1 << 8, ^uint32(0), uint32(n), 1 << uint(depth), 2 << uint(depth)} {
		p := dup(proof)
		copy(p[pl-4:], le32(uint32(ix)+d))
		add(fmt.Sprintf("index+%d", d), data, p, sig)
		add(fmt.Sprintf("other data index+%d", d), cat(data[:len(data)-1], []byte{data[len(data)-1] ^ 1}), p, sig)
	}
	// numbers of hashes
	for _, nh := range []uint32{0, 1, 2, 3, 4, 5, uint32(depth) + 1, uint32(depth) + 2, uint32(depth) - 1, 1 << 27, 1 << 29, 1 << 30, 1 << 31, 0x08000000, 0xffffffff} {
		p := dup(proof)
		copy(p, le32(nh))
		add(fmt.Sprintf("hashes=%d", nh), data, p, sig)
		d := dup(data)
		d[0] ^= 1
		add(fmt.Sprintf("other data hashes=%d", nh), d, p, sig)
	}
	// shorter and longer proofs of the right form
	for h := 0; h < depth; h++ {
		p := cat(le32(uint32(depth-1)), proof[4:4+32*h], proof[4+32*(h+1):])
		add(fmt.Sprintf("without hash %d", h), data, p, sig)
		p2 := cat(le32(uint32(depth)), proof[4:4+32*h], proof[4+32*(h+1):pl-4], make([]byte, 32), proof[pl-4:])
		add(fmt.Sprintf("hash %d moved", h), data, p2, sig)
		if h+1 < depth {
			p3 := dup(proof)
			copy(hash(p3, h), hash(proof, h+1))
			copy(hash(p3, h+1), hash(proof, h))
			add(fmt.Sprintf("hashes %d,%d swapped", h, h+1), data, p3, sig)
		}
	}
	add("proof extended", data, le32(uint32(depth+1)), proof[4:pl-4], make([]byte, 32), proof[pl-4:], sig)
	// inner nodes as leaves: the node above the leaf is H(left || right), a leaf
	// H(data || index): data = left || right[:28], index = right[28:]
	for k := 0; k < n; k++ {
		_, pk := split(k)
		for h := 0; h+1 <= depth; h++ {
			sib := hash(pk, h)
			own := m.nodeOf(k, h)
			l, rr := own, sib
			if (k>>uint(h))&1 == 1 {
				l, rr = sib, own
			}
			d := cat(l, rr[:28])
			rest := pk[4+32*(h+1) : pl-4]
			idx := rr[28:]
			add(fmt.Sprintf("node above %d at %d", k, h), d, le32(uint32(depth-h-1)), rest, idx, sig)
			add(fmt.Sprintf("node above %d at %d, own index", k, h), d, le32(uint32(depth-h-1)), rest, le32(uint32(ix)), sig)
			// fill to the length of a proof
			fill := make([]byte, pl-8-len(rest))
			add(fmt.Sprintf("node above %d at %d, filled", k, h), d, le32(uint32(depth-h-1)), rest, fill, idx, sig)
			add(fmt.Sprintf("node above %d at %d, filled, own index", k, h), d, le32(uint32(depth-h-1)), rest, fill, le32(uint32(ix)), sig)
			add(fmt.Sprintf("node above %d at %d, filled before", k, h), d, le32(uint32(depth-h-1)), fill, rest, le32(uint32(ix)), sig)
		}
	}
	// data cut, extended, shifted into the proof
	for _, c := range []int{1, 2, 4, 28, 32} {
		if c <= len(data) {
			add(fmt.Sprintf("data cut by %d", c), data[:len(data)-c], proof, sig)
			add(fmt.Sprintf("data cut by %d at the beginning", c), data[c:], proof, sig)
		}
		add(fmt.Sprintf("data extended by %d zeros", c), data, make([]byte, c), proof, sig)
		add(fmt.Sprintf("data after %d zeros", c), make([]byte, c), data, proof, sig)
		if c < pl {
			add(fmt.Sprintf("proof cut by %d", c), data, proof[:pl-c], sig)
			add(fmt.Sprintf("proof cut by %d at the beginning", c), data, proof[c:], sig)
		}
	}
	add("second signal", data, proof, sig, sig)
	add("no signal", data, proof)
	add("zero and signal", data, proof, []byte{0}, sig)
	add("other signal", data, proof, []byte{0x81})
	if everyByte {
		s := m.stored[ix]
		for i := range s {
			for _, x := range []byte{1, 0x80, 0xff} {
				b := dup(s)
				b[i] ^= x
				add(fmt.Sprintf("byte %d ^ %#x", i, x), b)
			}
		}
	}
	return out
}

// nodeOf returns the node at height h on the path of leaf k, recomputed from the
// proofs of its neighbours.
func (m *merkleDB) nodeOf(k, h int) []byte {
	pl := m.db.ProofLen
	// the sibling's proof contains it, if the sibling subtree has a stored leaf
	for j := range m.data {
		if (j >> uint(h)) == (k>>uint(h))^1 {
			s := m.stored[j]
			p := s[len(s)-1-pl : len(s)-1]
			return p[4+32*h : 4+32*(h+1)]
		}
	}
	return make([]byte, 32)
}

func runC02(r *eng.R) {
	sum := func(as [][]byte) []byte {
		o := make([]byte, len(as[0]))
		for _, a := range as {
			for i := range a {
				o[i] ^= a[i]
			}
		}
		return o
	}
	// one query, with all attacks
	explore := func(m *merkleDB, ix, ns int, everyByte bool, key string) {
		tape := detrand.Seed(uint64(ix*7+ns) + r.Seed<<32)
		c := client.NewPIR(tape, &m.db.Info)
		srv := pirServers(m.db, ns)
		in := make([]byte, 4)
		binary.BigEndian.PutUint32(in, uint32(ix))
		qs, err := c.QueryBytes(in, ns)
		if err != nil {
			r.Failf("query: %v", err)
		}
		honest, err := answersOf(srv, qs)
		if err != nil {
			r.Failf("answer: %v", err)
		}
		want := m.data[ix]
		judge := func(name string, as [][]byte, mustAccept bool) {
			res, err := c.ReconstructBytes(as)
			r.Trans(len(as) + 1)
			r.Trace()
			if err != nil {
				r.Outcome("reject")
				if mustAccept {
					r.Failf("%s index %d: honest answers rejected: %v", key, ix, err)
				}
				return
			}
			got, ok := res.([]byte)
			if !ok || !eq(got, want) {
				r.Failf("%s index %d, %d servers, attack %q: accepted %x instead of %x", key, ix, ns, name, got, want)
			}
			r.Outcome("accept")
		}
		judge("none", dups(honest), true)
		r.State(key, ix, ns)
		row := ix / m.db.NumColumns
		bs := m.db.BlockSize
		cur := sum(honest)[row*bs : (row+1)*bs]
		for ai, a := range forgeries(m, ix, everyByte) {
			liar := ai % ns
			as := dups(honest)
			for i := 0; i < bs; i++ {
				as[liar][row*bs+i] ^= cur[i] ^ a.block[i]
			}
			judge(a.name, as, false)
			r.State(key, ix, ns, a.block)
			// the same in all rows
			as = dups(honest)
			s := sum(honest)
			for rr := 0; rr < m.db.NumRows; rr++ {
				for i := 0; i < bs; i++ {
					as[liar][rr*bs+i] ^= s[rr*bs+i] ^ a.block[i]
				}
			}
			judge(a.name+" in all rows", as, false)
		}
		// answers to other queries of the same client, from one or all servers
		for j := range m.data {
			c2 := client.NewPIR(tape, &m.db.Info)
			binary.BigEndian.PutUint32(in, uint32(j))
			q2, _ := c2.QueryBytes(in, ns)
			a2, err := answersOf(srv, q2)
			if err != nil {
				r.Failf("answer: %v", err)
			}
			judge(fmt.Sprintf("all answers of a query for %d", j), a2, false)
			for l := 0; l < ns; l++ {
				as := dups(honest)
				as[l] = a2[l]
				judge(fmt.Sprintf("answer %d of a query for %d", l, j), as, false)
			}
			// the servers answer on a database with two blocks exchanged
			if j != ix {
				sw := *m.db
				sw.Entries = dup(m.db.Entries)
				L := len(m.stored[0])
				copy(sw.Entries[ix*L:], m.stored[j])
				copy(sw.Entries[j*L:], m.stored[ix])
				for l := 0; l <= ns; l++ {
					as := dups(honest)
					for k := range as {
						if l == ns || l == k {
							var s server.Server = server.NewPIR(&sw)
							if ns == 2 {
								s = server.NewPIRTwo(&sw)
							}
							as[k], _ = s.AnswerBytes(qs[k])
						}
					}
					judge(fmt.Sprintf("blocks %d,%d exchanged by server %d", ix, j, l), as, false)
				}
			}
		}
		// numbers and lengths of answers
		judge("no answer", nil, false)
		judge("first answer only", dups(honest)[:1], false)
		judge("an answer twice", append(dups(honest), dup(honest[0])), false)
		judge("an empty answer more", append(dups(honest), nil), false)
		for l := 0; l < ns; l++ {
			for _, d := range []int{-1, 1, -bs, bs} {
				as := dups(honest)
				n := len(as[l]) + d
				if n < 0 {
					continue
				}
				as[l] = padded(as[l][:minInt(n, len(as[l]))], n)
				judge(fmt.Sprintf("answer %d with %+d bytes", l, d), as, false)
			}
			as := dups(honest)
			as[l] = nil
			judge(fmt.Sprintf("answer %d empty", l), as, false)
		}
		// and the honest answers are still accepted
		judge("none (again)", dups(honest), true)
	}

	maxN := 9
	if r.Thorough {
		maxN = 17
	}
	// distinct and patterned blocks, several layouts
	for n := 1; n <= maxN; n++ {
		for rows := 1; rows <= 3; rows++ {
			if n%rows != 0 {
				continue
			}
			for _, bl := range []int{1, 5, 64} {
				if bl == 1 && n > 6 {
					continue
				}
				for ns := 2; ns <= 4; ns++ {
					for ix := 0; ix < n; ix++ {
						n, rows, bl, ns, ix := n, rows, bl, ns, ix
						r.Case(fmt.Sprintf("blocks=%d rows=%d len=%d servers=%d index=%d", n, rows, bl, ns, ix), func() {
							data := make([][]byte, n)
							for k := range data {
								data[k] = blockData(k, bl)
							}
							m := mkMerkle(rows, bl, data)
							explore(m, ix, ns, bl != 64 || ns == 2, fmt.Sprintf("%d/%d/%d", n, rows, bl))
						})
					}
				}
			}
		}
	}
	// all repetition patterns
	maxP := 5
	if r.Thorough {
		maxP = 7
	}
	for n := 2; n <= maxP; n++ {
		partitions(n, func(p []int) {
			p = append([]int(nil), p...)
			for _, ns := range []int{2, 3} {
				ns := ns
				r.Case(fmt.Sprintf("pattern %v servers=%d", p, ns), func() {
					data := make([][]byte, n)
					for k := range data {
						data[k] = blockData(p[k], 6)
					}
					m := mkMerkle(1, 6, data)
					for ix := range data {
						explore(m, ix, ns, false, fmt.Sprint(p))
					}
				})
			}
		})
	}
	// larger databases, honest only plus the exchange of blocks
	for _, n := range []int{31, 32, 33, 64, 65, 127, 128, 130} {
		for _, ns := range []int{2, 3} {
			n, ns := n, ns
			r.Case(fmt.Sprintf("large blocks=%d servers=%d", n, ns), func() {
				data := make([][]byte, n)
				for k := range data {
					data[k] = blockData(k%50, 9)
				}
				rows := 1
				if n%2 == 0 {
					rows = 2
				}
				m := mkMerkle(rows, 9, data)
				for _, ix := range []int{0, 1, n / 2, n - 2, n - 1} {
					explore(m, ix, ns, false, fmt.Sprintf("L%d", n))
				}
			})
		}
	} // very large databases: a server presents other honest blocks, among them all
	// those at a distance that is a sum or difference of two powers of two
	huge := []int{255, 256, 257, 300, 520, 1030, 65550}
	if r.Thorough {
		huge = append(huge, 2049, 4100, 32769, 131080)
	}
	for _, n := range huge {
		for part := 0; part < 4; part++ {
			n, part := n, part
			r.Case(fmt.Sprintf("very large blocks=%d part %d", n, part), func() {
				data := make([][]byte, n)
				for k := range data {
					data[k] = cat(le32(uint32(k)*2654435761), []byte{byte(k), byte(k >> 8), byte(k >> 16)})
				}
				rows := 1
				if n%2 == 0 && part%2 == 1 {
					rows = 2
				}
				m := mkMerkle(rows, 7, data)
				bs, pl := m.db.BlockSize, m.db.ProofLen
				ixs := [][]int{{0, 256}, {1, n - 1}, {n / 2, n - 2}, {n/2 + 3, 254}}[part]
				for _, ix := range ixs {
					if ix < 0 || ix >= n {
						continue
					}
					tape := detrand.Seed(uint64(n*8+part) + r.Seed<<32)
					c := client.NewPIR(tape, &m.db.Info)
					in := make([]byte, 4)
					binary.BigEndian.PutUint32(in, uint32(ix))
					qs, err := c.QueryBytes(in, 2)
					if err != nil {
						r.Failf("query: %v", err)
					}
					honest, err := answersOf(pirServers(m.db, 2), qs)
					if err != nil {
						r.Failf("answer: %v", err)
					}
					want := m.data[ix]
					res, err := c.ReconstructBytes(dups(honest))
					if got, ok := res.([]byte); err != nil || !ok || !eq(got, want) {
						r.Failf("%d blocks, index %d: honest answers give %x, %v", n, ix, res, err)
					}
					r.Trans(4)
					row := ix / m.db.NumColumns
					cur := sum(honest)[row*bs : (row+1)*bs]
					own := m.stored[ix]
					try := map[int]bool{}
					if n <= 2100 {
						for k := range data {
							try[k] = true
						}
					}
					for a := 0; 1<<uint(a) < n; a++ {
						for b := 0; b <= a; b++ {
							for _, d := range []int{1 << uint(a), 1<<uint(a) + 1<<uint(b), 1<<uint(a) - 1<<uint(b)} {
								try[ix+d], try[ix-d], try[ix^d] = true, true, true
							}
						}
					}
					for k := range data {
						if !try[k] || k == ix {
							continue
						}
						s := m.stored[k]
						dk := s[:len(s)-1-pl]
						pk := s[len(s)-1-pl : len(s)-1]
						po := own[len(own)-1-pl : len(own)-1]
						for v, b := range [][]byte{s, cat(dk, po, []byte{0x80}), cat(want, pk, []byte{0x80}), cat(dk, pk[:pl-4], po[pl-4:], []byte{0x80}), cat(dk, po[:pl-4], pk[pl-4:], []byte{0x80})} {
							b = padded(b, bs)
							as := dups(honest)
							for i := 0; i < bs; i++ {
								as[k%2][row*bs+i] ^= cur[i] ^ b[i]
							}
							res, err := c.ReconstructBytes(as)
							r.Trans(1)
							r.Trace()
							if err != nil {
								r.Outcome("reject")
								continue
							}
							r.Outcome("accept")
							if got, ok := res.([]byte); !ok || !eq(got, want) {
								r.Failf("%d blocks, index %d: a server presents block %d (variant %d) and the client accepts %x instead of %x", n, ix, k, v, res, want)
							}
						}
						r.State("very large", n, ix, k)
					}
				}
			})
		}
	}
}
