package main

import (
	"crypto"
	"fmt"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:          "C08",
		Bounds:      "groups P-256, P-384, P-521 and ristretto255: all bit matrices of 1..5 (thorough 1..8) x 1 row and of 2x2, boundary patterns of 3x3 (thorough all) and larger shapes up to 17 rows, all indices, histories of queries; adversarial answers: computed on every other matrix, every row replaced by the identity, the digest, a query element, sums and negations of them, another row, replayed answers, wrong numbers and encodings of elements",
		Assumptions: []string{"the discrete logarithm problem is hard in the groups: the adversary's answers are combinations of the elements it sees"},
		Run:         runC08,
	})
}

// ellipticDB builds a database of any shape with the exported encoders.
func ellipticDB(rows, cols int, bitsOfDB []byte, g group.Group) (*database.Elliptic, error) {
	one, err := g.HashToElement([]byte{1}, nil).MarshalBinaryCompress()
	if err != nil {
		return nil, err
	}
	size := len(one)
	var digs []group.Element
	for i := 0; i < rows; i++ {
		d := g.Identity()
		for j := 0; j < cols; j++ {
			if bitsOfDB[i*cols+j] == 1 {
				d.Add(d, database.HashIndexToGroup(uint64(j), g))
			}
		}
		digs = append(digs, d)
	}
	sub, err := database.MarshalGroupElements(digs, size)
	if err != nil {
		return nil, err
	}
	h := crypto.BLAKE2b_256.New()
	h.Write(sub)
	return &database.Elliptic{Entries: dup(bitsOfDB), Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1,
		Auth: &database.Auth{Digest: h.Sum(nil), SubDigests: sub, Group: g, Hash: crypto.BLAKE2b_256, ElementSize: size}}}, nil
}

type fraction struct {
	name string
	s    group.Scalar
}

var fractionsOf = map[group.Group][]fraction{}

// fractions returns the scalars ±a/b with small a and b, apart from ±1 and 0.
func fractions(g group.Group) []fraction {
	if f, ok := fractionsOf[g]; ok {
		return f
	}
	num := func(n uint64) group.Scalar {
		s := g.NewScalar()
		one := g.NewScalar()
		one.SetUint64(1)
		for ; n > 0; n-- {
			s.Add(s, one)
		}
		return s
	}
	var out []fraction
	most := uint64(4)
	if g == group.P384 || g == group.P521 {
		most = 2
	}
	for b := uint64(1); b <= most; b++ {
		inv := g.NewScalar()
		inv.Inv(num(b))
		for a := uint64(1); a <= most; a++ {
			if a == b || a%2 == 0 && b%2 == 0 {
				continue
			}
			s := g.NewScalar()
			s.Mul(num(a), inv)
			n := g.NewScalar()
			n.Neg(s)
			out = append(out, fraction{fmt.Sprintf("%d/%d", a, b), s}, fraction{fmt.Sprintf("-%d/%d", a, b), n})
		}
	}
	fractionsOf[g] = out
	return out
}

func matrixBits(x, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> uint(i) & 1)
	}
	return b
}

func runC08(r *eng.R) {
	groups := []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"P384", group.P384}, {"P521", group.P521}, {"ristretto", group.Ristretto255}}
	// ask queries the index, checks the honest answer and returns it
	ask := func(c *client.DH, s *server.DH, db *database.Elliptic, ix int) ([]byte, []byte) {
		q, err := c.QueryBytes(ix)
		if err != nil {
			r.Failf("query %d: %v", ix, err)
		}
		a, err := s.AnswerBytes(q)
		if err != nil {
			r.Failf("answer %d: %v", ix, err)
		}
		v, err := c.ReconstructBytes(dup(a))
		r.Trans(3)
		if err != nil {
			r.Failf("honest answer for index %d of %v (%dx%d): %v", ix, db.Entries, db.NumRows, db.NumColumns, err)
		}
		if b, ok := bitOf(v); !ok || b != db.Entries[ix] {
			r.Failf("index %d of %v (%dx%d): got %v", ix, db.Entries, db.NumRows, db.NumColumns, v)
		}
		r.Trace()
		r.Outcome(fmt.Sprintf("honest%d", db.Entries[ix]))
		return q, a
	}
	judge := func(c *client.DH, db *database.Elliptic, ix int, what string, a []byte) {
		v, err := c.ReconstructBytes(a)
		r.Trans(1)
		if err != nil {
			r.Outcome("reject")
			return
		}
		r.Outcome("accept")
		if b, ok := bitOf(v); !ok || b != db.Entries[ix] {
			r.Failf("index %d of %v (%dx%d): lie %q makes the client return %v", ix, db.Entries, db.NumRows, db.NumColumns, what, v)
		}
		r.Trace()
	}
	lies := func(c *client.DH, s *server.DH, db *database.Elliptic, ix int, q, a []byte, prev []byte, full bool) {
		g, size := db.Group, db.ElementSize
		els, err := database.UnmarshalGroupElements(a, g, size)
		if err != nil {
			r.Failf("%v", err)
		}
		qe, err := database.UnmarshalGroupElements(q, g, size)
		if err != nil {
			r.Failf("%v", err)
		}
		dig, err := database.UnmarshalGroupElements(db.SubDigests, g, size)
		if err != nil {
			r.Failf("%v", err)
		}
		enc := func(e []group.Element) []byte {
			b, err := database.MarshalGroupElements(e, size)
			if err != nil {
				r.Failf("%v", err)
			}
			return b
		}
		with := func(i int, e group.Element) []byte {
			x := append([]group.Element{}, els...)
			x[i] = e
			return enc(x)
		}
		known := []group.Element{g.Identity(), g.Generator()}
		names := []string{"identity", "generator"}
		for j := range qe {
			if full || j == 0 || j == ix%db.NumColumns {
				known = append(known, qe[j], database.HashIndexToGroup(uint64(j), g))
				names = append(names, fmt.Sprint("query element ", j), fmt.Sprint("base element ", j))
			}
		}
		for j := range dig {
			if row := ix / db.NumColumns; len(dig) > 4 && j != row && j != row+1 && j != len(dig)-1 {
				continue
			}
			known = append(known, dig[j], els[j])
			names = append(names, fmt.Sprint("digest ", j), fmt.Sprint("answer ", j))
		}
		for i := range els {
			// of large databases: the row of the bit, its successor and the last one
			if row := ix / db.NumColumns; len(els) > 4 && i != row && i != row+1 && i != len(els)-1 {
				continue
			}
			for k := range known {
				judge(c, db, ix, fmt.Sprintf("row %d: %s", i, names[k]), with(i, known[k]))
				judge(c, db, ix, fmt.Sprintf("row %d: minus %s", i, names[k]), with(i, g.NewElement().Neg(known[k])))
				judge(c, db, ix, fmt.Sprintf("row %d: plus %s", i, names[k]), with(i, g.NewElement().Add(els[i], known[k])))
				judge(c, db, ix, fmt.Sprintf("row %d: less %s", i, names[k]), with(i, g.NewElement().Add(els[i], g.NewElement().Neg(known[k]))))
			}
			// multiples of the elements of the query by small fractions and their sums
			if j := ix % db.NumColumns; i == ix/db.NumColumns {
				for _, f := range fractions(g) {
					m := g.NewElement().Mul(qe[j], f.s)
					judge(c, db, ix, fmt.Sprintf("row %d: plus %s query element %d", i, f.name, j), with(i, g.NewElement().Add(els[i], m)))
					judge(c, db, ix, fmt.Sprintf("row %d: %s query element %d", i, f.name, j), with(i, m))
					judge(c, db, ix, fmt.Sprintf("row %d: %s times itself", i, f.name), with(i, g.NewElement().Mul(els[i], f.s)))
					m = g.NewElement().Mul(database.HashIndexToGroup(uint64(j), g), f.s)
					judge(c, db, ix, fmt.Sprintf("row %d: plus %s base element %d", i, f.name, j), with(i, g.NewElement().Add(els[i], m)))
				}
			}
			judge(c, db, ix, fmt.Sprintf("row %d doubled", i), with(i, g.NewElement().Dbl(els[i])))
			judge(c, db, ix, fmt.Sprintf("row %d negated", i), with(i, g.NewElement().Neg(els[i])))
			for j := range els {
				x := append([]group.Element{}, els...)
				x[i], x[j] = x[j], x[i]
				judge(c, db, ix, fmt.Sprintf("rows %d and %d swapped", i, j), enc(x))
			}
		}
		judge(c, db, ix, "all identity", make([]byte, size*len(els)))
		judge(c, db, ix, "digests", db.SubDigests)
		judge(c, db, ix, "query", q)
		judge(c, db, ix, "former answer", prev)
		for n := 0; n <= len(els)+2; n++ {
			x := append([]group.Element{}, els...)
			for len(x) < n {
				x = append(x, els[0])
			}
			judge(c, db, ix, fmt.Sprintf("%d elements", n), enc(x[:n]))
		}
		for _, n := range []int{1, size - 1, size + 1, len(a) - 1, len(a) + 1, 2*len(a) - 1} {
			judge(c, db, ix, fmt.Sprintf("%d bytes", n), padded(a[:minInt(n, len(a))], n))
		}
		for i := 0; i < len(a); i++ {
			if !full && (i%size > 1 && i%size < size-1 || i/size > 3) {
				continue
			}
			for _, d := range []byte{1, 0x80, 0xff} {
				x := dup(a)
				x[i] ^= d
				judge(c, db, ix, fmt.Sprintf("byte %d changed by %x", i, d), x)
			}
		}
		// still accepted
		v, err := c.ReconstructBytes(dup(a))
		if b, ok := bitOf(v); err != nil || !ok || b != db.Entries[ix] {
			r.Failf("index %d: honest answer after the lies: %v %v", ix, v, err)
		}
	}

	// explore: one database, all indices, other matrices
	explore := func(g group.Group, rows, cols int, data []byte, others [][]byte, seed uint64, adv bool, full bool, indices []int) {
		tape := detrand.Seed(seed)
		db, err := ellipticDB(rows, cols, data, g)
		if err != nil {
			r.Failf("%v", err)
		}
		c := client.NewDH(tape, &db.Info)
		s := server.NewDH(db)
		prev := []byte{}
		var evil []*server.DH
		if adv {
			for _, o := range others {
				odb, err := ellipticDB(rows, cols, o, g)
				if err != nil {
					r.Failf("%v", err)
				}
				evil = append(evil, server.NewDH(odb))
			}
		}
		for _, ix := range indices {
			q, a := ask(c, s, db, ix)
			r.State("db", rows, cols, data, ix)
			for k := range evil {
				ea, err := evil[k].AnswerBytes(q)
				if err != nil {
					r.Failf("%v", err)
				}
				r.Trans(1)
				judge(c, db, ix, fmt.Sprintf("answer on %v", others[k]), ea)
				r.State("other", rows, cols, data, others[k], ix)
			}
			if adv && (len(indices) <= 9 || ix == 0 || ix == len(indices)/2 || ix == len(indices)-1) {
				lies(c, s, db, ix, q, a, prev, full)
			}
			prev = a
		}
	}
	allOf := func(n int) [][]byte {
		var o [][]byte
		for x := 0; x < 1<<uint(n); x++ {
			o = append(o, matrixBits(x, n))
		}
		return o
	}
	type shape struct{ rows, cols int }
	for gi := range groups {
		g := groups[gi].g
		name := groups[gi].name
		shapes := []shape{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}}
		if gi == 0 || gi == 3 || r.Thorough {
			shapes = append(shapes, shape{1, 4}, shape{2, 3}, shape{3, 2}, shape{1, 5}, shape{5, 1})
		}
		if (gi == 0 || gi == 3) && r.Thorough {
			shapes = append(shapes, shape{1, 8}, shape{8, 1}, shape{3, 3}, shape{2, 4}, shape{4, 2})
		}
		for _, sh := range shapes {
			n := sh.rows * sh.cols
			all := allOf(n)
			for x := range all {
				g, sh, x := g, sh, x
				r.Case(fmt.Sprintf("%s %dx%d matrix %v", name, sh.rows, sh.cols, all[x]), func() {
					full := n <= 4 && (gi == 0 || gi == 3)
					explore(g, sh.rows, sh.cols, all[x], all, uint64(x*100+n)+r.Seed<<32, true, full, upTo(n))
				})
			}
		}
		// larger shapes, boundary patterns
		big := []shape{{3, 3}, {4, 4}, {1, 9}, {9, 1}, {8, 2}, {17, 1}, {7, 3}}
		if gi == 1 || gi == 2 {
			big = big[:2]
		}
		for _, sh := range big {
			n := sh.rows * sh.cols
			for pat := 0; pat < 6; pat++ {
				g, sh, pat := g, sh, pat
				r.Case(fmt.Sprintf("%s %dx%d pattern %d", name, sh.rows, sh.cols, pat), func() {
					data := make([]byte, n)
					for i := range data {
						switch pat {
						case 1:
							data[i] = 1
						case 2:
							data[i] = byte(i & 1)
						case 3:
							data[i] = byte((i / sh.cols) & 1)
						case 4:
							data[i] = byte((i*i + i/3) & 1)
						case 5:
							if i == n-1 {
								data[i] = 1
							}
						}
					}
					var others [][]byte
					for i := 0; i < n; i++ {
						o := dup(data)
						o[i] ^= 1
						others = append(others, o)
					}
					explore(g, sh.rows, sh.cols, data, others, uint64(pat*1000+n), pat%2 == 0 || r.Thorough, false, upTo(n))
				})
			}
		}
		// the constructor of random databases
		for _, n := range []int{1, 2, 3, 4, 7, 9, 10, 16, 17, 25, 64, 65, 81, 100} {
			for _, reb := range []bool{false, true} {
				g, n, reb := g, n, reb
				if gi != 0 && gi != 3 && n > 10 {
					continue
				}
				r.Case(fmt.Sprintf("%s random %d rebalanced=%v", name, n, reb), func() {
					tape := detrand.Seed(uint64(n))
					db := database.CreateRandomEllipticWithDigest(tape, n, g, reb)
					if len(db.Entries) != db.NumRows*db.NumColumns || len(db.Entries) < n {
						r.Failf("%d entries for %dx%d", len(db.Entries), db.NumRows, db.NumColumns)
					}
					for _, b := range db.Entries {
						if b > 1 {
							r.Failf("entry %d is not a bit", b)
						}
					}
					c := client.NewDH(tape, &db.Info)
					s := server.NewDH(db)
					prev := []byte{}
					for ix := range db.Entries {
						if ix > 10 && ix%3 != 0 && ix < len(db.Entries)-2 && !r.Thorough {
							continue
						}
						q, a := ask(c, s, db, ix)
						r.State("rnd", n, ix, reb)
						if ix == 0 || ix == len(db.Entries)-1 {
							if db.NumRows <= 5 {
								lies(c, s, db, ix, q, a, prev, false)
							}
						}
						prev = a
					}
				})
			}
		}
	}
}
