package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/cloudflare/circl/group"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:    "C12",
		MemGB: 4,
		Bounds: "all schemes (point queries with 2 and 3 servers, Merkle, complex with and without authentication, group elements, lattices of 32 and 128 bits, amplified), every server and every answer: " +
			"all words of up to 2 (thorough 3) symbols of an alphabet of 6 bytes, all truncations, extensions, every byte replaced by 7 values and every 32-bit field of the head by 14 values in both byte orders (long messages: head, tail and a stride), messages of the other schemes; complex queries decoded to all field mutations and pairs of them; 0 to n+1 answers; after every malformed query an honest one, answered as before",
		Assumptions: []string{"a wrong value of the 32-bit scheme counts when the same change is accepted again, at least twice in 64 fresh queries"},
		Run:         runC12,
	})
}

// system is a scheme with servers over one database.
type system struct {
	name  string
	n     int  // servers
	auth  bool // never returns a wrong value
	luck  bool // but for a small probability
	tries int  // number of items that are queried
	serve func(i int, q []byte) ([]byte, error)
	make  func(seed uint64) sysClient
	right func(k int, v interface{}) bool
}

type sysClient struct {
	query func(k int) ([][]byte, error)
	rec   func([][]byte) (interface{}, error)
}

func systemsC12(r *eng.R) []*system {
	var out []*system
	point := func(ns int) *system {
		db, blocks := bytesDB(2, 9, 3, lensOf(3, 18, 3), contentOf(1))
		ss := pirServers(db, ns)
		return &system{name: fmt.Sprintf("point%d", ns), n: ns, tries: 3,
			serve: func(i int, q []byte) ([]byte, error) { return ss[i].AnswerBytes(q) },
			make: func(seed uint64) sysClient {
				c := client.NewPIR(detrand.Seed(seed), &db.Info)
				return sysClient{func(k int) ([][]byte, error) { return c.QueryBytes(be32(k*7), ns) }, c.ReconstructBytes}
			},
			right: func(k int, v interface{}) bool {
				b, ok := v.([]byte)
				return ok && eq(b, padded(blocks[k*7], 3))
			}}
	}
	merkle := func(ns, blocks int) *system {
		var data [][]byte
		for k := 0; k < blocks; k++ {
			data = append(data, blockData(k%3, 2))
		}
		m := mkMerkle(1, 2, data)
		ss := pirServers(m.db, ns)
		return &system{name: fmt.Sprintf("merkle%d of %d", ns, blocks), n: ns, auth: true, tries: minInt(blocks, 3),
			serve: func(i int, q []byte) ([]byte, error) { return ss[i].AnswerBytes(q) },
			make: func(seed uint64) sysClient {
				c := client.NewPIR(detrand.Seed(seed), &m.db.Info)
				return sysClient{func(k int) ([][]byte, error) { return c.QueryBytes(be32(k), ns) }, c.ReconstructBytes}
			},
			right: func(k int, v interface{}) bool {
				b, ok := v.([]byte)
				return ok && eq(b, data[k])
			}}
	}
	out = append(out, point(2), point(3), merkle(2, 4), merkle(3, 1), merkle(3, 3))
	al := recAlphabet()
	recs := []keyRec{al[0], al[2], al[4], al[6], al[9], al[11]}
	qs := []*complexQuery{qEmail(al[0].email), qEnds("ch"), qAvg("ch"), qAnd("ch"), qAlgo("RSA"), qTime(2019)}
	for si := range fssSchemes {
		sch := fssSchemes[si]
		db := keysDB(recs)
		ss := sch.servers(db)
		out = append(out, &system{name: sch.name, n: 2, auth: sch.name == "complexVPIR", tries: len(qs),
			serve: func(i int, q []byte) ([]byte, error) { return ss[i].AnswerBytes(q) },
			make: func(seed uint64) sysClient {
				c := sch.client(detrand.Seed(seed), &db.Info)
				return sysClient{func(k int) ([][]byte, error) {
					in, err := qs[k].q.Encode()
					if err != nil {
						return nil, err
					}
					return c.QueryBytes(in, 2)
				}, c.ReconstructBytes}
			},
			right: func(k int, v interface{}) bool {
				want, err := qs[k].eval(recs)
				u, ok := v.(uint32)
				return err == nil && ok && u == want
			}})
	}
	single := func(name string, bits []byte, luck bool, answer func([]byte) ([]byte, error), mk func(seed uint64) latClient) *system {
		return &system{name: name, n: 1, auth: true, luck: luck, tries: minInt(len(bits), 2),
			serve: func(i int, q []byte) ([]byte, error) { return answer(q) },
			make: func(seed uint64) sysClient {
				c := mk(seed)
				return sysClient{func(k int) ([][]byte, error) {
					q, err := c.query(k)
					return [][]byte{q}, err
				}, func(a [][]byte) (interface{}, error) {
					return c.rec(a[0])
				}}
			},
			right: func(k int, v interface{}) bool { b, ok := bitOf(v); return ok && b == bits[k] }}
	}
	for _, g := range []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"ristretto", group.Ristretto255}, {"P521", group.P521}} {
		db, err := ellipticDB(2, 3, []byte{1, 0, 1, 0, 0, 0}, g.g)
		if err != nil {
			r.Failf("%v", err)
		}
		s := server.NewDH(db)
		out = append(out, single("dh "+g.name, db.Entries, false, s.AnswerBytes, func(seed uint64) latClient {
			c := client.NewDH(detrand.Seed(seed), &db.Info)
			return latClient{c.QueryBytes, c.ReconstructBytes}
		}))
	}
	for _, kind := range []string{"32", "128", "amp"} {
		l := newLattice(kind, 3, 2, []byte{1, 0, 0, 1, 1, 0}, 1)
		out = append(out, single("lwe "+kind, l.bits, true, l.answer, func(seed uint64) latClient { return l.client(detrand.Seed(seed)) }))
	}
	return out
}

func be32(k int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(k))
	return b
}

func sch(name string) bool { return strings.HasPrefix(name, "complex") }

type mutation struct {
	name string
	f    func([]byte) []byte
}

// mutations of a message of n bytes.
func mutations(n int, head int, r *eng.R) []mutation {
	var out []mutation
	add := func(name string, f func([]byte) []byte) { out = append(out, mutation{name, f}) }
	add("nil", func([]byte) []byte { return nil })
	al := []byte{0, 1, 0x7f, 0x80, 0xff, 3}
	var words func(w []byte, left int)
	words = func(w []byte, left int) {
		v := dup(w)
		add(fmt.Sprintf("word %x", v), func([]byte) []byte { return dup(v) })
		if left > 0 {
			for _, b := range al {
				words(append(dup(w), b), left-1)
			}
		}
	}
	d := 2
	if r.Thorough {
		d = 3
	}
	words([]byte{}, d)
	near := func(p int) bool {
		lim := 300
		if r.Thorough {
			lim = 3000
		}
		return p < lim || p >= n-40 || p%37 == 0
	}
	for l := 0; l < n; l++ {
		if near(l) {
			l := l
			add(fmt.Sprintf("first %d", l), func(b []byte) []byte { return b[:minInt(l, len(b))] })
			if l%5 == 1 {
				add(fmt.Sprintf("from %d", l), func(b []byte) []byte { return b[minInt(l, len(b)):] })
			}
		}
	}
	for _, l := range []int{1, 2, 3, 4, 8, 15, 16, 17, 32, 64, 1024, 100000} {
		for _, v := range []byte{0, 1, 0xff} {
			l, v := l, v
			add(fmt.Sprintf("%d more %d", l, v), func(b []byte) []byte { return append(b, bytes.Repeat([]byte{v}, l)...) })
			if l <= n {
				add(fmt.Sprintf("%d less %d first", l, v), func(b []byte) []byte {
					return append(bytes.Repeat([]byte{v}, l), b[:maxInt(0, len(b)-l)]...)
				})
			}
		}
	}
	add("twice", func(b []byte) []byte { return append(dup(b), b...) })
	for _, v := range []byte{0, 1, 0x80, 0xff} {
		v := v
		add(fmt.Sprintf("all %d", v), func(b []byte) []byte { return bytes.Repeat([]byte{v}, len(b)) })
	}
	for p := 0; p < n; p++ {
		if !near(p) {
			continue
		}
		p := p
		for vi, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			if p >= head && vi%2 == 1 && !r.Thorough {
				continue
			}
			v := v
			add(fmt.Sprintf("byte %d is %#x", p, v), func(b []byte) []byte { b[p] = v; return b })
		}
		add(fmt.Sprintf("byte %d flipped", p), func(b []byte) []byte { b[p] ^= 1; return b })
		add(fmt.Sprintf("byte %d plus one", p), func(b []byte) []byte { b[p]++; return b })
	}
	for p := 0; p+4 <= n && p < 40; p++ {
		for _, v := range []uint32{0, 1, 2, 3, 1 << 8, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 8, uint32(n - 4), uint32(n - 12), uint32(n)} {
			p, v := p, v
			add(fmt.Sprintf("field %d is %#x", p, v), func(b []byte) []byte { binary.BigEndian.PutUint32(b[p:], v); return b })
			add(fmt.Sprintf("little field %d is %#x", p, v), func(b []byte) []byte { binary.LittleEndian.PutUint32(b[p:], v); return b })
		}
	}
	// heads of matrices: other dimensions with the same number of elements (also
	// modulo 2^32)
	for p := 0; p+8 <= n && p <= 120; p += 4 {
		for t := 0; t < 10; t++ {
			p, t := p, t
			add(fmt.Sprintf("dimensions %d of the field %d", t, p), func(b []byte) []byte {
				rows, cols := binary.BigEndian.Uint32(b[p:]), binary.BigEndian.Uint32(b[p+4:])
				prod := rows * cols
				if rows == 0 || cols == 0 || rows > 1<<12 || cols > 1<<12 {
					return b
				}
				var pairs [][2]uint32
				for d := uint32(1); d <= prod && len(pairs) < 7; d++ {
					if prod%d == 0 && d != rows {
						pairs = append(pairs, [2]uint32{d, prod / d})
					}
				}
				for _, o := range []uint32{3, 7, 0xffffffff} {
					inv := uint32(1)
					for k := 0; k < 5; k++ {
						inv *= 2 - o*inv
					}
					pairs = append(pairs, [2]uint32{o, prod * inv})
				}
				if t >= len(pairs) {
					return b
				}
				binary.BigEndian.PutUint32(b[p:], pairs[t][0])
				binary.BigEndian.PutUint32(b[p+4:], pairs[t][1])
				return b
			})
		}
	}
	return out
}

func runC12(r *eng.R) {
	var sys []*system
	r.Case("honest", func() {
		for _, s := range systemsC12(r) {
			for k := 0; k < s.tries; k++ {
				c := s.make(uint64(k))
				q, err := c.query(k)
				if err != nil {
					r.Failf("%s: query: %v", s.name, err)
				}
				var as [][]byte
				for i := range q {
					a, err := s.serve(i, q[i])
					if err != nil {
						r.Failf("%s: %v", s.name, err)
					}
					as = append(as, a)
				}
				v, err := c.rec(as)
				if err != nil || !s.right(k, v) {
					r.Failf("%s: item %d: %v %v", s.name, k, v, err)
				}
			}
		}
	})
	names := []string{}
	sys = systemsC12(r)
	for _, s := range sys {
		names = append(names, s.name)
	}
	// honest queries of all schemes
	honestQ := map[string][][]byte{}
	for _, s := range sys {
		q, err := s.make(1).query(0)
		if err == nil {
			honestQ[s.name] = q
		}
	}
	const groups = 6
	for si := range sys {
		s := sys[si]
		// malformed queries
		for i := 0; i < s.n; i++ {
			for part := 0; part < groups; part++ {
				i, part := i, part
				r.Case(fmt.Sprintf("%s server %d queries %d", s.name, i, part), func() {
					for k := 0; k < s.tries; k++ {
						if k > 2 && !r.Thorough {
							continue
						}
						q, err := s.make(uint64(k)).query(k)
						if err != nil {
							r.Failf("%v", err)
						}
						want, err := s.serve(i, dup(q[i]))
						if err != nil {
							r.Failf("%v", err)
						}
						ms := mutations(len(q[i]), 60, r)
						for _, n := range names {
							for j := range honestQ[n] {
								v := honestQ[n][j]
								ms = append(ms, mutation{"query of " + n, func([]byte) []byte { return dup(v) }})
							}
						}
						for mi, m := range ms {
							if mi%groups != part {
								continue
							}
							bad := m.f(dup(q[i]))
							_, err := s.serve(i, bad)
							r.Trans(1)
							if err != nil {
								r.Outcome("error")
							} else {
								r.Outcome("answer")
							}
							got, err := s.serve(i, dup(q[i]))
							r.Trans(1)
							if err != nil || !eq(got, want) {
								r.Failf("after the malformed query %q (%s), an honest query is answered wrongly: %v", bad, m.name, err)
							}
							r.State(s.name, i, k, bad)
							r.Trace()
						}
					}
				})
			}
		}
		// malformed answers
		for i := 0; i < s.n; i++ {
			for part := 0; part < groups; part++ {
				i, part := i, part
				r.Case(fmt.Sprintf("%s server %d answers %d", s.name, i, part), func() {
					for k := 0; k < s.tries; k++ {
						c := s.make(uint64(k))
						ask := func(c sysClient) [][]byte {
							q, err := c.query(k)
							if err != nil {
								r.Failf("%v", err)
							}
							as := make([][]byte, s.n)
							for j := range as {
								if as[j], err = s.serve(j, q[j]); err != nil {
									r.Failf("%v", err)
								}
							}
							return as
						}
						as := ask(c)
						collude := false
						judge := func(name string, f func(as [][]byte) [][]byte) {
							wrong := func(c sysClient, as [][]byte) bool {
								v, err := c.rec(f(dups(as)))
								r.Trans(1)
								if err != nil {
									r.Outcome("rejected")
									return false
								}
								if s.right(k, v) {
									r.Outcome("right value")
									return false
								}
								r.Outcome("other value")
								return s.auth && !collude
							}
							r.State(s.name, i, k, name)
							r.Trace()
							if !wrong(c, as) {
								return
							}
							n := 64
							if s.luck {
								n = 0
								for t := uint64(0); t < 64; t++ {
									d := s.make(7000 + t)
									if wrong(d, ask(d)) {
										n++
									}
								}
							}
							if n >= 2 {
								r.Failf("item %d: the answer %q makes the client return a wrong value", k, name)
							}
						}
						for mi, m := range mutations(len(as[i]), 60, r) {
							if mi%groups == part {
								m := m
								judge(m.name, func(as [][]byte) [][]byte { as[i] = m.f(as[i]); return as })
							}
						}
						if part != 0 {
							continue
						}
						if s.n > 1 && i == 0 {
							judge("no answers", func(as [][]byte) [][]byte { return nil })
							judge("all nil", func(as [][]byte) [][]byte { return make([][]byte, s.n) })
							judge("one more", func(as [][]byte) [][]byte { return append(as, dup(as[0])) })
							judge("one more empty", func(as [][]byte) [][]byte { return append(as, nil) })
							judge("reversed", func(as [][]byte) [][]byte {
								for a, b := 0, len(as)-1; a < b; a, b = a+1, b-1 {
									as[a], as[b] = as[b], as[a]
								}
								return as
							})
							for d := 0; d < s.n; d++ {
								d := d
								judge(fmt.Sprintf("without %d", d), func(as [][]byte) [][]byte { return append(as[:d], as[d+1:]...) })
								judge(fmt.Sprintf("only %d", d), func(as [][]byte) [][]byte { return as[d : d+1] })
							}
							// one server of the complex scheme is honest
							collude = sch(s.name)
							for _, m := range mutations(minInt(len(as[0]), 24), 60, r) {
								m := m
								judge("all: "+m.name, func(as [][]byte) [][]byte {
									for d := range as {
										as[d] = m.f(as[d])
									}
									return as
								})
							}
							collude = false
						}
						judge("empty", func(as [][]byte) [][]byte { as[i] = []byte{}; return as })
					}
				})
			}
		}
	}
	fieldsC12(r)
}

// fieldsC12 sends complex queries that decode, with unexpected fields.
func fieldsC12(r *eng.R) {
	al := recAlphabet()
	recs := []keyRec{al[0], al[4], al[6], al[3], al[9], al[11]}
	type change struct {
		name string
		f    func(q *query.FSS)
	}
	for si := range fssSchemes {
		sch := fssSchemes[si]
		var cs []change
		add := func(name string, f func(q *query.FSS)) { cs = append(cs, change{name, f}) }
		info := func(name string, f func(in *query.Info)) {
			add(name, func(q *query.FSS) {
				if q.Info != nil {
					f(q.Info)
				}
			})
		}
		add("no info", func(q *query.FSS) { q.Info = nil })
		for _, t := range []query.Target{0, 1, 2, 3, 127, 255} {
			t := t
			info(fmt.Sprint("target ", t), func(in *query.Info) { in.Target = t })
		}
		for _, v := range []int{0, 1, 2, 12, 13, 14, 50, -1, -13, -1 << 63, 1<<63 - 1, 1 << 31, 1 << 32} {
			v := v
			info(fmt.Sprint("start ", v), func(in *query.Info) { in.FromStart = v })
			info(fmt.Sprint("end ", v), func(in *query.Info) { in.FromEnd = v })
		}
		for m := 0; m < 8; m++ {
			m := m
			info(fmt.Sprintf("and avg sum %03b", m), func(in *query.Info) { in.And, in.Avg, in.Sum = m&1 != 0, m&2 != 0, m&4 != 0 })
		}
		for _, l := range []int{0, 1, 1000} {
			l := l
			info(fmt.Sprint("targets ", l), func(in *query.Info) { in.Targets = make([]query.Target, l) })
		}
		for _, l := range []int{0, 1, 8, 15, 16, 17, 32, 1000} {
			l := l
			add(fmt.Sprint("seed of ", l), func(q *query.FSS) { q.FssKey.SInit = make([]byte, l) })
		}
		for _, v := range []byte{0, 1, 2, 3, 128, 255} {
			v := v
			add(fmt.Sprint("bit ", v), func(q *query.FSS) { q.FssKey.TInit = v })
		}
		for _, d := range []int{-1000, -8, -1, 1, 8, 1000} {
			d := d
			add(fmt.Sprintf("%+d levels", d), func(q *query.FSS) {
				n := maxInt(0, len(q.FssKey.CW)+d)
				for len(q.FssKey.CW) < n {
					q.FssKey.CW = append(q.FssKey.CW, make([]byte, 18))
				}
				q.FssKey.CW = q.FssKey.CW[:n]
			})
			add(fmt.Sprintf("%+d last", d), func(q *query.FSS) {
				n := maxInt(0, len(q.FssKey.FinalCW)+d)
				for len(q.FssKey.FinalCW) < n {
					q.FssKey.FinalCW = append(q.FssKey.FinalCW, 5)
				}
				q.FssKey.FinalCW = q.FssKey.FinalCW[:n]
			})
		}
		for _, l := range []int{0, 1, 15, 16, 17, 19, 34, 1000} {
			for _, at := range []int{0, 1, -1} {
				l, at := l, at
				add(fmt.Sprintf("level %d of %d", at, l), func(q *query.FSS) {
					if len(q.FssKey.CW) > 1 {
						q.FssKey.CW[(at+len(q.FssKey.CW))%len(q.FssKey.CW)] = make([]byte, l)
					}
				})
			}
		}
		for _, v := range []uint32{0, 1, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			v := v
			add(fmt.Sprint("last value ", v), func(q *query.FSS) {
				for i := range q.FssKey.FinalCW {
					q.FssKey.FinalCW[i] = v
				}
			})
		}
		add("no key", func(q *query.FSS) { q.FssKey = fss.FssKeyEq2P{} })
		bases := []*complexQuery{qEmail(al[0].email), qStarts("al"), qEnds("ch"), qAlgo("RSA"), qTime(2019), qAnd("ch"), qAvg("ch")}
		for bi := range bases {
			for srv := 0; srv < 2; srv++ {
				for part := 0; part < 4; part++ {
					base, srv, part := bases[bi], srv, part
					r.Case(fmt.Sprintf("%s fields of %s server %d part %d", sch.name, base.name, srv, part), func() {
						db := keysDB(recs)
						s := sch.servers(db)
						tape := detrand.Seed(uint64(bi))
						c := sch.client(tape, &db.Info)
						honestQs := c.Query(base.q, 2)
						good := gobOf(honestQs[srv])
						want, err := s[srv].AnswerBytes(good)
						if err != nil {
							r.Failf("%v", err)
						}
						try := func(name string, l ...change) {
							in := *honestQs[srv].Info
							k := honestQs[srv].FssKey
							q := &query.FSS{Info: &in, FssKey: fss.FssKeyEq2P{SInit: dup(k.SInit), TInit: k.TInit, CW: dups(k.CW), FinalCW: cp32(k.FinalCW)}}
							for _, x := range l {
								x.f(q)
							}
							_, err := s[srv].AnswerBytes(gobOf(q))
							if err != nil {
								r.Outcome("error")
							} else {
								r.Outcome("answer")
							}
							got, err := s[srv].AnswerBytes(dup(good))
							r.Trans(2)
							if err != nil || !eq(got, want) {
								r.Failf("after the query with %s, an honest query is answered wrongly: %v", name, err)
							}
							r.State(sch.name, srv, base.name, name)
							r.Trace()
						}
						n := 0
						for a := range cs {
							if n++; n%4 == part {
								try(cs[a].name, cs[a])
							}
							for b := a + 1; b < len(cs); b++ {
								if n++; n%4 == part && (r.Thorough || (a+b+bi)%5 == 0) {
									try(cs[a].name+", "+cs[b].name, cs[a], cs[b])
								}
							}
						}
					})
				}
			}
		}
		// a key list with an entry that cannot be encoded
		r.Case(sch.name+" odd creation times", func() {
			db := keysDB(recs)
			db.KeysInfo[1].PubKeyAlgo = packet.PublicKeyAlgorithm(255)
			s := sch.servers(db)
			tape := detrand.Seed(3)
			c := sch.client(tape, &db.Info)
			for _, b := range bases {
				for i, q := range c.Query(b.q, 2) {
					if _, err := s[i].AnswerBytes(gobOf(q)); err != nil {
						r.Failf("%s: %v", b.name, err)
					}
					r.Trans(1)
				}
			}
		})
	}
}
