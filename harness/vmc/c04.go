package main

import (
	"fmt"
	"time"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C04",
		Bounds: "all lists of up to 2 (thorough 3) records over an alphabet of 12, all queries of an alphabet of about 150 (email, prefix, suffix, algorithm, creation time, year and organization, average), both schemes, on clients and servers of their own and on ones that are kept for the whole sequence; all ordered pairs of queries on one client over a small database; lists of 0 to 40 equal and different records, and of 100 to 66000 matching ones; strings of up to 320 bytes that differ in one place; emails whose hashes have 48 bits in common",
		Assumptions: []string{"the year of a conjunction made by ToAndClientFSS is 2018: the code looks for the year of Date(2019, 0, 0)",
			"identifiers of emails do not collide (128 bits of BLAKE2b)"},
		Run: runC04,
	})
}

func runC04(r *eng.R) {
	al := recAlphabet()
	qs := queryAlphabet(r.Thorough)
	check := func(c fssClient, s [2]fssServer, q *complexQuery, recs []keyRec, viaBytes bool) {
		for try := 0; ; try++ {
			year := time.Now().UTC().Year()
			want, wantErr := q.eval(recs)
			got, err := honest(c, s, q, viaBytes)
			r.Trans(4)
			if time.Now().UTC().Year() != year && try < 3 {
				continue // the year changed meanwhile
			}
			if wantErr != nil {
				if err == nil {
					r.Failf("%s over %v: got %d, expected an error", q.name, recs, got)
				}
				r.Outcome("error")
				break
			}
			if err != nil {
				r.Failf("%s over %v: %v", q.name, recs, err)
			}
			if got != want {
				r.Failf("%s over %v: got %d, expected %d", q.name, recs, got, want)
			}
			r.Outcome(fmt.Sprintf("value%d", got))
			break
		}
		r.Trace()
	}
	// lists of records
	var lists [][]keyRec
	lists = append(lists, nil)
	max := 2
	if r.Thorough {
		max = 3
	}
	level := [][]keyRec{nil}
	for d := 1; d <= max; d++ {
		var next [][]keyRec
		for _, l := range level {
			for _, k := range al {
				next = append(next, append(append([]keyRec{}, l...), k))
			}
		}
		lists = append(lists, next...)
		level = next
	}
	for si := range fssSchemes {
		sch := fssSchemes[si]
		for li := range lists {
			recs := lists[li]
			r.Case(fmt.Sprintf("%s list %d: %v", sch.name, li, recs), func() {
				tape := detrand.Seed(uint64(li) + r.Seed<<32)
				db := keysDB(recs)
				s := sch.servers(db)
				c := sch.client(tape, &db.Info)
				for qi, q := range qs {
					check(c, s, q, recs, qi%2 == li%2)
					r.State(sch.name, li, qi)
				}
				if li%5 == 0 {
					for qi, q := range qs {
						check(sch.client(tape, &db.Info), sch.servers(db), q, recs, qi%2 == 1)
					}
				}
			})
		}
		// pairs of queries on one client and servers
		for q1 := range qs {
			q1 := q1
			r.Case(fmt.Sprintf("%s pairs after %s", sch.name, qs[q1].name), func() {
				tape := detrand.Seed(uint64(q1))
				recs := []keyRec{al[0], al[4], al[8]}
				db := keysDB(recs)
				s := sch.servers(db)
				for q2, q := range qs {
					if (q1+q2)%3 != 0 && !r.Thorough {
						continue
					}
					c := sch.client(tape, &db.Info)
					check(c, s, qs[q1], recs, q2%2 == 0)
					check(c, s, q, recs, q2%2 == 1)
					r.State("pair", sch.name, q1, q2)
				}
			})
		}
		// sizes
		for n := 0; n <= 40; n++ {
			n := n
			r.Case(fmt.Sprintf("%s %d records", sch.name, n), func() {
				tape := detrand.Seed(uint64(n))
				for kind := 0; kind < 3; kind++ {
					var recs []keyRec
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							recs = append(recs, al[0])
						case 1:
							recs = append(recs, al[i%len(al)])
						case 2:
							recs = append(recs, keyRec{fmt.Sprintf("u%d@epfl.ch", i), al[i%3].algo, time.Date(1990+i, 3, 1, 0, 0, 0, 0, time.UTC)})
						}
					}
					db := keysDB(recs)
					s := sch.servers(db)
					c := sch.client(tape, &db.Info)
					for qi, q := range qs {
						if qi%4 == 0 || q.avg || r.Thorough {
							check(c, s, q, recs, qi%8 != 0)
							r.State("size", sch.name, n, kind, qi)
						}
					}
				}
			})
		}
		// long strings that differ in one place only
		for _, n := range []int{16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 66, 79, 80, 96, 100, 127, 128, 129, 160, 200, 254, 255, 256, 257, 300, 320} {
			n := n
			r.Case(fmt.Sprintf("%s strings of %d bytes", sch.name, n), func() {
				tape := detrand.Seed(uint64(n))
				base := make([]byte, n)
				for i := range base {
					base[i] = byte('a' + i%19)
				}
				pos := []int{0, 1, n / 2, n - 2, n - 1}
				var recs []keyRec
				for i, p := range append([]int{-1}, pos...) {
					x := dup(base)
					if p >= 0 {
						x[p] = 'X'
					}
					recs = append(recs, keyRec{string(x), al[i].algo, time.Date(2018+i%2, 3, 1, 0, 0, 0, 0, time.UTC)},
						keyRec{string(x) + "@e.ch", al[i].algo, time.Date(2018-i, 3, 1, 0, 0, 0, 0, time.UTC)},
						keyRec{"ab" + string(x), al[i].algo, time.Date(2015-i, 3, 1, 0, 0, 0, 0, time.UTC)})
				}
				db := keysDB(recs)
				s := sch.servers(db)
				c := sch.client(tape, &db.Info)
				for i, p := range append([]int{-1}, pos...) {
					x := dup(base)
					if p >= 0 {
						x[p] = 'X'
					}
					v := string(x)
					for qi, q := range []*complexQuery{qEmail(v), qStarts(v), qStarts(v[:n-1]), qEnds(v), qEnds(v[1:]), qEnds(v + "@e.ch"), qAvg(v), qAnd(v), qYear(2018-i, v, true), qYear(2018-i, v+"@e.ch", false)} {
						check(c, s, q, recs, qi%2 == i%2)
						r.State("longs", sch.name, n, i, qi)
					}
				}
			})
		}
		// emails whose hashes begin alike
		for i := range nearHashes {
			p := nearHashes[i]
			r.Case(fmt.Sprintf("%s emails with near hashes %d", sch.name, i), func() {
				tape := detrand.Seed(uint64(i))
				recs := []keyRec{{p[0], al[0].algo, al[0].t}, {p[1], al[1].algo, al[1].t}, {p[1], al[0].algo, al[2].t}}
				db := keysDB(recs)
				for _, v := range p {
					check(sch.client(tape, &db.Info), sch.servers(db), qEmail(v), recs, true)
					r.State("near", sch.name, v)
				}
			})
		}
		r.Case(sch.name+" years", func() {
			ys := []int{2018, 2017, 2019, 2016, 2020, 2014, 2010, 2008, 2022, 2028, 2002, 1986, 1954, 2082, 1890, 2146, 1918, 2118, 1762, 2274, 1618, 2418, 18, 1018, 9018, 1970, 2106}
			var recs []keyRec
			for i, y := range ys {
				recs = append(recs, keyRec{"a@e.ch", al[i%3].algo, time.Date(y, time.Month(1+i%12), 1, 0, 0, 0, 0, time.UTC)})
				if i%3 == 0 {
					recs = append(recs, recs[len(recs)-1])
				}
			}
			db := keysDB(recs)
			s := sch.servers(db)
			c := sch.client(detrand.Seed(1), &db.Info)
			check(c, s, qAnd("ch"), recs, true)
			check(c, s, qAvg("ch"), recs, false)
			for i, y := range ys {
				check(c, s, qYear(y, "ch", false), recs, i%2 == 0)
				check(c, s, qYear(y, "a@", true), recs, i%2 == 1)
				r.State("years", sch.name, y)
			}
		})
		// more matching records than fit in 8 and in 16 bits
		for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536, 66000} {
			n := n
			if n > 1000 && n < 66000 && !r.Thorough {
				continue
			}
			r.Case(fmt.Sprintf("%s %d matching records", sch.name, n), func() {
				tape := detrand.Seed(uint64(n))
				var recs []keyRec
				for i := 0; i < n; i++ {
					recs = append(recs, keyRec{"a@e.ch", al[0].algo, time.Date(1971+i%7, 3, 1, 0, 0, 0, 0, time.UTC)})
					if i%100 == 0 {
						recs = append(recs, keyRec{"a@e.org", al[1].algo, time.Date(2001+i%7, 3, 1, 0, 0, 0, 0, time.UTC)})
					}
				}
				db := keysDB(recs)
				s := sch.servers(db)
				c := sch.client(tape, &db.Info)
				for qi, q := range []*complexQuery{qAlgo("RSA"), qAvg("h"), qAvg("g"), qEnds("h"), qStarts("a"), qYear(1971, "h", false)} {
					if n > 1000 && qi > 3 && !r.Thorough {
						break
					}
					check(c, s, q, recs, qi%2 == 0)
					r.State("many", sch.name, n, qi)
				}
			})
		}
		r.Case(sch.name+" random database", func() {
			tape := detrand.Seed(5)
			db, err := database.CreateRandomKeysDB(tape, 60)
			if err != nil {
				r.Failf("%v", err)
			}
			var recs []keyRec
			for _, k := range db.KeysInfo {
				recs = append(recs, keyRec{k.UserId.Email, k.PubKeyAlgo, k.CreationTime})
			}
			s := sch.servers(db)
			c := sch.client(tape, &db.Info)
			for i, k := range recs {
				check(c, s, qEmail(k.email), recs, i%2 == 0)
				check(c, s, qStarts(k.email[:1+i%8]), recs, i%2 == 1)
				check(c, s, qEnds(k.email[len(k.email)-1-i%8:]), recs, i%2 == 0)
				check(c, s, qYear(k.t.UTC().Year(), k.email[:1+i%3], true), recs, i%2 == 1)
				r.State("rnd", sch.name, i)
			}
			for _, n := range []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"} {
				check(c, s, qAlgo(n), recs, true)
			}
		})
	}
}
