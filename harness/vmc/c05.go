package main

import (
	"encoding/binary"
	"fmt"
	"time"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C05",
		Bounds: "queries of every type x databases of up to 6 records x either server malicious; its answer shifted (every element, every pair, all tags, by boundary values and by every element of its own key), scaled, negated, swapped, rotated, zeroed, set to boundary and non-canonical values, replayed from another query, session, client, key, or server number, computed on every sub-list and extension of the records, of every length up to 24, count for average and vice versa; the affine hull of the MAC keys over 256 tapes",
		Assumptions: []string{"a forgery that succeeds with probability 2^-31 per tag or less does not show",
			"the other server is honest and the lying one does not see its key or answer"},
		Run: runC05,
	})
}

func toU32(b []byte) []uint32 {
	o := make([]uint32, len(b)/4)
	for i := range o {
		o[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	return o
}

func fromU32(v []uint32) []byte {
	o := make([]byte, 4*len(v))
	for i, x := range v {
		binary.BigEndian.PutUint32(o[4*i:], x)
	}
	return o
}

func cp32(v []uint32) []uint32 { return append([]uint32(nil), v...) }

// macKeys recovers what the two keys of a query share: the values at the
// input that is looked for.
func macKeys(fs []*query.FSS, input []bool, n int) []uint32 {
	a, b := make([]uint32, n), make([]uint32, n)
	s := client.NewPredicateAPIR(nil, nil).Fss
	s.EvaluatePF(0, fs[0].FssKey, input, a)
	s.EvaluatePF(1, fs[1].FssKey, input, b)
	o := make([]uint32, n)
	for i := range o {
		o[i] = uint32((uint64(a[i]) + uint64(b[i])) % uint64(field.ModP))
	}
	return o
}

func runC05(r *eng.R) {
	al := recAlphabet()
	p := field.ModP
	dbs := [][]keyRec{
		{al[0]},
		{al[0], al[0], al[1]},
		{al[0], al[2], al[4], al[8], al[3], al[1]},
		{},
	}
	queries := []*complexQuery{qEmail("alice@epfl.ch"), qEmail("absent"), qStarts("al"), qEnds(".ch"), qStarts(longMail[:33]), qAlgo("RSA"),
		qTime(2019), qAnd("@epfl.ch"), qYear(2018, "al", true), qAvg("@epfl.ch"), qAvg("edu"), qAvg("absent")}
	deltas := []uint32{1, 2, p - 1, p - 2, p, 1 << 30, 1 << 31, 0xffffffff, 12345}

	for di := range dbs {
		for qi := range queries {
			for l := 0; l < 2; l++ {
				recs, q, l, di, qi := dbs[di], queries[qi], l, di, qi
				r.Case(fmt.Sprintf("db %d %s liar %d", di, q.name, l), func() {
					year := time.Now().UTC().Year()
					tape := detrand.Seed(uint64(di*100+qi) + r.Seed<<32)
					db := keysDB(recs)
					sch := fssSchemes[0]
					c := client.NewPredicateAPIR(tape, &db.Info)
					s := [2]*server.PredicateAPIR{server.NewPredicateAPIR(db, 0), server.NewPredicateAPIR(db, 1)}
					// an earlier session of the same client, its answers recorded
					old := c.Query(queries[(qi+1)%len(queries)].q, 2)
					oldAns := [][]uint32{s[0].Answer(old[0]), s[1].Answer(old[1])}
					sameOld := c.Query(q.q, 2)
					sameOldAns := [][]uint32{s[0].Answer(sameOld[0]), s[1].Answer(sameOld[1])}
					// other clients
					oc := client.NewPredicateAPIR(tape, &db.Info)
					other := oc.Query(q.q, 2)

					fs := c.Query(q.q, 2)
					hon := [][]uint32{s[0].Answer(fs[0]), s[1].Answer(fs[1])}
					want, wantErr := q.eval(recs)
					k := 0
					judgeBytes := func(what string, a []byte) {
						as := [][]byte{fromU32(hon[0]), fromU32(hon[1])}
						as[l] = a
						got, err := c.ReconstructBytes(as)
						r.Trans(2)
						k++
						r.Trace()
						if err != nil {
							r.Outcome("reject")
							return
						}
						r.Outcome("accept")
						v, ok := got.(uint32)
						if wantErr != nil || !ok || v != want {
							if time.Now().UTC().Year() != year {
								return
							}
							r.Failf("%s over %d records, server %d lies (%s): the client returned %v instead of %d", q.name, len(recs), l, what, got, want)
						}
					}
					judge := func(what string, a []uint32) {
						r.State(di, qi, l, what)
						judgeBytes(what, fromU32(a))
						// the direct interface
						as := [][]uint32{cp32(hon[0]), cp32(hon[1])}
						as[l] = cp32(a)
						got, err := c.Reconstruct(as)
						r.Trans(2)
						if err == nil && (wantErr != nil || got != want) && time.Now().UTC().Year() == year {
							r.Failf("%s over %d records, server %d lies (%s): the client returned %v instead of %d (direct)", q.name, len(recs), l, what, got, want)
						}
					}
					h := hon[l]
					n := len(h)
					// the honest answer is accepted
					if got, err := c.Reconstruct([][]uint32{cp32(hon[0]), cp32(hon[1])}); wantErr == nil && (err != nil || got != want) && time.Now().UTC().Year() == year {
						r.Failf("%s: honest answers give %v, %v instead of %d", q.name, got, err, want)
					} else if wantErr != nil && err == nil {
						r.Failf("%s: honest answers give %v", q.name, got)
					}
					add := func(v []uint32, i int, d uint32) { v[i] = uint32((uint64(v[i]) + uint64(d)) % uint64(p)) }
					all := func(what string, f func(i int, x uint32) uint32) {
						a := cp32(h)
						for i := range a {
							a[i] = f(i, a[i])
						}
						judge(what, a)
					}
					// per element
					for i := 0; i < n; i++ {
						for _, d := range deltas {
							a := cp32(h)
							add(a, i, d)
							judge(fmt.Sprintf("element %d shifted by %d", i, d), a)
							a = cp32(h)
							a[i] += d
							judge(fmt.Sprintf("element %d shifted by %d without reduction", i, d), a)
							a = cp32(h)
							a[i] = d
							judge(fmt.Sprintf("element %d set to %d", i, d), a)
						}
						a := cp32(h)
						a[i] = 0
						judge(fmt.Sprintf("element %d zero", i), a)
						for j := 0; j < n; j++ {
							if i == j {
								continue
							}
							a := cp32(h)
							a[i], a[j] = a[j], a[i]
							judge(fmt.Sprintf("elements %d and %d swapped", i, j), a)
							a = cp32(h)
							a[i] = a[j]
							judge(fmt.Sprintf("element %d copied to %d", j, i), a)
							for _, d := range []uint32{1, p - 1, 2} {
								a := cp32(h)
								add(a, i, d)
								add(a, j, d)
								judge(fmt.Sprintf("elements %d and %d shifted by %d", i, j, d), a)
								a = cp32(h)
								add(a, i, d)
								add(a, j, p-d)
								judge(fmt.Sprintf("elements %d and %d shifted by +-%d", i, j, d), a)
							}
						}
					}
					// all elements; the first or a whole block
					for _, d := range deltas {
						all(fmt.Sprintf("all shifted by %d", d), func(i int, x uint32) uint32 { return uint32((uint64(x) + uint64(d)) % uint64(p)) })
						all(fmt.Sprintf("all shifted by %d without reduction", d), func(i int, x uint32) uint32 { return x + d })
						all(fmt.Sprintf("all scaled by %d", d), func(i int, x uint32) uint32 { return uint32(uint64(x) * uint64(d) % uint64(p)) })
						all(fmt.Sprintf("all set to %d", d), func(i int, x uint32) uint32 { return d })
						all(fmt.Sprintf("all xored with %d", d), func(i int, x uint32) uint32 { return x ^ d })
						for mask := 1; mask < 1<<uint(minInt(n, 10)); mask++ {
							if n > 5 && mask%5 != 1 && mask&31 != 1 && mask&31 != 0 && mask&(mask-1) != 0 {
								continue
							}
							a := cp32(h)
							for i := range a {
								if mask>>uint(i)&1 == 1 {
									add(a, i, d)
								}
							}
							judge(fmt.Sprintf("elements %b shifted by %d", mask, d), a)
						}
					}
					all("negated", func(i int, x uint32) uint32 { return p - x })
					all("zero", func(i int, x uint32) uint32 { return 0 })
					for k := 1; k < n; k++ {
						all(fmt.Sprintf("rotated by %d", k), func(i int, x uint32) uint32 { return h[(i+k)%n] })
					}
					// what the server knows of the MAC keys: guesses, and its own key
					own := fs[l].FssKey.FinalCW
					guess := map[string]func(j int) uint32{
						"key": func(j int) uint32 {
							if j < len(own) {
								return own[j]
							}
							return 0
						},
						"negated key": func(j int) uint32 {
							if j < len(own) {
								return p - own[j]
							}
							return 0
						},
						"zero": func(j int) uint32 { return 0 }, "one": func(j int) uint32 { return 1 }, "minus one": func(j int) uint32 { return p - 1 },
						"former keys": func() func(j int) uint32 {
							// an adversary that learned the MAC keys of a former session
							m := macKeys(sameOld, q.q.Input, 5)
							return func(j int) uint32 { return m[j%5] }
						}(),
						"other client's keys": func() func(j int) uint32 {
							m := macKeys(other, q.q.Input, 5)
							return func(j int) uint32 { return m[j%5] }
						}(),
					}
					ex := n
					if q.avg {
						ex = n / 2
					}
					for name, g := range guess {
						for _, d := range []uint32{1, p - 1, 7} {
							for half := 0; half < n/ex; half++ {
								a := cp32(h)
								add(a, half*ex, d)
								for j := 1; j < ex; j++ {
									add(a, half*ex+j, uint32(uint64(g(j))*uint64(d)%uint64(p)))
								}
								judge(fmt.Sprintf("block %d forged by %d with guess %s", half, d, name), a)
							}
						}
					}
					// replays
					judge("answer of the former query", oldAns[l])
					judge("answer of the same query before", sameOldAns[l])
					judge("answer as the other server", s[1-l].Answer(fs[l]))
					judge("answer for another client", s[l].Answer(other[l]))
					judge("answer for the former key", s[l].Answer(sameOld[l]))
					// the same key with another function
					for ii, in := range []query.Info{{Target: query.UserId}, {Target: query.PubKeyAlgo}, {Target: query.CreationTime},
						{Target: query.UserId, FromStart: 2}, {Target: query.UserId, FromEnd: 2}, {And: true, FromEnd: 3}, {And: true, Avg: true, FromEnd: 3}} {
						in := in
						b, err := s[l].AnswerBytes(gobOf(&query.FSS{Info: &in, FssKey: fs[l].FssKey}))
						if err == nil {
							judge(fmt.Sprintf("answer for function %d", ii), toU32(b))
						}
						if in.Avg != q.q.Avg && err == nil && len(b) > 0 {
							judge(fmt.Sprintf("answer for function %d, doubled", ii), append(toU32(b), toU32(b)...))
							judge(fmt.Sprintf("answer for function %d, halved", ii), toU32(b)[:len(b)/8])
						}
					}
					// other databases
					for mask := 0; mask < 1<<uint(len(recs)); mask++ {
						var sub []keyRec
						for i := range recs {
							if mask>>uint(i)&1 == 1 {
								sub = append(sub, recs[i])
							}
						}
						judge(fmt.Sprintf("records %b", mask), sch.servers(keysDB(sub))[l].Answer(fs[l]))
						for ai, x := range al {
							if mask+1 == 1<<uint(len(recs)) || ai == 0 {
								judge(fmt.Sprintf("records %b and %d", mask, ai), sch.servers(keysDB(append(append([]keyRec{}, sub...), x)))[l].Answer(fs[l]))
							}
						}
						judge(fmt.Sprintf("records %b twice", mask), sch.servers(keysDB(append(append([]keyRec{}, sub...), sub...)))[l].Answer(fs[l]))
					}
					for ri := range recs {
						mod := append([]keyRec{}, recs...)
						mod[ri].email = "alice@epfl.ch"
						judge(fmt.Sprintf("record %d renamed", ri), sch.servers(keysDB(mod))[l].Answer(fs[l]))
						mod[ri] = recs[ri]
						mod[ri].t = recs[ri].t.AddDate(-3, 0, 0)
						judge(fmt.Sprintf("record %d older", ri), sch.servers(keysDB(mod))[l].Answer(fs[l]))
						mod[ri].algo++
						judge(fmt.Sprintf("record %d of another algorithm", ri), sch.servers(keysDB(mod))[l].Answer(fs[l]))
					}
					// lengths
					for k := 0; k <= 24; k++ {
						a := make([]uint32, k)
						copy(a, h)
						judge(fmt.Sprintf("%d elements", k), a)
						if k > n {
							copy(a[n:], h)
							judge(fmt.Sprintf("%d elements, repeated", k), a)
						}
					}
					hb := fromU32(h)
					for k := 0; k <= len(hb)+4; k++ {
						judgeBytes(fmt.Sprintf("%d bytes", k), padded(hb[:minInt(k, len(hb))], k))
					}
					// missing and additional answers
					for _, as := range [][][]byte{nil, {}, {fromU32(h)}, {fromU32(hon[0]), fromU32(hon[1]), fromU32(h)}, {fromU32(hon[0]), fromU32(hon[1]), nil}, {nil, nil}} {
						if got, err := c.ReconstructBytes(as); err == nil && (wantErr != nil || got != interface{}(want)) {
							r.Failf("%s: %d answers accepted: %v", q.name, len(as), got)
						}
						r.Trans(1)
					}
					// and the honest answers still are
					if got, err := c.Reconstruct(hon); wantErr == nil && (err != nil || got != want) && time.Now().UTC().Year() == year {
						r.Failf("%s: honest answers give %v, %v instead of %d after the lies", q.name, got, err, want)
					}
				})
			}
		}
	}
	macCases(r)
}

// macCases: the MAC keys of successive queries are uniform and independent, as
// far as affine relations tell.
func macCases(r *eng.R) {
	for _, q := range []*complexQuery{qAlgo("RSA"), qEnds(".ch"), qAvg("h"), qAnd("h")} {
		q := q
		r.Case("MAC keys "+q.name, func() {
			var h hull
			in := &keysDB(nil).Info
			nTags := 0
			for t := 0; t < 400; t++ {
				tape := detrand.Seed(uint64(t) + 77 + r.Seed<<40)
				c := client.NewPredicateAPIR(tape, in)
				var v []byte
				for k := 0; k < 2; k++ {
					fs := c.Query(q.q, 2)
					n := len(fs[0].FssKey.FinalCW)
					m := macKeys(fs, q.q.Input, n)
					if m[0] != 1 {
						r.Failf("%s: the value for the count is %d", q.name, m[0])
					}
					nTags = n - 1
					for _, x := range m[1:] {
						if x == 0 {
							r.Failf("%s: a MAC key is zero", q.name)
						}
					}
					v = append(v, fromU32(m[1:])...)
				}
				h.add(v)
				r.Trans(2)
				r.State("mac", q.name, v)
			}
			if nTags < 1 {
				r.Failf("%s: no MAC key", q.name)
			}
			r.Trace()
			r.Outcome(fmt.Sprintf("dim%d", h.dim()))
			if want := 2 * 31 * nTags; h.dim() < want {
				r.Failf("%s: the MAC keys of two queries span %d dimensions, not %d", q.name, h.dim(), want)
			}
		})
	}
}
