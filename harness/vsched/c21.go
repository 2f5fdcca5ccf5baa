package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"runtime"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/aa_verif/sched"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"lukechampine.com/uint128"
)

func init() {
	register(&eng.Check{
		ID:       "C21",
		Bounds:   "all schedules of two answers of one server object with one preemption at any statement of lib (and a third answer afterwards; in answers of more than 400 statements: at 400 of the first three visits and the last one of each statement, thorough: at all), and with two preemptions at any pair of statements (in answers of more than 80 statements: at 40 of the first two visits and the last one; thorough: 800 and 400), thorough also three answers with three preemptions; servers of all schemes, new for each schedule and worn, all ordered pairs of up to 11 queries, malformed ones included",
		QuickSec: 300,
		Run:      runC21,
	})
}

// answerer is a server object.
type answerer interface {
	AnswerBytes(q []byte) ([]byte, error)
}

// schedWorld is a server with queries for it.
type schedWorld struct {
	name string
	make func() func() answerer // a new database, then new servers over it
	qs   func() [][]byte
	slow bool
}

func schedWorlds() []schedWorld {
	var ws []schedWorld
	pir := func(name string, rows, cols, servers int) {
		lens := make([]int, rows*cols)
		for i := range lens {
			lens[i] = 1 + i*5%7
		}
		db := func() *database.Bytes {
			db, _ := bytesDB(rows, cols, 8, lens, func(k, p int) byte { return byte(k*31 + p*7 + 1) })
			return db
		}
		ws = append(ws, schedWorld{name: name,
			make: func() func() answerer {
				d := db()
				return func() answerer { return pirServers(d, servers)[0] }
			},
			qs: func() [][]byte {
				var out [][]byte
				c := client.NewPIR(detrand.Seed(uint64(rows*100+cols)), &db().Info)
				for k := 0; k < 4; k++ {
					q, err := c.QueryBytes(be32((k*3+1)%(rows*cols)), servers)
					must(err)
					out = append(out, q[0])
				}
				return append(out, out[0][:len(out[0])-1], nil)
			}})
	}
	pir("pir vector", 1, 9, 3)
	pir("pir matrix", 3, 4, 3)
	pir("dpf vector", 1, 9, 2)
	pir("dpf matrix", 2, 130, 2)

	recs := []keyRec{recAlphabet()[0], recAlphabet()[7]}
	for si := range fssSchemes {
		sch := fssSchemes[si]
		for num := 0; num < 2; num++ {
			num := num
			ws = append(ws, schedWorld{name: fmt.Sprint(sch.name, " server ", num),
				make: func() func() answerer {
					d := keysDB(recs)
					return func() answerer { return sch.servers(d)[num] }
				},
				qs: func() [][]byte {
					d := keysDB(recs)
					c := sch.client(detrand.Seed(uint64(si*2+num)), &d.Info)
					var out [][]byte
					for _, q := range []*complexQuery{qAlgo("RSA"), qAlgo("DSA"), qEnds("h"), qEnds("ch"), qAvg("h"), qStarts("a"), qTime(2019), qAnd("h")} {
						in, err := q.q.Encode()
						must(err)
						b, err := c.QueryBytes(in, 2)
						must(err)
						out = append(out, b[num])
					}
					// one that breaks down on the way
					for _, cut := range []int{3, 0} {
						var q *query.FSS
						must(gob.NewDecoder(bytes.NewReader(out[0])).Decode(&q))
						if cut > 0 {
							q.FssKey.CW = q.FssKey.CW[:cut]
						} else {
							q.FssKey.FinalCW = nil
						}
						out = append(out, gobOf(q))
					}
					return append(out, []byte{1, 2, 3})
				}})
		}
	}

	vec := func(k, n int) *matrix.Matrix {
		m := matrix.New(1, n)
		for i := 0; i < n; i++ {
			m.SetData(i, uint32(i*k*0x01234567+k))
		}
		return m
	}
	lwe := func() *database.LWE { return database.CreateRandomBinaryLWE(detrand.New(7), 5, 6) }
	ws = append(ws, schedWorld{name: "lwe", slow: true,
		make: func() func() answerer {
			d := lwe()
			return func() answerer { return server.NewLWE(d) }
		},
		qs: func() [][]byte {
			return [][]byte{matrix.MatrixToBytes(vec(1, 5)), matrix.MatrixToBytes(vec(2, 5)), matrix.MatrixToBytes(vec(3, 4)), {1}}
		}})
	ws = append(ws, schedWorld{name: "amplify", slow: true,
		make: func() func() answerer {
			d := lwe()
			return func() answerer { return server.NewAmplify(d) }
		},
		qs: func() [][]byte {
			return [][]byte{matrix.MatricesToBytes([]*matrix.Matrix{vec(1, 5), vec(2, 5), vec(3, 5)}),
				matrix.MatricesToBytes([]*matrix.Matrix{vec(4, 5)}), matrix.MatricesToBytes([]*matrix.Matrix{vec(5, 5), vec(6, 5)}), {0, 0, 0, 1}}
		}})
	ws = append(ws, schedWorld{name: "lwe128", slow: true,
		make: func() func() answerer {
			d := database.CreateRandomBinaryLWE128(detrand.New(8), 5, 6)
			return func() answerer { return server.NewLWE128(d) }
		},
		qs: func() [][]byte {
			vec := func(k, n int) []byte {
				m := matrix.New128(1, n)
				for i := 0; i < n; i++ {
					m.Set(0, i, uint128.New(uint64(i*k*0x01234567+k), uint64(k+i)<<40))
				}
				return matrix.Matrix128ToBytes(m)
			}
			return [][]byte{vec(1, 5), vec(2, 5), vec(3, 4)}
		}})
	dh := func() *database.Elliptic {
		d, err := ellipticDB(3, 2, []byte{1, 0, 1, 1, 0, 1}, group.Ristretto255)
		must(err)
		return d
	}
	ws = append(ws, schedWorld{name: "dh", slow: true,
		make: func() func() answerer {
			d := dh()
			return func() answerer { return server.NewDH(d) }
		},
		qs: func() [][]byte {
			d := dh()
			c := client.NewDH(detrand.Seed(5), &d.Info)
			var out [][]byte
			for k := 0; k < 2; k++ {
				q, err := c.QueryBytes(k)
				must(err)
				out = append(out, q)
			}
			return append(out, out[0][:32], make([]byte, 64))
		}})
	return ws
}

// reply is what a server says to a query.
type reply struct {
	a   []byte
	err error
	p   interface{}
}

func (x reply) same(y reply) bool {
	return eq(x.a, y.a) && fmt.Sprint(x.err) == fmt.Sprint(y.err) && fmt.Sprint(x.p) == fmt.Sprint(y.p)
}

func (x reply) String() string { return fmt.Sprintf("%x, %v, %v", x.a, x.err, x.p) }

// stops chooses the points where an answer gives way, out of those it passes
// when it is alone: the first visits of each and the last one.
func stops(points []int32, visits int) []int {
	n, last := map[int32]int{}, map[int32]int{}
	for i, p := range points {
		last[p] = i
	}
	var out []int
	for i, p := range points {
		n[p]++
		if visits == 0 || n[p] <= visits || last[p] == i {
			out = append(out, i+1)
		}
	}
	return out
}

func runC21(r *eng.R) {
	runtime.GOMAXPROCS(1)
	waits := 0
	for _, w := range schedWorlds() {
		w := w
		qs := w.qs()
		// what the server says when it is alone
		solo := map[int]reply{}
		points := map[int][]int32{}
		longest := 10 * time.Millisecond
		alone := func(k int) reply {
			if x, ok := solo[k]; ok {
				return x
			}
			s := w.make()()
			var x reply
			t := time.Now()
			points[k] = sched.Points(func() {
				defer func() { x.p = recover() }()
				x.a, x.err = s.AnswerBytes(dup(qs[k]))
			})
			if d := 2 * time.Since(t); d > longest {
				longest = d
			}
			solo[k] = x
			return x
		}
		// check runs one schedule
		check := func(s answerer, ks []int, after int, plan ...sched.Seg) {
			got := make([]reply, len(ks))
			fs := make([]func(), len(ks))
			for i, k := range ks {
				i, q := i, dup(qs[k])
				fs[i] = func() {
					defer func() { got[i].p = recover() }()
					got[i].a, got[i].err = s.AnswerBytes(q)
				}
			}
			patience := longest
			if waits > 100 {
				// the answers exclude each other: the turns are lost anyway
				patience = 300 * time.Microsecond
			}
			_, lost := sched.Run(plan, patience, fs...)
			waits += lost
			if lost > 0 {
				r.Outcome("with an answer that waits")
			} else {
				r.Outcome("straight")
			}
			for i, k := range ks {
				if want := alone(k); !got[i].same(want) {
					r.Failf("%s, queries %v, schedule %v: the answer to query %d is %v; alone: %v", w.name, ks, plan, k, got[i], want)
				}
			}
			if after >= 0 {
				a, err := s.AnswerBytes(dup(qs[after]))
				if x := (reply{a: a, err: err}); !x.same(alone(after)) {
					r.Failf("%s, queries %v, schedule %v, then query %d: the answer is %v; alone: %v", w.name, ks, plan, after, x, alone(after))
				}
			}
			r.Trace()
			r.Trans(len(plan) + len(ks))
		}
		seen := func(k int) bool {
			alone(k)
			if len(points[k]) == 0 {
				r.Note("the answers of the %s server pass no instrumented statement: only whole answers are interleaved", w.name)
				r.Cap()
			}
			return len(points[k]) > 0
		}
		for i := range qs {
			for j := range qs {
				i, j := i, j
				for _, worn := range []bool{false, true} {
					worn := worn
					r.Case(fmt.Sprintf("%s: query %d gives way to query %d at each statement, worn %v", w.name, i, j, worn), func() {
						seen(i)
						seen(j)
						fresh := w.make()
						var s answerer
						at := stops(points[i], 0)
						if !r.Thorough && len(at) > 400 {
							at = thin(stops(points[i], 3), 400)
						}
						for n, k := range at {
							if r.Expired() {
								return
							}
							if !worn && !w.slow {
								fresh = w.make()
							}
							if s == nil || !worn {
								s = fresh()
							}
							check(s, []int{i, j}, n%len(qs), sched.Seg{0, k}, sched.Seg{1, 0})
							r.State(w.name, i, j, k, fmt.Sprint(worn))
						}
					})
				}
				// two preemptions
				alone(i)
				alone(j)
				most := 40
				if r.Thorough {
					most = 400
				}
				some := func(l []int32) []int {
					if len(l) <= 2*most {
						return stops(l, 0)
					}
					return thin(stops(l, 2), most)
				}
				si, sj := some(points[i]), some(points[j])
				const chunk = 64
				for lo := 0; lo < len(si); lo += chunk {
					lo := lo
					r.Case(fmt.Sprintf("%s: query %d gives way to query %d and back, from statement %d", w.name, i, j, lo), func() {
						fresh := w.make()
						for x := lo; x < len(si) && x < lo+chunk; x++ {
							if r.Expired() {
								return
							}
							for _, l := range sj {
								check(fresh(), []int{i, j}, -1, sched.Seg{0, si[x]}, sched.Seg{1, l}, sched.Seg{0, 0})
							}
							r.State(w.name, i, j, si[x], len(sj))
						}
					})
				}
				if !r.Thorough {
					continue
				}
				for k := range qs {
					k := k
					r.Case(fmt.Sprintf("%s: queries %d, %d and %d", w.name, i, j, k), func() {
						alone(k)
						fresh := w.make()
						for _, x := range thin(stops(points[i], 1), 12) {
							for _, y := range thin(stops(points[j], 1), 12) {
								if r.Expired() {
									return
								}
								for _, z := range thin(stops(points[k], 1), 12) {
									check(fresh(), []int{i, j, k}, -1, sched.Seg{0, x}, sched.Seg{1, y}, sched.Seg{2, z}, sched.Seg{0, 0})
								}
							}
						}
					})
				}
			}
		}
	}
}

// thin keeps n elements, evenly.
func thin(l []int, n int) []int {
	if len(l) <= n {
		return l
	}
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, l[i*(len(l)-1)/(n-1)])
	}
	return out
}
