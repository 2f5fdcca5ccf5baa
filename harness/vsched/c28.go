package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/aa_verif/sched"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID: "C28",
		Bounds: "two clients of one process (all schemes, 2 and 3 servers, sharing the information about the database, with randomness of their own; 2 to 4 items each): all interleavings of whole operations (query, reconstruct, query again, reconstruct; also of wrong answers), and each of query and reconstruct giving way to the other client's at any statement of lib (of long ones: 150 (thorough 1000) of the first three visits and the last one of each statement) and, at 12 (thorough 60) statements of each, giving way and coming back; " +
			"the random generators: two and three tasks drawing words (also as many as are fetched at once), integers, noise, vectors and new generators, giving way at any pair of statements",
		QuickSec: 300,
		Run:      runC28,
	})
}

// clientWorld is a scheme whose clients are scheduled.
type clientWorld struct {
	name  string
	items int
	slow  bool
	open  func() *clientSide
}

type clientSide struct {
	make   func(rnd io.Reader) sysClient
	answer func(q [][]byte) [][]byte
	right  func(k int, v interface{}) bool
}

func clientWorlds() []clientWorld {
	var ws []clientWorld
	for _, c := range []struct {
		rows, cols, ns int
		merkle         bool
	}{{1, 9, 3, false}, {3, 4, 2, false}, {2, 3, 3, true}, {1, 4, 2, true}} {
		c := c
		ws = append(ws, clientWorld{name: fmt.Sprintf("point queries to %d servers, %dx%d, Merkle %v", c.ns, c.rows, c.cols, c.merkle), items: 3, open: func() *clientSide {
			var db *database.Bytes
			var want [][]byte
			if c.merkle {
				var data [][]byte
				for k := 0; k < c.rows*c.cols; k++ {
					data = append(data, blockData(k, 3))
				}
				db, want = mkMerkle(c.rows, 3, data).db, data
			} else {
				lens := make([]int, c.rows*c.cols)
				for i := range lens {
					lens[i] = 1 + i*5%7
				}
				var bs [][]byte
				db, bs = bytesDB(c.rows, c.cols, 8, lens, func(k, p int) byte { return byte(k*31 + p*7 + 1) })
				for _, b := range bs {
					want = append(want, padded(b, 8))
				}
			}
			ss := pirServers(db, c.ns)
			at := func(k int) int { return (k*4 + 1) % (c.rows * c.cols) }
			return &clientSide{
				make: func(rnd io.Reader) sysClient {
					cl := client.NewPIR(rnd, &db.Info)
					return sysClient{func(k int) ([][]byte, error) { return cl.QueryBytes(be32(at(k)), c.ns) }, cl.ReconstructBytes}
				},
				answer: func(q [][]byte) [][]byte {
					a, err := answersOf(ss, q)
					must(err)
					return a
				},
				right: func(k int, v interface{}) bool {
					b, ok := v.([]byte)
					return ok && eq(b, want[at(k)])
				}}
		}})
	}
	al := recAlphabet()
	recs := []keyRec{al[0], al[8], al[1]}
	qs := []*complexQuery{qAlgo("RSA"), qEnds("ch"), qAvg("du"), qYear(2018, "edu", false)}
	for si := range fssSchemes {
		sch := fssSchemes[si]
		ws = append(ws, clientWorld{name: sch.name, items: len(qs), slow: true, open: func() *clientSide {
			db := keysDB(recs)
			ss := sch.servers(db)
			return &clientSide{
				make: func(rnd io.Reader) sysClient {
					cl := sch.client(rnd, &db.Info)
					return sysClient{func(k int) ([][]byte, error) {
						in, err := qs[k].q.Encode()
						must(err)
						return cl.QueryBytes(in, 2)
					}, cl.ReconstructBytes}
				},
				answer: func(q [][]byte) [][]byte {
					a := make([][]byte, 2)
					for i := range a {
						var err error
						a[i], err = ss[i].AnswerBytes(q[i])
						must(err)
					}
					return a
				},
				right: func(k int, v interface{}) bool {
					want, err := qs[k].eval(recs)
					u, ok := v.(uint32)
					return err == nil && ok && u == want
				}}
		}})
	}
	single := func(c latClient) sysClient {
		return sysClient{func(k int) ([][]byte, error) {
			q, err := c.query(k)
			return [][]byte{q}, err
		}, func(a [][]byte) (interface{}, error) { return c.rec(a[0]) }}
	}
	for _, g := range []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"ristretto", group.Ristretto255}} {
		g := g
		ws = append(ws, clientWorld{name: "group " + g.name, items: 3, slow: true, open: func() *clientSide {
			db, err := ellipticDB(2, 2, []byte{1, 0, 1, 1}, g.g)
			must(err)
			s := server.NewDH(db)
			return &clientSide{
				make: func(rnd io.Reader) sysClient {
					c := client.NewDH(rnd, &db.Info)
					return single(latClient{c.QueryBytes, c.ReconstructBytes})
				},
				answer: func(q [][]byte) [][]byte {
					a, err := s.AnswerBytes(q[0])
					must(err)
					return [][]byte{a}
				},
				right: func(k int, v interface{}) bool { b, ok := bitOf(v); return ok && b == db.Entries[k] }}
		}})
	}
	for _, kind := range []string{"32", "amp", "128"} {
		kind := kind
		ws = append(ws, clientWorld{name: "lattice " + kind, items: 2, slow: true, open: func() *clientSide {
			l := newLattice(kind, 2, 2, []byte{1, 0, 0, 1}, 1)
			return &clientSide{
				make: func(rnd io.Reader) sysClient { return single(l.client(rnd)) },
				answer: func(q [][]byte) [][]byte {
					a, err := l.answer(q[0])
					must(err)
					return [][]byte{a}
				},
				right: func(k int, v interface{}) bool { b, ok := bitOf(v); return ok && b == l.bits[k] }}
		}})
	}
	return ws
}

func runC28(r *eng.R) {
	runtime.GOMAXPROCS(1)
	for _, w := range clientWorlds() {
		clientsC28(r, w)
	}
	drawsC28(r)
}

func clientsC28(r *eng.R, w clientWorld) {
	var side *clientSide
	sideOf := func() *clientSide {
		if side == nil {
			side = w.open()
		}
		return side
	}
	// one of two clients
	type actor struct {
		who  int
		c    sysClient
		k    int
		q, a [][]byte
	}
	tapeOf := func(who int) io.Reader { return detrand.New(uint64(1000 + who)) }
	newActor := func(who int) *actor { return &actor{who: who, c: sideOf().make(tapeOf(who))} }
	query := func(x *actor, k int) error {
		q, err := x.c.query(k)
		x.k, x.q = k, q
		return err
	}
	serve := func(x *actor) { x.a = sideOf().answer(dups(x.q)) }
	// what the queries of an actor are when it is alone, if they depend only on
	// its own randomness
	ownCache := map[string][][][]byte{}
	own := func(who int, ks ...int) [][][]byte {
		key := fmt.Sprint(who, ks)
		if v, ok := ownCache[key]; ok {
			return v
		}
		do := func(system uint64) [][][]byte {
			detrand.Set(detrand.New(system))
			x := newActor(who)
			var out [][][]byte
			for _, k := range ks {
				must(query(x, k))
				out = append(out, x.q)
			}
			return out
		}
		a, b := do(31), do(32)
		for i := range a {
			for j := range a[i] {
				if !eq(a[i][j], b[i][j]) {
					a = nil
					break
				}
			}
			if a == nil {
				break
			}
		}
		ownCache[key] = a
		return a
	}
	checkQuery := func(x *actor, what string, n int, ks ...int) {
		o := own(x.who, ks...)
		if o == nil {
			return
		}
		if len(x.q) != len(o[n]) {
			r.Failf("%s, %s: client %d makes %d queries, alone %d", w.name, what, x.who, len(x.q), len(o[n]))
		}
		for i := range x.q {
			if !eq(x.q[i], o[n][i]) {
				r.Failf("%s, %s: the query of client %d to server %d for item %d is not the one that it makes when it is alone", w.name, what, x.who, i, x.k)
			}
		}
	}
	judge := func(x *actor, what string, v interface{}, err error) {
		if err != nil || !sideOf().right(x.k, v) {
			r.Failf("%s, %s: client %d gets %v, %v for item %d", w.name, what, x.who, v, err, x.k)
		}
		r.Outcome("right")
	}
	wrong := func(a [][]byte) [][]byte {
		x := dups(a)
		if len(x[0]) > 0 {
			x[0] = x[0][:len(x[0])-1]
		}
		return x
	}

	// whole operations: each client queries k, reconstructs a wrong answer and
	// the right one, queries k2, reconstructs
	type op int
	const nops = 5
	do := func(x *actor, n int, ks [2]int, what string) {
		switch n {
		case 0, 3:
			if err := query(x, ks[n/3]); err != nil {
				r.Failf("%s, %s: client %d: %v", w.name, what, x.who, err)
			}
			checkQuery(x, what, n/3, ks[0], ks[1])
			serve(x)
		case 1:
			if _, err := x.c.rec(wrong(x.a)); err == nil {
				r.Failf("%s, %s: client %d accepts an answer that is too short", w.name, what, x.who)
			}
		case 2, 4:
			v, err := x.c.rec(dups(x.a))
			judge(x, what, v, err)
		}
		r.Trans(1)
	}
	for i := 0; i < w.items; i++ {
		for j := 0; j < w.items; j++ {
			i, j := i, j
			r.Case(fmt.Sprintf("%s: orders of whole operations, items %d and %d", w.name, i, j), func() {
				ks := [2][2]int{{i, (i + 1) % w.items}, {j, (j + 2) % w.items}}
				var rec func(order []int, a, b int)
				rec = func(order []int, a, b int) {
					if a == nops && b == nops {
						detrand.Set(detrand.New(33))
						xs := []*actor{newActor(0), newActor(1)}
						n := [2]int{}
						for _, who := range order {
							do(xs[who], n[who], ks[who], fmt.Sprintf("order %v", order))
							n[who]++
						}
						r.State(w.name, i, j, order)
						r.Trace()
						return
					}
					if a < nops {
						rec(append(append([]int{}, order...), 0), a+1, b)
					}
					if b < nops {
						rec(append(append([]int{}, order...), 1), a, b+1)
					}
				}
				rec(nil, 0, 0)
			})
		}
	}

	// preemptions
	ready := func(who, k int) *actor {
		x := newActor(who)
		must(query(x, k))
		serve(x)
		return x
	}
	// step of an actor: query (0) or reconstruct (1)
	prepare := func(who, k, step int) *actor {
		if step == 0 {
			x := newActor(who)
			x.k = k
			return x
		}
		return ready(who, k)
	}
	points := map[string][]int32{}
	patience := 10 * time.Millisecond
	pointsOf := func(who, k, step int) []int32 {
		key := fmt.Sprint(who, k, step)
		if p, ok := points[key]; ok {
			return p
		}
		x := prepare(who, k, step)
		t := time.Now()
		points[key] = sched.Points(func() {
			if step == 0 {
				query(x, k)
			} else {
				x.c.rec(dups(x.a))
			}
		})
		if d := 3 * time.Since(t); d > patience {
			patience = d
		}
		if len(points[key]) == 0 {
			r.Note("%s: the clients pass no instrumented statement: only whole operations are interleaved", w.name)
			r.Cap()
		}
		return points[key]
	}
	waits := 0
	check := func(ks, steps [2]int, plan ...sched.Seg) {
		what := fmt.Sprintf("steps %v for items %v, schedule %v", steps, ks, plan)
		detrand.Set(detrand.New(34))
		xs := []*actor{prepare(0, ks[0], steps[0]), prepare(1, ks[1], steps[1])}
		vs, errs, panics := make([]interface{}, 2), make([]error, 2), make([]interface{}, 2)
		var fs []func()
		for i := range xs {
			i := i
			fs = append(fs, func() {
				defer func() { panics[i] = recover() }()
				if steps[i] == 0 {
					errs[i] = query(xs[i], ks[i])
				} else {
					vs[i], errs[i] = xs[i].c.rec(dups(xs[i].a))
				}
			})
		}
		pat := patience
		if waits > 100 {
			pat = time.Millisecond
		}
		_, lost := sched.Run(plan, pat, fs...)
		waits += lost
		for i, x := range xs {
			if panics[i] != nil {
				r.Failf("%s, %s: client %d panics: %v", w.name, what, i, panics[i])
			}
			if steps[i] == 0 {
				if errs[i] != nil {
					r.Failf("%s, %s: client %d: %v", w.name, what, i, errs[i])
				}
				checkQuery(x, what, 0, x.k)
				serve(x)
				vs[i], errs[i] = x.c.rec(dups(x.a))
			}
			judge(x, what, vs[i], errs[i])
		}
		r.Trace()
		r.Trans(len(plan) + 2)
	}
	some := func(l []int32, most int) []int {
		if len(l) <= most {
			return stops(l, 0)
		}
		return thin(stops(l, 3), most)
	}
	most, pairs := 150, 12
	if w.slow {
		most, pairs = 100, 8
	}
	if r.Thorough {
		most, pairs = 1000, 60
	}
	for i := 0; i < w.items; i++ {
		for j := 0; j < w.items; j++ {
			if w.slow && !r.Thorough && i != j && (i+1)%w.items != j {
				continue
			}
			for steps := 0; steps < 4; steps++ {
				ks, st := [2]int{i, j}, [2]int{steps & 1, steps >> 1}
				r.Case(fmt.Sprintf("%s: steps %v for items %v, one gives way", w.name, st, ks), func() {
					for n, k := range some(pointsOf(0, ks[0], st[0]), most) {
						if r.Expired() {
							return
						}
						check(ks, st, sched.Seg{0, k}, sched.Seg{1, 0})
						r.State(w.name, ks, st, n)
					}
				})
				r.Case(fmt.Sprintf("%s: steps %v for items %v, both give way", w.name, st, ks), func() {
					for n, k := range some(pointsOf(0, ks[0], st[0]), pairs) {
						if r.Expired() {
							return
						}
						for _, l := range some(pointsOf(1, ks[1], st[1]), pairs) {
							check(ks, st, sched.Seg{0, k}, sched.Seg{1, l}, sched.Seg{0, 0})
						}
						r.State(w.name, ks, st, "pair", n)
					}
				})
			}
		}
	}
}

// drawsC28: concurrent draws never yield the same randomness.
func drawsC28(r *eng.R) {
	words := func(b []byte) []string {
		var out []string
		for i := 0; i+8 <= len(b); i += 8 {
			out = append(out, string(b[i:i+8]))
		}
		return out
	}
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	kinds := []struct {
		name string
		slow bool
		f    func() []string
	}{
		{"words", false, func() []string {
			var b []byte
			m := utils.MathRand()
			for i := 0; i < 3; i++ {
				w := make([]byte, 8)
				binary.LittleEndian.PutUint64(w, m.Uint64())
				b = append(b, w...)
			}
			return words(b)
		}},
		// as much as is read ahead, so that each task has to fetch more
		{"many words", false, func() []string {
			b := make([]byte, 8192)
			m := utils.MathRand()
			for i := 0; i < len(b); i += 8 {
				binary.LittleEndian.PutUint64(b[i:], m.Uint64())
			}
			return words(b)
		}},
		{"integers", false, func() []string {
			var out []string
			for i := 0; i < 2; i++ {
				out = append(out, words(padded(utils.RandInt(two64).Bytes(), 8))...)
			}
			return out
		}},
		{"generators", false, func() []string {
			b := make([]byte, 32)
			utils.RandomPRG().Read(b)
			return append(words(b), words(utils.RandomPRGKey()[:])...)
		}},
		{"elements", false, func() []string {
			return []string{string(be32(int(field.RandElement())))}
		}},
		{"vectors", true, func() []string {
			v := field.RandVector(4)
			var out []string
			for _, x := range v {
				out = append(out, string(be32(int(x))))
			}
			return out
		}},
		{"noise", true, func() []string {
			return []string{string(matrix.MatrixToBytes(matrix.NewGauss(1, 24)))}
		}},
		{"noise of 128 bits", true, func() []string {
			return []string{string(matrix.Matrix128ToBytes(matrix.NewGauss128(1, 24)))}
		}},
	}
	for x := range kinds {
		for y := range kinds {
			x, y := x, y
			if (kinds[x].name == "many words") != (kinds[y].name == "many words") {
				// what the other one draws is not a whole number of fetches
				continue
			}
			r.Case(fmt.Sprintf("draws of %s and %s", kinds[x].name, kinds[y].name), func() {
				px := sched.Points(func() { kinds[x].f() })
				py := sched.Points(func() { kinds[y].f() })
				if len(px) == 0 || len(py) == 0 {
					r.Note("the draws pass no instrumented statement")
					r.Cap()
				}
				most := 60
				if kinds[x].slow || kinds[y].slow {
					most = 25
				}
				if r.Thorough {
					most *= 5
				}
				pick := func(l []int32) []int {
					if len(l) <= most {
						return stops(l, 0)
					}
					return thin(stops(l, 3), most)
				}
				waits := 0
				run := func(third bool, plan ...sched.Seg) {
					got := make([][]string, 3)
					fs := []func(){func() { got[0] = kinds[x].f() }, func() { got[1] = kinds[y].f() }}
					if third {
						fs = append(fs, func() { got[2] = kinds[x].f() })
					}
					pat := 3 * time.Millisecond
					if waits > 50 {
						pat = 200 * time.Microsecond
					}
					tasks, lost := sched.Run(plan, pat, fs...)
					waits += lost
					for i, t := range tasks {
						if t.Panic != nil {
							r.Failf("draws of %s and %s, schedule %v: task %d panics: %v", kinds[x].name, kinds[y].name, plan, i, t.Panic)
						}
					}
					seen := map[string]int{}
					for i := range fs {
						for _, s := range got[i] {
							if o, ok := seen[s]; ok {
								r.Failf("draws of %s and %s, schedule %v: tasks %d and %d draw the same %x", kinds[x].name, kinds[y].name, plan, o, i, s)
							}
							seen[s] = i
						}
					}
					r.Trace()
					r.Trans(len(plan) + len(fs))
					r.Outcome("different")
				}
				for n, k := range pick(px) {
					if r.Expired() {
						return
					}
					run(false, sched.Seg{0, k}, sched.Seg{1, 0})
					for _, l := range pick(py) {
						run(l%3 == 0, sched.Seg{0, k}, sched.Seg{1, l}, sched.Seg{0, 0})
						if l%3 == 0 {
							run(true, sched.Seg{0, k}, sched.Seg{1, l}, sched.Seg{2, k}, sched.Seg{0, 0})
						}
					}
					r.State("draws", x, y, n)
				}
			})
		}
	}
}
