package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding/gzip"
)

func init() {
	register(&eng.Check{
		ID:       "C18",
		Bounds:   "all orders of the replies of 2 and 3 servers to both kinds of requests (4 servers: one kind; thorough both), all four schemes, all orders of the tables of the configuration, stored and absent emails and one complex query of each kind; the command-line client, the library and the client of the simulations; up to 3 rounds on one connection, and two rounds at once in all orders of their replies; each server failing or misbehaving in 8 ways before and 16 ways after it got its query, and every pair of them, as the first or the last one to reply",
		QuickSec: 400,
		Run:      runC18,
	})
}

var netOpts = []grpc.CallOption{
	grpc.UseCompressor(gzip.Name),
	grpc.MaxCallRecvMsgSize(1 << 30),
	grpc.MaxCallSendMsgSize(1 << 30),
}

// netKeys are nine keys to look for, and others that fill four buckets.
var netKeys = filled(keySet{"net", []certSpec{
	simple("alice@a.org", 0),
	simple("bob@a.org", 100),
	{t: time.Date(2019, 0, 0, 0, 0, 0, 0, time.UTC).Unix(), uids: []uidSpec{{name: "Carol", email: "carol@a.org", t: tBase}}},
	{t: time.Date(2018, 6, 1, 0, 0, 0, 0, time.UTC).Unix(), key: 1, uids: []uidSpec{{name: "Dan", email: "dan@b.ch", t: tBase}}},
	{raw: dsaCert},
	{raw: ecdsaCert},
	simple("jürg@ö.org", 700),
	simple("a+b%41&c=d@a.org", 900),
	// as many letters in common with jürg@ö.org as the bytes of one of them
	simple("jörg@aö.org", 90000000),
}}, 46)

func filled(s keySet, n int) keySet {
	for i := len(s.certs); i < n; i++ {
		s.certs = append(s.certs, simple(fmt.Sprintf("f%d@f.net", i), int64(1000*i)))
	}
	return s
}

func (s keySet) recs() []keyRec {
	var out []keyRec
	for _, c := range s.certs {
		a, t := algoOf(c)
		out = append(out, keyRec{c.email(), a, time.Unix(t, 0)})
	}
	return out
}

// want is what the command-line client has to print.
type want struct {
	name  string
	args  []string
	value string // canonical key, or number; empty: an error
}

func keyWants(set keySet, absent ...string) []want {
	var out []want
	for _, c := range set.certs {
		k, err := canonBytes(c.bytes())
		must(err)
		out = append(out, want{"id=" + c.email(), []string{"-id", c.email()}, k})
	}
	for _, e := range absent {
		out = append(out, want{"absent id=" + e, []string{"-id", e}, ""})
	}
	return out
}

func complexWants(set keySet, emails, starts, ends, orgs []string, years []int) []want {
	recs := set.recs()
	var out []want
	add := func(q *complexQuery, args ...string) {
		w := want{name: q.name, args: args}
		if v, err := q.eval(recs); err == nil {
			w.value = fmt.Sprint(v)
		}
		out = append(out, w)
	}
	for _, s := range emails {
		add(qEmail(s), "-target", "email", "-id", s)
	}
	for _, s := range starts {
		add(qStarts(s), "-target", "email", "-id", s, "-from-start", strconv.Itoa(len(s)))
	}
	for _, s := range ends {
		add(qEnds(s), "-target", "email", "-id", s, "-from-end", strconv.Itoa(len(s)))
	}
	for _, a := range []string{"RSA", "DSA", "ECDSA", "ElGamal"} {
		add(qAlgo(a), "-target", "algo", "-id", a)
	}
	for _, y := range years {
		add(qTime(y), "-target", "creation", "-id", strconv.Itoa(y))
	}
	for _, o := range orgs {
		add(qAnd(o), "-and", "-id", o)
		add(qAvg(o), "-and", "-avg", "-id", o, "-from-end", strconv.Itoa(len(o)))
	}
	return out
}

// judge compares a run of the command-line client with what was wanted.
func judge(r *eng.R, scheme string, w want, got ran) {
	if got.late {
		r.Failf("the client does not end: %s", got.tail())
	}
	if w.value == "" {
		mustFail(r, got)
		return
	}
	if got.code != 0 {
		r.Failf("the client fails (exit code %d): %s", got.code, got.tail())
	}
	if point(scheme) {
		k, err := armoredKey(got.out)
		if err != nil || k != w.value {
			r.Failf("the client printed another key than the one of %s (%v): %s", w.name, err, got.tail())
		}
		return
	}
	n, ok := got.number()
	if !ok || fmt.Sprint(n) != w.value {
		r.Failf("the client printed another number than %s: %s", w.value, got.tail())
	}
}

// mustFail: the client has to report an error, and no value.
func mustFail(r *eng.R, got ran) {
	switch {
	case got.late:
		r.Failf("the client does not end: %s", got.tail())
	case got.code == 0:
		r.Failf("the client reports success: %s", got.tail())
	case !got.silent():
		r.Failf("the client fails, but printed a result: %s", got.tail())
	case strings.Contains(got.out, "goroutine ") && (strings.Contains(got.out, "panic: ") || strings.Contains(got.out, "fatal error: ")):
		r.Failf("the client crashes: %s", got.tail())
	}
}

// reported: the fault has to be reported. A wrong answer may also go unnoticed
// if it makes no difference: then the result must be right.
func reported(r *eng.R, scheme string, ft fault, w want, got ran) {
	if ft.mild() && got.code == 0 {
		judge(r, scheme, w, got)
		return
	}
	mustFail(r, got)
}

// oneEach: each server got one query, of its own.
func oneEach(r *eng.R, c *cluster, rounds int) {
	seen := map[string]int{}
	for i, s := range c.s {
		q := s.seen()
		if len(q) != rounds {
			r.Failf("server %d got %d queries in %d rounds", i, len(q), rounds)
		}
		for _, b := range q {
			if len(c.s) > 2 {
				break // a few random bits each
			}
			if j, ok := seen[string(b)]; ok {
				r.Failf("servers %d and %d got the same query", j, i)
			}
			seen[string(b)] = i
		}
	}
}

type services map[string]*service

func (m services) get(scheme string, n int) *service {
	k := fmt.Sprint(scheme, n)
	if m[k] == nil {
		m[k] = newService(scheme, n, netKeys)
	}
	return m[k]
}

var netSchemes = []string{"pointPIR", "pointVPIR", "complexPIR", "complexVPIR"}

func wantsOf(scheme string) []want {
	if point(scheme) {
		return keyWants(keySet{"", netKeys.certs[:7]}, "nobody@a.org")
	}
	return complexWants(netKeys, []string{"bob@a.org"}, []string{"a"}, []string{"@a.org"}, []string{"org", "zz"}, []int{2019})
}

func runC18(r *eng.R) {
	if !usable(r) {
		return
	}
	sv := services{}
	unforced := 0
	checkForced := func(g ...*gate) {
		for _, x := range g {
			if !x.forced() {
				unforced++
			}
		}
	}

	// orders of replies, with the command-line client
	cli := func(scheme string, n int, w want, io, qo, co []int) {
		r.Case(fmt.Sprintf("client %s %d servers, %s, info replies %s, query replies %s, tables %s", scheme, n, w.name, permName(io), permName(qo), permName(co)), func() {
			dir, done := scratch()
			defer done()
			c := sv.get(scheme, n).cluster(dir)
			defer c.stop()
			gi, gq := c.gated(io, qo)
			got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(co)}, append([]string{"-scheme", scheme}, w.args...)...)
			judge(r, scheme, w, got)
			oneEach(r, c, 1)
			checkForced(gi, gq)
			r.State(scheme, n, w.name, io, qo, co)
			r.Trans(2 * n)
			r.Trace()
			r.Outcome(map[bool]string{true: "value", false: "error"}[w.value != ""])
		})
	}
	for _, scheme := range netSchemes {
		ws := wantsOf(scheme)
		k := 0
		for _, n := range []int{2, 3, 4} {
			if n > 2 && !point(scheme) {
				continue
			}
			ps := permutations(n)
			for a, io := range ps {
				if n == 4 && a > 0 && !r.Thorough {
					break
				}
				for b, qo := range ps {
					if n == 2 {
						for _, w := range ws {
							cli(scheme, n, w, io, qo, ps[(a+b)%len(ps)])
						}
						continue
					}
					k++
					cli(scheme, n, ws[k%len(ws)], io, qo, ps[(a+b)%len(ps)])
					if r.Thorough {
						for d := 1; d < 4; d++ {
							cli(scheme, n, ws[(k+d)%len(ws)], io, qo, ps[(a+b+d)%len(ps)])
						}
					}
				}
			}
		}
	}

	// failures, with the command-line client
	for _, scheme := range netSchemes {
		w := wantsOf(scheme)[0]
		for _, n := range []int{2, 3} {
			if n == 3 && !point(scheme) {
				continue
			}
			for f := 0; f < n; f++ {
				for _, last := range []bool{false, true} {
					if !r.Thorough && n == 3 && f != 1 && last {
						continue
					}
					order := []int{}
					for i := 0; i < n; i++ {
						if i != f {
							order = append(order, i)
						}
					}
					if last {
						order = append(order, f)
					} else {
						order = append([]int{f}, order...)
					}
					for _, ft := range faults {
						if ft.auth && !auth(scheme) {
							continue
						}
						ft, scheme, n, f := ft, scheme, n, f
						r.Case(fmt.Sprintf("client %s %d servers, server %d fails: %s, replies %s", scheme, n, f, ft.name, permName(order)), func() {
							dir, done := scratch()
							defer done()
							c := sv.get(scheme, n).cluster(dir)
							defer c.stop()
							ft.plant(c, f)
							c.gated(order, order)
							got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(upTo(n))}, append([]string{"-scheme", scheme}, w.args...)...)
							reported(r, scheme, ft, w, got)
							for i, s := range c.s {
								q := len(s.seen())
								if q > 1 || ft.info && q > 0 {
									r.Failf("server %d got %d queries", i, q)
								}
							}
							r.State(scheme, n, f, ft.name, last)
							r.Trans(2 * n)
							r.Trace()
							r.Outcome("fault reported")
						})
					}
				}
			}
		}
		// two failures
		for a, f1 := range faults {
			for b, f2 := range faults {
				if f1.info != f2.info || a == b || f1.mild() || f2.mild() || f1.other || f2.other || (a+b)%3 != 0 && !r.Thorough {
					continue
				}
				f1, f2, scheme := f1, f2, scheme
				r.Case(fmt.Sprintf("client %s, both servers fail: %s and %s", scheme, f1.name, f2.name), func() {
					dir, done := scratch()
					defer done()
					c := sv.get(scheme, 2).cluster(dir)
					defer c.stop()
					f1.plant(c, 0)
					f2.plant(c, 1)
					got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(upTo(2))}, append([]string{"-scheme", scheme}, w.args...)...)
					mustFail(r, got)
					r.State(scheme, f1.name, f2.name)
					r.Trans(4)
					r.Trace()
					r.Outcome("fault reported")
				})
			}
		}
	}
	runSimClient(r, sv, checkForced)
	runManager(r, sv, checkForced)
	if unforced > 0 {
		r.Note("%d orders could not be enforced, as the client does not have its requests under way at once", unforced)
	}
}

type fault struct {
	name  string
	info  bool // before queries
	auth  bool // only authenticated schemes detect it
	long  bool // all that is needed is there
	other bool // involves the other servers
	info1 func(s *stub) (*proto.DatabaseInfoResponse, error)
	query func(s *stub, a []byte) ([]byte, error)
}

// mild: the result may be right in spite of it.
func (f fault) mild() bool { return f.auth || f.long }

func (f fault) plant(c *cluster, i int) {
	s := c.s[i]
	if f.info {
		s.onInfo = func() (*proto.DatabaseInfoResponse, error) { return f.info1(s) }
		return
	}
	on := s.onQuery
	s.onQuery = func(q []byte) ([]byte, error) {
		a, err := on(q)
		if err != nil {
			return nil, err
		}
		return f.query(s, a)
	}
}

var faults = allFaults()

func allFaults() []fault {
	var out []fault
	for _, c := range []codes.Code{codes.Internal, codes.Unavailable, codes.DeadlineExceeded, codes.Canceled, codes.ResourceExhausted, codes.Unimplemented, codes.Unauthenticated} {
		c := c
		out = append(out, fault{name: "info: " + c.String(), info: true,
			info1: func(*stub) (*proto.DatabaseInfoResponse, error) { return nil, rpcErr(c) }})
		out = append(out, fault{name: "query: " + c.String(),
			query: func(*stub, []byte) ([]byte, error) { return nil, rpcErr(c) }})
	}
	out = append(out, fault{name: "info: vanishes", info: true, info1: func(s *stub) (*proto.DatabaseInfoResponse, error) {
		s.lis.Listener.Close()
		s.lis.drop()
		return nil, rpcErr(codes.Aborted)
	}})
	out = append(out, fault{name: "query: vanishes", query: func(s *stub, a []byte) ([]byte, error) {
		s.lis.Listener.Close()
		s.lis.drop()
		return a, nil
	}})
	bad := func(name string, auth bool, f func(a []byte) []byte) {
		out = append(out, fault{name: "answer " + name, auth: auth, long: name == "one byte long" || name == "twice", query: func(s *stub, a []byte) ([]byte, error) { return f(dup(a)), nil }})
	}
	bad("empty", false, func(a []byte) []byte { return nil })
	bad("of one byte", false, func(a []byte) []byte { return a[:1] })
	bad("one byte short", false, func(a []byte) []byte { return a[:len(a)-1] })
	bad("one byte long", false, func(a []byte) []byte { return append(a, 0) })
	bad("twice", false, func(a []byte) []byte { return append(a, a...) })
	bad("of zeros", true, func(a []byte) []byte { return make([]byte, len(a)) })
	for _, at := range []int{0, 1, 2} {
		at := at
		bad(fmt.Sprint("with a bit flipped at ", at), true, func(a []byte) []byte {
			a[at*(len(a)-1)/2] ^= 1
			return a
		})
	}
	bad("of another query", true, func(a []byte) []byte {
		for i := range a {
			a[i] = byte(i*37 + 11)
		}
		return a
	})
	return out
}

// the client of the simulations
func runSimClient(r *eng.R, sv services, checkForced func(...*gate)) {
	type sim struct {
		name, scheme string
		args         func(v *service) []string
		rounds       int
	}
	pointArgs := func(v *service) []string {
		return []string{"-repetitions", "2", "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(8 * v.info.BlockLength)}
	}
	sims := []sim{
		{"pir-classic", "pointPIR", pointArgs, 2},
		{"pir-merkle", "pointVPIR", pointArgs, 2},
		{"fss-classic", "complexPIR", func(*service) []string { return []string{"-repetitions", "2", "-inputSize", "3"} }, 2},
		{"fss-auth", "complexVPIR", func(*service) []string { return []string{"-repetitions", "2", "-inputSize", "3"} }, 2},
	}
	for _, s := range sims {
		for _, n := range []int{2, 3} {
			if n == 3 && !point(s.scheme) {
				continue
			}
			for _, io := range permutations(n) {
				for _, qo := range permutations(n) {
					s, n, io, qo := s, n, io, qo
					r.Case(fmt.Sprintf("simulation client %s %d servers, info replies %s, query replies %s", s.name, n, permName(io), permName(qo)), func() {
						dir, done := scratch()
						defer done()
						v := sv.get(s.scheme, n)
						c := v.cluster(dir)
						defer c.stop()
						gi, gq := c.gated(io, qo)
						got := runProgram("multi", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(qo)},
							append([]string{"-scheme", s.name, "-numServers", fmt.Sprint(n)}, s.args(v)...)...)
						if got.late || got.code != 0 {
							r.Failf("the client fails (exit code %d): %s", got.code, got.tail())
						}
						oneEach(r, c, s.rounds)
						checkForced(gi, gq)
						r.State(s.name, n, io, qo)
						r.Trans(3 * n)
						r.Trace()
						r.Outcome("simulation done")
					})
				}
			}
			for f := 0; f < n; f++ {
				for _, ft := range faults {
					if ft.auth && !auth(s.scheme) || n == 3 && !r.Thorough {
						continue
					}
					s, n, f, ft := s, n, f, ft
					r.Case(fmt.Sprintf("simulation client %s %d servers, server %d fails: %s", s.name, n, f, ft.name), func() {
						dir, done := scratch()
						defer done()
						v := sv.get(s.scheme, n)
						c := v.cluster(dir)
						defer c.stop()
						ft.plant(c, f)
						got := runProgram("multi", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(upTo(n))},
							append([]string{"-scheme", s.name, "-numServers", fmt.Sprint(n)}, s.args(v)...)...)
						if !ft.mild() || got.code != 0 {
							mustFail(r, got)
						}
						r.State(s.name, n, f, ft.name)
						r.Trans(2 * n)
						r.Trace()
						r.Outcome("fault reported")
					})
				}
			}
		}
	}
}

func connect(r *eng.R, c *cluster) manager.Actor {
	cfg, err := utils.LoadConfig(c.conf(upTo(len(c.s))))
	must(err)
	m := manager.NewManager(*cfg, netOpts)
	a, err := m.Connect()
	if err != nil {
		r.Failf("cannot connect: %v", err)
	}
	return a
}

func sameSet(a, b [][]byte) bool {
	m := map[string]int{}
	for _, x := range a {
		m[string(x)]++
	}
	for _, x := range b {
		m[string(x)]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// the library
func runManager(r *eng.R, sv services, checkForced func(...*gate)) {
	mark := func(round, i int) []byte { return []byte(fmt.Sprintf("query %d for server %d", round, i)) }
	resp := func(i int, q []byte) []byte { return []byte(fmt.Sprintf("answer of %d to %s", i, q)) }
	plain := func(n int, dir string) *cluster {
		return newCluster(n, dir, func(int) *proto.DatabaseInfoResponse { return &proto.DatabaseInfoResponse{NumRows: 1} },
			func(i int, q []byte) ([]byte, error) { return resp(i, q), nil })
	}
	max := 4
	if r.Thorough {
		max = 5
	}
	for n := 1; n <= max; n++ {
		for _, order := range permutations(n) {
			n, order := n, order
			r.Case(fmt.Sprintf("library, %d servers, replies %s", n, permName(order)), func() {
				dir, done := scratch()
				defer done()
				c := plain(n, dir)
				defer c.stop()
				a := connect(r, c)
				for round := 0; round < 3; round++ {
					for i, s := range c.s {
						i := i
						s.onQuery = func(q []byte) ([]byte, error) { return resp(i, q), nil }
					}
					_, gq := c.gated(order, order)
					var qs, exp [][]byte
					for i := 0; i < n; i++ {
						qs = append(qs, mark(round, i))
						exp = append(exp, resp(i, qs[i]))
					}
					got := a.RunQueries(dups(qs))
					if !sameSet(got, exp) {
						r.Failf("round %d: answers %q, want %q", round, got, exp)
					}
					for i, s := range c.s {
						if q := s.seen(); len(q) != round+1 || !eq(q[round], qs[i]) {
							r.Failf("round %d: server %d got %q", round, i, q)
						}
					}
					checkForced(gq)
					r.State("lib", n, order, round)
					r.Trans(n)
					r.Trace()
				}
				r.Outcome("answers of all")
			})
		}
	}
	// two rounds at once
	for _, n := range []int{2, 3} {
		perms := permutations(2 * n)
		for pi, order := range perms {
			if n == 3 && !r.Thorough && pi%18 != 0 {
				continue
			}
			n, order := n, order
			r.Case(fmt.Sprintf("library, two rounds at once with %d servers, replies %s", n, permName(order)), func() {
				dir, done := scratch()
				defer done()
				c := plain(n, dir)
				defer c.stop()
				g := newGate(order)
				for i, s := range c.s {
					i, s := i, s
					s.onQuery = func(q []byte) ([]byte, error) {
						k := i
						if strings.HasPrefix(string(q), "query 1") {
							k += n
						}
						g.pass(k)
						// the next one goes a moment later
						time.AfterFunc(3*time.Millisecond, func() { g.ended(k) })
						return resp(i, q), nil
					}
				}
				a := connect(r, c)
				go g.run()
				var wg sync.WaitGroup
				got := make([][][]byte, 2)
				for round := 0; round < 2; round++ {
					round := round
					wg.Add(1)
					go func() {
						defer wg.Done()
						var qs [][]byte
						for i := 0; i < n; i++ {
							qs = append(qs, mark(round, i))
						}
						got[round] = a.RunQueries(qs)
					}()
				}
				wg.Wait()
				for round := 0; round < 2; round++ {
					var exp [][]byte
					for i := 0; i < n; i++ {
						exp = append(exp, resp(i, mark(round, i)))
					}
					if !sameSet(got[round], exp) {
						r.Failf("round %d: answers %q, want %q", round, got[round], exp)
					}
				}
				checkForced(g)
				r.State("two", n, order)
				r.Trans(2 * n)
				r.Trace()
				r.Outcome("answers of all")
			})
		}
	}
	// retrieval of keys
	for _, scheme := range []string{"pointPIR", "pointVPIR"} {
		ws := keyWants(keySet{"", netKeys.certs[:7]}, "nobody@a.org")
		for _, n := range []int{2, 3, 4} {
			for k, order := range permutations(n) {
				for j, w := range ws {
					if n > 2 && (j+k)%3 != 0 && !r.Thorough {
						continue
					}
					scheme, n, order, w := scheme, n, order, w
					r.Case(fmt.Sprintf("library %s, %d servers, %s, replies %s", scheme, n, w.name, permName(order)), func() {
						dir, done := scratch()
						defer done()
						c := sv.get(scheme, n).cluster(dir)
						defer c.stop()
						gi, gq := c.gated(order, order)
						a := connect(r, c)
						infos, err := a.GetDBInfos()
						if err != nil {
							r.Failf("no information: %v", err)
						}
						if len(infos) != n {
							r.Failf("information of %d servers", len(infos))
						}
						key := &utils.PRGKey{1, byte(n), 7}
						got, err := a.GetKey(w.args[1], infos[0], client.NewPIR(utils.NewPRG(key), &infos[0]))
						judgeKey(r, w, got, err)
						if n > 2 {
							// the randomness of two-server queries is not the reader's
							exp, err := client.NewPIR(utils.NewPRG(key), &infos[0]).QueryBytes(be32(hashOf(w.args[1], infos[0])), n)
							must(err)
							for i, s := range c.s {
								if q := s.seen(); len(q) != 1 || !eq(q[0], exp[i]) {
									r.Failf("server %d did not get the query for it, but %x, want %x", i, q, exp[i])
								}
							}
						}
						oneEach(r, c, 1)
						checkForced(gi, gq)
						r.State("lib", scheme, n, w.name, order)
						r.Trans(2 * n)
						r.Trace()
						r.Outcome("library key")
					})
				}
			}
			for f := 0; f < n && n < 4; f++ {
				for _, ft := range faults {
					if ft.auth && !auth(scheme) {
						continue
					}
					scheme, n, f, ft := scheme, n, f, ft
					w := ws[0]
					r.Case(fmt.Sprintf("library %s, %d servers, server %d fails: %s", scheme, n, f, ft.name), func() {
						dir, done := scratch()
						defer done()
						c := sv.get(scheme, n).cluster(dir)
						defer c.stop()
						oi, oq := c.s[f].onInfo, c.s[f].onQuery
						vanishes := strings.Contains(ft.name, "vanishes")
						a := connect(r, c)
						for round := 0; round < 3; round++ {
							// only the second round fails
							c.s[f].onInfo, c.s[f].onQuery = oi, oq
							if round == 1 {
								ft.plant(c, f)
							}
							infos, err := a.GetDBInfos()
							if round == 1 && ft.info {
								if err == nil {
									r.Failf("the failure is not reported: %v", infos)
								}
								if vanishes {
									break
								}
								continue
							}
							if err != nil {
								r.Failf("round %d: no information: %v", round, err)
							}
							got, err := a.GetKey(w.args[1], infos[0], client.NewPIR(utils.RandomPRG(), &infos[0]))
							if round == 1 {
								if err == nil && ft.mild() {
									judgeKey(r, w, got, err)
									continue
								}
								if err == nil {
									r.Failf("the failure is not reported, but key %q", got)
								}
								if got != "" {
									r.Failf("the failure is reported (%v) along with key %q", err, got)
								}
								if vanishes {
									break
								}
								continue
							}
							judgeKey(r, w, got, err)
						}
						r.State("lib", scheme, n, f, ft.name)
						r.Trans(6 * n)
						r.Trace()
						r.Outcome("library fault reported")
					})
				}
			}
		}
	}
	// complex queries through the library
	for _, scheme := range []string{"complexPIR", "complexVPIR"} {
		for f := 0; f < 2; f++ {
			for _, ft := range faults {
				if ft.info || ft.auth && !auth(scheme) {
					continue
				}
				scheme, f, ft := scheme, f, ft
				r.Case(fmt.Sprintf("library %s, server %d fails: %s", scheme, f, ft.name), func() {
					dir, done := scratch()
					defer done()
					c := sv.get(scheme, 2).cluster(dir)
					defer c.stop()
					oq := c.s[f].onQuery
					a := connect(r, c)
					infos, err := a.GetDBInfos()
					if err != nil {
						r.Failf("no information: %v", err)
					}
					q := qEnds("@a.org")
					exp, _ := q.eval(netKeys.recs())
					in, err := q.q.Encode()
					must(err)
					for round := 0; round < 2; round++ {
						c.s[f].onQuery = oq
						if round == 1 {
							ft.plant(c, f)
						}
						var cl client.Client = client.NewPredicatePIR(utils.RandomPRG(), &infos[0])
						if auth(scheme) {
							cl = client.NewPredicateAPIR(utils.RandomPRG(), &infos[0])
						}
						qs, err := cl.QueryBytes(in, 2)
						must(err)
						got, err := cl.ReconstructBytes(a.RunQueries(qs))
						if round == 1 {
							if err == nil && !(ft.mild() && got == exp) {
								r.Failf("the failure is not reported, but %v", got)
							}
						} else if err != nil || got != exp {
							r.Failf("round %d: %v, %v instead of %d", round, got, err, exp)
						}
					}
					r.State("lib", scheme, f, ft.name)
					r.Trans(6)
					r.Trace()
					r.Outcome("library fault reported")
				})
			}
		}
	}
}

func judgeKey(r *eng.R, w want, got string, err error) {
	if w.value == "" {
		if err == nil {
			r.Failf("%s: found %q", w.name, got)
		}
		return
	}
	if err != nil {
		r.Failf("%s: %v", w.name, err)
	}
	if k, err := armoredKey(got); err != nil || k != w.value {
		r.Failf("%s: another key (%v) %q", w.name, err, got)
	}
}

func hashOf(id string, info database.Info) int {
	return int(database.HashToIndex(id, info.NumRows*info.NumColumns))
}
