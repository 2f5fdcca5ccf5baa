package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc/metadata"
	protov2 "google.golang.org/protobuf/proto"
)

func init() {
	register(&eng.Check{
		ID:          "C31",
		Bounds:      "the command-line client (all four schemes; 2 servers, and 3 for single keys), the web front end and the client library; every public form of a query (a key; e-mail, prefix and suffix of a length; algorithm; creation time; both combinations), two to four searched texts of each, for every coalition of all servers but one: 64 runs of each, and in one process all sequences of two out of two queries; number of requests, metadata, lengths, all relations between at most two bits of what the coalition receives; and for each error or wrong answer of each server: no complete set of shares at all servers but one, and the same number of requests",
		Assumptions: []string{"what distinguishes two distributions is looked for among relations of at most two bits of the messages over 64 runs; the random generator of the system is not modelled"},
		QuickSec:    400,
		Run:         runC31,
	})
}

// heard is what a server can tell about a request, the encryption apart.
type heard struct {
	kind string
	meta string // names and values
	raw  []byte // the request
	msg  []byte // the query in it
}

func (s *stub) hear(ctx context.Context, kind string, m protov2.Message, q []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.listens {
		return
	}
	raw, err := protov2.Marshal(m)
	must(err)
	md, _ := metadata.FromIncomingContext(ctx)
	var l []string
	for k, vs := range md {
		for _, v := range vs {
			l = append(l, k+"="+strings.Replace(v, s.addr, "SERVER", -1))
		}
	}
	sort.Strings(l)
	s.heard = append(s.heard, heard{kind, strings.Join(l, "; "), raw, dup(q)})
}

func (s *stub) listen() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.listens, s.heard = true, nil
}

func (s *stub) told() []heard {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := s.heard
	s.heard = nil
	return out
}

// seenBy turns the requests that a server got into the part that must be the
// same for all queries of a form, and bits that must be distributed equally.
func seenBy(scheme string, hs []heard) (fixed string, bits []byte, err error) {
	for _, h := range hs {
		fixed += fmt.Sprintf("%s {%s} ", h.kind, h.meta)
		if h.kind == "info" || point(scheme) {
			fixed += fmt.Sprintf("%d bytes, ", len(h.raw))
			bits = append(bits, h.raw...)
			continue
		}
		// numbers have an encoding of variable length
		in := bytes.NewReader(h.msg)
		v := &query.FSS{}
		if err := gob.NewDecoder(in).Decode(v); err != nil {
			return "", nil, err
		}
		rest := append([]byte(nil), h.msg[len(h.msg)-in.Len():]...)
		rest = append(rest, outside(h.raw, h.msg)...)
		b := append(flat(v), rest...)
		fixed += fmt.Sprintf("%d bytes and %d, ", len(b)-len(rest), len(rest))
		bits = append(bits, b...)
	}
	return
}

// outside is what a request has besides the query.
func outside(raw, msg []byte) []byte {
	head := append([]byte{0x0a}, make([]byte, binary.MaxVarintLen64)...)
	head = append(head[:1+binary.PutUvarint(head[1:], uint64(len(msg)))], msg...)
	if i := bytes.Index(raw, head); i >= 0 {
		return append(append([]byte(nil), raw[:i]...), raw[i+len(head):]...)
	}
	return raw
}

// spoken is the searched text, in ways it could be written.
func spoken(text string) []string {
	if len(text) < 4 {
		return nil
	}
	return []string{text, hex.EncodeToString([]byte(text)), base64.StdEncoding.EncodeToString([]byte(text))[:len(text)*8/6], base64.URLEncoding.EncodeToString([]byte(text))[:len(text)*8/6]}
}

// rounds is what all servers saw in rounds of the same queries.
type rounds struct {
	name string
	text []string
	// round, server
	seen [][][]heard
}

// relations tells in short how the bits of the rounds are related.
func relations(views [][]byte) (string, bool) {
	words := make([]uint64, 8*len(views[0]))
	for t, v := range views {
		if 8*len(v) != len(words) {
			return "", false
		}
		for b := range words {
			words[b] |= uint64(v[b/8]>>uint(b%8)&1) << uint(t)
		}
	}
	first := map[uint64]int{}
	rel := fnv.New64a()
	count := 0
	for pos, w := range words {
		// among the 64 rounds
		neg := w&1 != 0
		if neg {
			w = ^w
		}
		p, ok := first[w]
		if ok || w == 0 {
			count++
			var b [24]byte
			binary.LittleEndian.PutUint64(b[:], uint64(pos))
			binary.LittleEndian.PutUint64(b[8:], uint64(p))
			if neg {
				b[16] = 1
			}
			if w == 0 {
				b[17] = 1
			}
			rel.Write(b[:])
		}
		if !ok {
			first[w] = pos
		}
	}
	return fmt.Sprintf("%d of %d bits related, %x", count, len(words), rel.Sum64()), true
}

const nRounds = 64

// asked: each round has a query.
func asked(r *eng.R, what string, all []rounds) {
	for _, q := range all {
		for t, round := range q.seen {
			n := 0
			for _, hs := range round {
				for _, h := range hs {
					if h.kind == "query" {
						n++
					}
				}
			}
			if n == 0 {
				r.Failf("%s: nothing is asked for %s in round %d", what, q.name, t)
			}
		}
	}
}

// compareRounds: what a coalition sees does not tell the queries apart.
func compareRounds(r *eng.R, what, scheme string, n int, all []rounds) {
	asked(r, what, all)
	// the same for all rounds and queries
	ref := make([]string, n)
	type place struct{ name, where string }
	fresh := map[string]place{}
	for qi, q := range all {
		for t, round := range q.seen {
			for i, hs := range round {
				f, _, err := seenBy(scheme, hs)
				if err != nil {
					r.Note("%s: queries have another encoding (%v): not compared", what, err)
					r.Cap()
					return
				}
				if qi == 0 && t == 0 {
					ref[i] = f
				}
				if f != ref[i] {
					r.Failf("%s: server %d sees of %s: %s; and of %s: %s", what, i, all[0].name, ref[i], q.name, f)
				}
				for _, h := range hs {
					if h.kind == "query" && len(h.msg) >= 16 {
						here := place{q.name, fmt.Sprintf("server %d in round %d", i, t)}
						if p, ok := fresh[string(h.msg)]; ok {
							r.Failf("%s: the query of %s (%s) is the one of %s (%s) again", what, here.name, here.where, p.name, p.where)
						}
						fresh[string(h.msg)] = here
					}
					for _, x := range q.text {
						for _, s := range spoken(x) {
							if strings.Contains(strings.ToLower(h.meta), strings.ToLower(s)) || bytes.Contains(h.raw, []byte(s)) {
								r.Failf("%s: server %d is told %q", what, i, x)
							}
						}
					}
				}
			}
		}
		r.State(what, q.name)
		r.Trans(len(q.seen) * n)
	}
	freshMAC(r, what, scheme, all)
	for out := 0; out < n; out++ {
		first := ""
		for qi, q := range all {
			var views [][]byte
			for _, round := range q.seen {
				var v []byte
				for i, hs := range round {
					if i != out {
						_, b, _ := seenBy(scheme, hs)
						v = append(v, b...)
					}
				}
				views = append(views, v)
			}
			rel, ok := relations(views)
			if !ok {
				r.Failf("%s: messages of different lengths for %s", what, q.name)
			}
			if qi == 0 {
				first = rel
			}
			if rel != first {
				r.Failf("%s: to all servers but %d, %s and %s look different (%s; %s)", what, out, all[0].name, q.name, first, rel)
			}
			r.State(what, q.name, "but", out)
		}
	}
	r.Trace()
	r.Outcome("no difference")
}

func decodeFSS(b []byte) (*query.FSS, bool) {
	v := &query.FSS{}
	err := gob.NewDecoder(bytes.NewReader(b)).Decode(v)
	return v, err == nil && v.Info != nil
}

func queriesIn(hs []heard) (out []heard) {
	for _, h := range hs {
		if h.kind == "query" {
			out = append(out, h)
		}
	}
	return
}

// freshMAC takes both messages of each authenticated complex query together: the
// keys of the authentication code in them are never the same, and random.
func freshMAC(r *eng.R, what, scheme string, all []rounds) {
	if scheme != "complexVPIR" {
		return
	}
	seen := map[string]string{}
	var draws [][]byte
	for _, q := range all {
		for t, round := range q.seen {
			q0, q1 := queriesIn(round[0]), queriesIn(round[1])
			for k := range q0 {
				if k >= len(q1) || k >= len(q.text) {
					break
				}
				y, n, ok := sharedValue(q0[k].msg, q1[k].msg, q.text[k])
				if !ok || n < 2 || y[0] != 1 {
					r.Note("%s: keys of another form: MAC keys not looked at", what)
					return
				}
				var mac []byte
				for _, v := range y[1:] {
					mac = append(mac, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				}
				here := fmt.Sprintf("%s in round %d", q.name, t)
				if x, ok := seen[string(mac)]; ok {
					r.Failf("%s: the MAC keys of %s are the ones of %s", what, here, x)
				}
				seen[string(mac)] = here
				draws = append(draws, mac)
			}
		}
	}
	if len(draws) < 100 {
		return
	}
	for i := 0; i < len(draws[0])/4; i++ {
		for j := 0; j < i; j++ {
			var l [][]byte
			for _, d := range draws {
				l = append(l, append(dup(d[4*i:4*i+4]), d[4*j:4*j+4]...))
			}
			if d := rankOf(l); d != 62 {
				r.Failf("%s: MAC keys %d and %d of %d queries span only %d of 62 dimensions", what, j, i, len(draws), d)
			}
		}
	}
	r.State(what, "mac", len(draws))
	r.Outcome("MAC keys fresh")
}

// formC31 is a set of queries that all have the same public form.
type formC31 struct {
	name string
	q    []want
}

func formsC31(scheme string) []formC31 {
	if point(scheme) {
		return []formC31{{"key", []want{
			{name: "alice@a.org", args: []string{"-id", "alice@a.org"}},
			{name: "f3@f.net", args: []string{"-id", "f3@f.net"}},
			{name: "jürg@ö.org", args: []string{"-id", "jürg@ö.org"}},
			{name: "absent nobody@a.org", args: []string{"-id", "nobody@a.org"}},
			{name: "absent \"NoBody K.\" <N@A.Org> ", args: []string{"-id", "\"NoBody K.\" <N@A.Org> "}},
		}}}
	}
	mk := func(name string, ids []string, args ...string) formC31 {
		f := formC31{name: name}
		for _, id := range ids {
			f.q = append(f.q, want{name: id, args: append([]string{"-id", id}, args...)})
		}
		return f
	}
	return []formC31{
		mk("email", []string{"bob@a.org", "No Body@ZZ.net", "a+b%41&c=d@a.org"}, "-target", "email"),
		mk("prefix", []string{"alice", "f1@f.", "~Zz:z"}, "-target", "email", "-from-start", "5"),
		mk("suffix", []string{"a.org", "f.net", "~Zz:z"}, "-target", "email", "-from-end", "5"),
		mk("algorithm", []string{"RSA", "DSA", "ElGamal"}, "-target", "algo"),
		mk("creation", []string{"2019", "2018", "1970"}, "-target", "creation"),
		mk("2019 and suffix", []string{"a.org", "f.net", "~Zz:z"}, "-and"),
		mk("average", []string{"a.org", "f.net", "~Zz:z"}, "-and", "-avg", "-from-end", "5"),
	}
}

func runC31(r *eng.R) {
	if !usable(r) {
		return
	}
	sv := services{}
	clientC31(r, sv)
	libraryC31(r, sv)
	libraryFaultsC31(r, sv)
	webC31(r, sv)
	interactiveC31(r, sv)
	r.Case("keys of the generator", func() {
		const n = 1024
		var ks, outs [][]byte
		for t := 0; t < n; t++ {
			ks = append(ks, utils.RandomPRGKey()[:])
			b := make([]byte, 64)
			must1(utils.RandomPRG().Read(b))
			outs = append(outs, b)
			r.State("draw", t)
		}
		for what, l := range map[string][][]byte{"RandomPRGKey": ks, "RandomPRG": outs} {
			if d := rankOf(l); d != 8*len(l[0]) {
				r.Failf("%s: %d draws span only %d of %d dimensions", what, n, d, 8*len(l[0]))
			}
		}
		r.Trans(2 * n)
		r.Trace()
	})
}

func must1(_ int, err error) { must(err) }

// rankOf is the dimension of the affine hull.
func rankOf(l [][]byte) int {
	var basis [][]byte
	var lead []int
	for _, x := range l[1:] {
		v := dup(x)
		for i := range v {
			v[i] ^= l[0][i]
		}
		for k, b := range basis {
			if v[lead[k]/8]>>uint(lead[k]%8)&1 == 1 {
				for i := range v {
					v[i] ^= b[i]
				}
			}
		}
		for i := 0; i < 8*len(v); i++ {
			if v[i/8]>>uint(i%8)&1 == 1 {
				basis, lead = append(basis, v), append(lead, i)
				break
			}
		}
	}
	return len(basis)
}

// workersC31 runs f for all rounds, each worker with a cluster of its own.
func workersC31(workers int, v *service, f func(c *cluster, dir string, round int)) {
	var wg sync.WaitGroup
	next := make(chan int, nRounds)
	for t := 0; t < nRounds; t++ {
		next <- t
	}
	close(next)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir, done := scratch()
			defer done()
			c := v.cluster(dir)
			defer c.stop()
			for t := range next {
				f(c, dir, t)
			}
		}()
	}
	wg.Wait()
}

func newRounds(name string, text ...string) rounds {
	return rounds{name: name, text: text, seen: make([][][]heard, nRounds)}
}

func (c *cluster) listen() {
	for _, s := range c.s {
		s.listen()
	}
}

func (c *cluster) told() [][]heard {
	var out [][]heard
	for _, s := range c.s {
		out = append(out, s.told())
	}
	return out
}

func clientC31(r *eng.R, sv services) {
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3} {
			if n > 2 && !point(scheme) {
				continue
			}
			for _, f := range formsC31(scheme) {
				scheme, n, f := scheme, n, f
				v := sv.get(scheme, n)
				r.Case(fmt.Sprintf("client %s, %d servers, %s", scheme, n, f.name), func() {
					var c complain
					var all []rounds
					for _, w := range f.q {
						all = append(all, newRounds(w.name, w.args[1]))
					}
					workersC31(2, v, func(cl *cluster, dir string, t int) {
						for qi, w := range f.q {
							cl.listen()
							got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + cl.conf(upTo(n))}, append([]string{"-scheme", scheme}, w.args...)...)
							if got.late {
								c.f("the client does not end: %s", got.tail())
							}
							all[qi].seen[t] = cl.told()
						}
					})
					c.end(r)
					compareRounds(r, "client "+f.name, scheme, n, all)
				})
			}
			// wrong answers
			for srv := 0; srv < n; srv++ {
				if n == 3 && srv != 1 {
					continue
				}
				scheme, n, srv := scheme, n, srv
				v := sv.get(scheme, n)
				r.Case(fmt.Sprintf("client %s, %d servers, wrong answers of server %d", scheme, n, srv), func() {
					var c complain
					var fs []func()
					for _, ft := range answerFaults() {
						for _, f := range formsC31(scheme) {
							ft, f := ft, f
							if !point(scheme) && f.name != "suffix" && f.name != "algorithm" {
								continue
							}
							fs = append(fs, func() {
								dir, done := scratch()
								defer done()
								first := ""
								for _, w := range f.q {
									cl := v.cluster(dir)
									ft.plant(cl, srv)
									cl.listen()
									runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + cl.conf(upTo(n))}, append([]string{"-scheme", scheme}, w.args...)...)
									told := cl.told()
									cl.stop()
									if why := together1(v, scheme, told, w.args[1]); why != "" {
										c.f("%s of server %d, %s: %s", ft.name, srv, w.name, why)
									}
									if !strings.HasPrefix(ft.name, "answer") {
										// the program may end before it has asked all
										continue
									}
									got := countsOf(told)
									if first == "" {
										first = got
									}
									if got != first {
										c.f("%s of server %d: requests for %s: %s; for %s: %s", ft.name, srv, f.q[0].name, first, w.name, got)
									}
								}
							})
							r.State("wrong", scheme, n, srv, ft.name, f.name)
							r.Trans(len(f.q) * n)
						}
					}
					together(3, fs)
					c.end(r)
					r.Trace()
					r.Outcome("no difference")
				})
			}
		}
	}
}

func countsOf(told [][]heard) string {
	out := ""
	for i, hs := range told {
		out += fmt.Sprintf("[%d:", i)
		for _, h := range hs {
			out += " " + h.kind
		}
		out += "]"
	}
	return out
}

// together1 tells whether all servers but one got all shares of a query.
func together1(v *service, scheme string, told [][]heard, text string) string {
	n := len(told)
	for out := 0; out < n; out++ {
		var msgs [][]byte
		for i, hs := range told {
			if i != out {
				for _, h := range queriesIn(hs) {
					msgs = append(msgs, h.msg)
				}
			}
		}
		if len(msgs) >= n && len(msgs) < 9 && completeSet(v, scheme, n, msgs, text, nil) {
			return fmt.Sprintf("the servers without server %d get all shares of the query (%s)", out, countsOf(told))
		}
	}
	return ""
}

// completeSet tells whether n of the messages are all shares of a query for text.
func completeSet(v *service, scheme string, n int, msgs [][]byte, text string, picked []int) bool {
	if len(picked) < n {
		for i := range msgs {
			used := false
			for _, j := range picked {
				used = used || i == j
			}
			if !used && completeSet(v, scheme, n, msgs, text, append(picked[:len(picked):len(picked)], i)) {
				return true
			}
		}
		return false
	}
	if !point(scheme) {
		y, _, ok := sharedValue(msgs[picked[0]], msgs[picked[1]], text)
		return ok && len(y) > 0 && y[0] == 1
	}
	xor := func(qs func(i int) []byte) []byte {
		var out []byte
		for i := 0; i < n; i++ {
			a, err := v.srv[i].AnswerBytes(dup(qs(i)))
			if err != nil {
				return nil
			}
			if out == nil {
				out = make([]byte, len(a))
			}
			for k := range a {
				if k < len(out) {
					out[k] ^= a[k]
				}
			}
		}
		return out
	}
	in := v.srv[0].DBInfo()
	qs, err := client.NewPIR(utils.RandomPRG(), in).QueryBytes(be32(hashOf(text, *in)), n)
	must(err)
	exp := xor(func(i int) []byte { return qs[i] })
	return exp != nil && bytes.Equal(exp, xor(func(i int) []byte { return msgs[picked[i]] }))
}

// sharedValue is what two messages have at the searched text.
func sharedValue(m0, m1 []byte, text string) (y []uint32, n int, ok bool) {
	const p = 1<<31 - 1
	a, ok0 := decodeFSS(m0)
	b, ok1 := decodeFSS(m1)
	if !ok0 || !ok1 {
		return nil, 0, false
	}
	var in []bool
	i := *a.Info
	switch {
	case i.Avg:
		in = i.ToAvgClientFSS(text).Input
	case i.And:
		in = i.ToAndClientFSS(text).Input
	case i.Target == query.UserId:
		in = i.ToEmailClientFSS(text).Input
	case i.Target == query.PubKeyAlgo:
		in = i.ToPKAClientFSS(text).Input
	default:
		in = i.ToCreationTimeClientFSS(text).Input
	}
	n = len(a.FssKey.FinalCW)
	if n < 1 || n != len(b.FssKey.FinalCW) || len(in) != len(a.FssKey.CW) || len(in) != len(b.FssKey.CW) {
		return nil, 0, false
	}
	s := fss.ServerInitialize(n)
	y0, y1 := make([]uint32, n), make([]uint32, n)
	s.EvaluatePF(0, a.FssKey, in, y0)
	s.EvaluatePF(1, b.FssKey, in, y1)
	for j := range y0 {
		y = append(y, uint32((uint64(y0[j])+uint64(y1[j]))%p))
	}
	return y, n, true
}

// answerFaults are wrong answers, and errors.
func answerFaults() []fault {
	var out []fault
	for _, f := range faults {
		if !f.info && !strings.Contains(f.name, "vanishes") {
			out = append(out, f)
		}
	}
	for k := 0; k < 8; k++ {
		k := k
		out = append(out, fault{name: fmt.Sprintf("answer with byte %d of 8 changed", k), query: func(s *stub, a []byte) ([]byte, error) {
			a = dup(a)
			if len(a) > 0 {
				a[k*(len(a)-1)/7] ^= 0x40
			}
			return a, nil
		}})
	}
	return out
}

// pairsOf are the sequences of two out of two queries.
var pairsOf = [][]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}}

func pairRounds(ws []want) []rounds {
	var all []rounds
	for _, p := range pairsOf {
		all = append(all, newRounds(ws[p[0]].name+", "+ws[p[1]].name, ws[p[0]].args[1], ws[p[1]].args[1]))
	}
	return all
}

func libraryC31(r *eng.R, sv services) {
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3, 4} {
			if n > 2 && !point(scheme) {
				continue
			}
			for _, f := range formsC31(scheme) {
				if !point(scheme) && f.name != "suffix" && f.name != "email" {
					continue
				}
				scheme, n, f := scheme, n, f
				v := sv.get(scheme, n)
				for k := 0; k+1 < len(f.q); k += 2 {
					ws := []want{f.q[k], f.q[len(f.q)-1]}
					r.Case(fmt.Sprintf("library %s, %d servers, %s: %s and %s", scheme, n, f.name, ws[0].name, ws[1].name), func() {
						all := pairRounds(ws)
						dir, done := scratch()
						defer done()
						cl := v.cluster(dir)
						defer cl.stop()
						a := connect(r, cl)
						infos, err := a.GetDBInfos()
						if err != nil {
							r.Failf("no information: %v", err)
						}
						for t := 0; t < nRounds; t++ {
							for pi, p := range pairsOf {
								cl.listen()
								var pc *client.PIR
								if point(scheme) {
									pc = client.NewPIR(utils.RandomPRG(), &infos[0])
								}
								for _, x := range p {
									if point(scheme) {
										a.GetKey(ws[x].args[1], infos[0], pc)
										continue
									}
									qs, err := predicateClient(scheme, &infos[0]).QueryBytes(clientQuery(f.name, ws[x].args[1]), 2)
									must(err)
									a.RunQueries(qs)
								}
								all[pi].seen[t] = cl.told()
							}
						}
						compareRounds(r, "library "+f.name, scheme, n, all)
					})
				}
			}
		}
	}
}

// libraryFaultsC31: shares stay where they belong when servers fail.
func libraryFaultsC31(r *eng.R, sv services) {
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3} {
			if n > 2 && !point(scheme) {
				continue
			}
			for srv := 0; srv < n; srv++ {
				scheme, n, srv := scheme, n, srv
				v := sv.get(scheme, n)
				r.Case(fmt.Sprintf("library %s, %d servers, server %d fails", scheme, n, srv), func() {
					dir, done := scratch()
					defer done()
					cl := v.cluster(dir)
					defer cl.stop()
					a := connect(r, cl)
					infos, err := a.GetDBInfos()
					if err != nil {
						r.Failf("no information: %v", err)
					}
					on := cl.s[srv].onQuery
					for _, ft := range answerFaults() {
						cl.s[srv].onQuery = on
						ft.plant(cl, srv)
						first := ""
						for _, text := range []string{"alice@a.org", "f3@f.net", "nobody@a.org"} {
							cl.listen()
							if point(scheme) {
								a.GetKey(text, infos[0], client.NewPIR(utils.RandomPRG(), &infos[0]))
							} else {
								qs, err := predicateClient(scheme, &infos[0]).QueryBytes(clientQuery("email", text), 2)
								must(err)
								a.RunQueries(qs)
							}
							told := cl.told()
							if why := together1(v, scheme, told, text); why != "" {
								r.Failf("%s, %s: %s", ft.name, text, why)
							}
							if got := countsOf(told); first == "" {
								first = got
							} else if got != first {
								r.Failf("%s: requests for alice@a.org: %s; for %s: %s", ft.name, first, text, got)
							}
						}
						r.State("library wrong", scheme, n, srv, ft.name)
						r.Trans(3 * n)
					}
					r.Trace()
					r.Outcome("shares apart")
				})
			}
		}
	}
}

func predicateClient(scheme string, in *database.Info) client.Client {
	if auth(scheme) {
		return client.NewPredicateAPIR(utils.RandomPRG(), in)
	}
	return client.NewPredicatePIR(utils.RandomPRG(), in)
}

func clientQuery(form, text string) []byte {
	i := &query.Info{Target: query.UserId}
	if form == "suffix" {
		i.FromEnd = len(text)
	}
	in, err := i.ToEmailClientFSS(text).Encode()
	must(err)
	return in
}

func webC31(r *eng.R, sv services) {
	if !haveWeb() {
		r.Note("the web program cannot be configured from outside: not explored")
		r.Cap()
		return
	}
	type webForm struct {
		name, scheme string
		q            []want
		body         func(text string) (path, body string)
	}
	w2 := func(a, b string) []want {
		return []want{{name: a, args: []string{"", a}}, {name: b, args: []string{"", b}}}
	}
	email := func(pos string) func(string) (string, string) {
		return func(t string) (string, string) { return "/count/email", form("position", pos, "text", t) }
	}
	key := func(t string) (string, string) { return "/retrieve", form("email", t) }
	forms := []webForm{
		{"key", "pointVPIR", w2("alice@a.org", "f3@f.net"), key},
		{"absent key", "pointVPIR", w2("nobody@a.org", "bob@a.org"), key},
		{"absent key with capitals", "pointVPIR", w2(" NoBody <N@A.Org>", "bob@a.org"), key},
		{"prefix", "complexVPIR", w2("alice", "zzzzz"), email("begin")},
		{"suffix", "complexVPIR", w2("f.net", "zz.zz"), email("end")},
		{"algorithm", "complexVPIR", w2("RSA", "DSA"), func(t string) (string, string) { return "/count/algo", form("algo", t) }},
		{"creation", "complexVPIR", w2("2019", "1970"), func(t string) (string, string) { return "/count/timestamp", form("year", t) }},
	}
	for _, f := range forms {
		f := f
		pt, cx := sv.get("pointVPIR", 2), sv.get("complexVPIR", 2)
		ask := func(w *web, text string) webResp {
			path, body := f.body(text)
			return w.do(webReq{name: f.name, method: "POST", path: path, body: body})
		}
		r.Case("web: "+f.name, func() {
			dir, done := scratch()
			defer done()
			w := startWeb(r, dir, pt, cx)
			if w == nil {
				return
			}
			defer w.stop()
			all := pairRounds(f.q)
			mine, other := w.pt, w.cx
			if !point(f.scheme) {
				mine, other = other, mine
			}
			for t := 0; t < nRounds; t++ {
				for pi, p := range pairsOf {
					mine.listen()
					other.listen()
					for _, x := range p {
						if a := ask(w, f.q[x].args[1]); a.err != nil {
							r.Failf("no response: %v", a.err)
						}
					}
					all[pi].seen[t] = mine.told()
					for i, hs := range other.told() {
						for _, h := range hs {
							if h.kind == "query" {
								r.Failf("server %d of the other kind gets a query for %s", i, f.q[p[0]].name)
							}
						}
					}
				}
			}
			compareRounds(r, "web "+f.name, f.scheme, 2, all)
			// wrong answers
			for _, ft := range answerFaults() {
				for srv := 0; srv < 2; srv++ {
					first := ""
					for x := range f.q {
						w.honest()
						ft.plant(mine, srv)
						mine.listen()
						other.listen()
						ask(w, f.q[x].args[1])
						told := mine.told()
						if why := together1([]*service{cx, pt}[map[bool]int{true: 1}[point(f.scheme)]], f.scheme, told, f.q[x].args[1]); why != "" {
							r.Failf("%s of server %d, %s: %s", ft.name, srv, f.q[x].name, why)
						}
						got := countsOf(append(told, other.told()...))
						if x == 0 {
							first = got
						}
						if got != first {
							r.Failf("%s of server %d: requests for %s: %s; for %s: %s", ft.name, srv, f.q[0].name, first, f.q[x].name, got)
						}
					}
					r.State("wrong", f.name, ft.name, srv)
					r.Trans(4)
				}
			}
			r.Trace()
		})
	}
}

// interactiveC31 has the same menus for both queries of a form.
func interactiveC31(r *eng.R, sv services) {
	if !haveInteractive(r) {
		return
	}
	acts, _ := interactiveActions(netKeys)
	by := map[string]action{}
	for _, a := range acts {
		by[a.name] = a
	}
	pick := func(q *complexQuery) string { return q.name }
	for _, f := range []struct {
		name, scheme string
		acts         []string
	}{
		{"key", "pointVPIR", []string{"download alice@a.org", "download dan@b.ch", "download absent nobody@a.org", "download absent ALICE@a.org"}},
		{"suffix", "complexVPIR", []string{pick(qEnds("t")), pick(qEnds("."))}},
		{"algorithm", "complexVPIR", []string{pick(qAlgo("RSA")), pick(qAlgo("DSA"))}},
		{"creation", "complexVPIR", []string{pick(qTime(2019)), pick(qTime(1970))}},
		{"average", "complexVPIR", []string{pick(qAvg("@f.net")), pick(qAvg("nobody"))}},
	} {
		f := f
		pt, cx := sv.get("pointVPIR", 2), sv.get("complexVPIR", 2)
		r.Case("interactive: "+f.name, func() {
			var all []rounds
			for _, n := range f.acts {
				a, ok := by[n]
				if !ok {
					r.Failf("no action %s", n)
				}
				var text []string
				for _, m := range a.moves {
					if m.text != "" {
						text = append(text, m.text)
					}
				}
				if text == nil {
					text = []string{a.moves[len(a.moves)-1].choose}
				}
				all = append(all, newRounds(n, text...))
			}
			var c complain
			var ws []*interactive
			for k := 0; k < 4; k++ {
				dir, done := scratch()
				defer done()
				w := startInteractive(dir, pt, cx)
				defer w.close()
				w.honest()
				w.start(r)
				ws = append(ws, w)
			}
			next := make(chan int, nRounds)
			for t := 0; t < nRounds; t++ {
				next <- t
			}
			close(next)
			var fs []func()
			for _, w := range ws {
				w := w
				mine := w.pt
				if !point(f.scheme) {
					mine = w.cx
				}
				fs = append(fs, func() {
					for t := range next {
						for qi, n := range f.acts {
							mine.listen()
							if why := w.act(r, by[n]); why != "" {
								c.f("%s: %s", n, why)
								return
							}
							all[qi].seen[t] = mine.told()
						}
					}
				})
			}
			together(len(fs), fs)
			c.end(r)
			compareRounds(r, "interactive "+f.name, f.scheme, 2, all)
		})
	}
}
