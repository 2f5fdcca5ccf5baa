package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	verifgate "github.com/si-co/vpir-code/aa_verif/gate"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
)

func init() {
	register(&eng.Check{
		ID:       "C20",
		Bounds:   "the real server program, held by gates at the start of each request and of each computation of an answer; all sequences of events (request, request held on arrival and let go later, cancellation of any request, end of a computation, signal to stop) with up to 3 requests (one of them malformed, or none), 1 held, 2 cancellations and 1 signal (thorough: 4 requests); with 10 to 12 requests waiting, all sequences of 3 more events",
		QuickSec: 600,
		Run:      runC20,
	})
}

// control is the explorer's side of the gates.
type control struct {
	ln   net.Listener
	path string
	mu   sync.Mutex
	cond *sync.Cond
	held []heldAt
	hold func(point string, id uint64) bool
	seen map[string]int
}

type heldAt struct {
	point string
	id    uint64
	c     net.Conn
}

func newControl(dir string) *control {
	g := &control{path: filepath.Join(dir, "gate"), seen: map[string]int{}}
	g.cond = sync.NewCond(&g.mu)
	ln, err := net.Listen("unix", g.path)
	must(err)
	g.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				line, err := bufio.NewReader(c).ReadString('\n')
				f := strings.Fields(line)
				if err != nil || len(f) != 2 {
					c.Close()
					return
				}
				id, _ := strconv.ParseUint(f[1], 16, 64)
				g.mu.Lock()
				defer g.mu.Unlock()
				g.seen[fmt.Sprint(f[0], id)]++
				if g.hold != nil && g.hold(f[0], id) {
					g.held = append(g.held, heldAt{f[0], id, c})
				} else {
					c.Close()
				}
				g.cond.Broadcast()
			}()
		}
	}()
	return g
}

func (g *control) close() {
	g.ln.Close()
	g.mu.Lock()
	for _, h := range g.held {
		h.c.Close()
	}
	g.held = nil
	g.mu.Unlock()
}

// wait waits for f, called with the lock held.
func (g *control) wait(d time.Duration, f func() bool) bool {
	t := time.AfterFunc(d, func() {
		g.mu.Lock()
		g.cond.Broadcast()
		g.mu.Unlock()
	})
	defer t.Stop()
	end := time.Now().Add(d)
	g.mu.Lock()
	defer g.mu.Unlock()
	for !f() {
		if !time.Now().Before(end) {
			return false
		}
		g.cond.Wait()
	}
	return true
}

// release lets the first one held at the point go, and tells which it was.
func (g *control) release(point string) (uint64, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for i, h := range g.held {
		if h.point == point {
			g.held = append(append([]heldAt(nil), g.held[:i]...), g.held[i+1:]...)
			h.c.Close()
			return h.id, true
		}
	}
	return 0, false
}

func (g *control) count(point string) int {
	n := 0
	for _, h := range g.held {
		if h.point == point {
			n++
		}
	}
	return n
}

// daemonReq is one request.
type daemonReq struct {
	q        []byte
	want     []byte // nil: an error
	cancel   func()
	canceled bool
	late     bool // sent after the signal
	held     bool // on arrival
	done     chan struct{}
	ans      []byte
	err      error
}

func (q *daemonReq) finished() bool {
	select {
	case <-q.done:
		return true
	default:
		return false
	}
}

// daemonWorld is what the requests are made of.
type daemonWorld struct {
	scheme string
	set    keySet
	v      *service
	qs     [][]byte
	want   [][]byte
}

func newDaemonWorld(scheme string) *daemonWorld {
	w := &daemonWorld{scheme: scheme, set: filled(keySet{"7", netKeys.certs[:6]}, 7)}
	n := 2
	if point(scheme) {
		w.set = netKeys
	}
	w.v = newService(scheme, n, w.set)
	info := *w.v.srv[0].DBInfo()
	in, err := qEnds("@a.org").q.Encode()
	must(err)
	for k := 0; len(w.qs) < 24; k++ {
		var c client.Client
		q := in
		switch scheme {
		case "complexPIR":
			c = client.NewPredicatePIR(utils.RandomPRG(), &info)
		case "complexVPIR":
			c = client.NewPredicateAPIR(utils.RandomPRG(), &info)
		default:
			c = client.NewPIR(utils.RandomPRG(), &info)
			q = be32(k % (info.NumRows * info.NumColumns))
		}
		qs, err := c.QueryBytes(q, n)
		must(err)
		a, err := w.v.srv[0].AnswerBytes(dup(qs[0]))
		must(err)
		fresh := true
		for _, b := range w.want {
			fresh = fresh && !eq(a, b)
		}
		if fresh || k > 500 {
			w.qs, w.want = append(w.qs, qs[0]), append(w.want, dup(a))
		}
	}
	return w
}

type daemonRun struct {
	r    *eng.R
	w    *daemonWorld
	p    *proc
	g    *control
	conn []*grpc.ClientConn
	reqs []*daemonReq
	term bool
	dir  string
	many bool // a connection for each request
	addr string
	hold map[uint64]bool
	log  []string
	gap  int // settling times that were used up
}

func startDaemon(r *eng.R, w *daemonWorld, many bool) (*daemonRun, func()) {
	dir, done := scratch()
	sks := filepath.Join(dir, "sks")
	must(os.Mkdir(sks, 0755))
	keys := w.set.keys()
	writeSplit(sks, keys, []int{len(keys)})
	d := &daemonRun{r: r, w: w, dir: dir, many: many, hold: map[uint64]bool{}}
	d.g = newControl(dir)
	d.g.hold = func(point string, id uint64) bool { return point == "answer" || d.hold[id] }
	conf := filepath.Join(dir, "config.toml")
	var addrs []string
	for try := 0; ; try++ {
		addrs = freeAddrs(2)
		writeConf(conf, addrs, upTo(2))
		d.p = spawn(dir, "server", []string{"VPIR_CONFIG=" + conf, "VPIR_SKS_ROOT=" + sks, "VERIF_GATE=" + d.g.path}, "-id", "0", "-scheme", w.scheme)
		if d.p.listening(addrs[0]) {
			break
		}
		d.p.kill()
		if try == 3 || !strings.Contains(d.p.output(), "in use") {
			r.Failf("the server does not start: %s", d.p.output())
		}
	}
	d.addr = addrs[0]
	return d, func() {
		for _, c := range d.conn {
			c.Close()
		}
		d.p.kill()
		d.g.close()
		done()
	}
}

func (d *daemonRun) client() proto.VPIRClient {
	if len(d.conn) == 0 || d.many {
		creds, err := utils.LoadServersCertificates()
		must(err)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		opts := []grpc.DialOption{grpc.WithTransportCredentials(credentials.TransportCredentials(creds))}
		if !d.term {
			opts = append(opts, grpc.WithBlock())
		}
		c, err := grpc.DialContext(ctx, d.addr, opts...)
		if err != nil {
			d.fail("cannot connect: %v", err)
		}
		d.conn = append(d.conn, c)
	}
	return proto.NewVPIRClient(d.conn[len(d.conn)-1])
}

func (d *daemonRun) fail(format string, a ...interface{}) {
	if d.p.wait(100 * time.Millisecond) {
		d.r.Failf("after %s: %s; the server ended with code %d: %s", strings.Join(d.log, " "), fmt.Sprintf(format, a...), d.p.code, d.p.output())
	}
	d.r.Failf("after %s: %s", strings.Join(d.log, " "), fmt.Sprintf(format, a...))
}

// settle gives the server time for what the explorer cannot see.
func settle() { time.Sleep(1500 * time.Microsecond) }

func (d *daemonRun) send(bad, held bool) {
	k := len(d.reqs)
	q := &daemonReq{q: d.w.qs[k], want: d.w.want[k], done: make(chan struct{}), late: d.term, held: held}
	if bad {
		q.q, q.want = append([]byte{byte(k), 0xff}, bytes.Repeat([]byte{byte(k)}, 7)...), nil
	}
	id := verifgate.ID(q.q)
	d.g.mu.Lock()
	d.hold[id] = held
	d.g.mu.Unlock()
	c := d.client()
	ctx, cancel := context.WithCancel(context.Background())
	q.cancel = cancel
	d.reqs = append(d.reqs, q)
	go func() {
		a, err := c.Query(ctx, &proto.QueryRequest{Query: q.q}, netOpts...)
		q.ans, q.err = a.GetAnswer(), err
		close(q.done)
		d.g.mu.Lock()
		d.g.cond.Broadcast()
		d.g.mu.Unlock()
	}()
	if d.term {
		settle()
		return
	}
	// it has arrived
	if !d.g.wait(20*time.Second, func() bool { return d.g.seen[fmt.Sprint("query", id)] > 0 || q.finished() }) {
		d.gap++
	}
	if !held {
		settle()
	}
}

// idle tells that no computation is held although a request waits for one.
func (d *daemonRun) expectWork() bool {
	for _, q := range d.reqs {
		if !q.held && !q.canceled && !q.late && !q.finished() {
			return true
		}
	}
	return false
}

// next waits until a computation is held, if there has to be one.
func (d *daemonRun) next() bool {
	if !d.expectWork() {
		settle()
		d.g.mu.Lock()
		defer d.g.mu.Unlock()
		return d.g.count("answer") > 0
	}
	return d.g.wait(20*time.Second, func() bool { return d.g.count("answer") > 0 || !d.expectWork() })
}

func (d *daemonRun) byID(id uint64) *daemonReq {
	for _, q := range d.reqs {
		if verifgate.ID(q.q) == id {
			return q
		}
	}
	return nil
}

// compute lets one computation go; its request gets the result.
func (d *daemonRun) compute() bool {
	if !d.next() {
		if d.expectWork() {
			d.fail("no request is processed, though some wait")
		}
		return false
	}
	id, ok := d.g.release("answer")
	if !ok {
		return false
	}
	q := d.byID(id)
	if q == nil {
		d.fail("the server processes what nobody asked for")
	}
	if !q.canceled && !q.late {
		d.result(q)
	} else {
		settle()
	}
	return true
}

func (d *daemonRun) result(q *daemonReq) {
	// nested computations of the same answer
	for end := time.Now().Add(20 * time.Second); !q.finished(); {
		d.g.mu.Lock()
		again := false
		for _, h := range d.g.held {
			again = again || h.point == "answer" && h.id == verifgate.ID(q.q)
		}
		d.g.mu.Unlock()
		if again {
			d.releaseID(verifgate.ID(q.q))
		}
		if time.Now().After(end) {
			d.fail("no reply to a request whose answer was computed")
		}
		select {
		case <-q.done:
		case <-time.After(time.Millisecond):
		}
	}
	d.judge(q)
}

func (d *daemonRun) releaseID(id uint64) {
	d.g.mu.Lock()
	defer d.g.mu.Unlock()
	for i, h := range d.g.held {
		if h.point == "answer" && h.id == id {
			d.g.held = append(append([]heldAt(nil), d.g.held[:i]...), d.g.held[i+1:]...)
			h.c.Close()
			return
		}
	}
}

func (d *daemonRun) judge(q *daemonReq) {
	k := 0
	for i := range d.reqs {
		if d.reqs[i] == q {
			k = i
		}
	}
	switch {
	case q.err == nil && !eq(q.ans, q.want):
		d.fail("request %d got another answer: %x", k, q.ans)
	case q.err == nil && q.want == nil:
		d.fail("malformed request %d got an answer: %x", k, q.ans)
	case q.err != nil && q.want != nil && !q.late && !q.canceled:
		d.fail("request %d got the error %v", k, q.err)
	case q.err != nil && q.want == nil && !q.late && !q.canceled:
		// the error of the query, not of the service
		if c := status.Code(q.err); c == codes.Unavailable || c == codes.Canceled {
			d.fail("malformed request %d got the error %v", k, q.err)
		}
	}
}

func (d *daemonRun) cancelReq(k int) {
	q := d.reqs[k]
	if q.canceled {
		return
	}
	was := q.finished()
	q.canceled = !was
	q.cancel()
	select {
	case <-q.done:
	case <-time.After(20 * time.Second):
		d.fail("canceled request %d does not return", k)
	}
	if q.err == nil {
		d.judge(q)
	}
	settle()
}

func (d *daemonRun) info() {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	in, err := d.client().DatabaseInfo(ctx, &proto.DatabaseInfoRequest{}, netOpts...)
	if err != nil {
		d.fail("no database information: %v", err)
	}
	if infoString(in) != infoString(d.w.v.info) {
		d.fail("wrong database information: %s", infoString(in))
	}
}

func (d *daemonRun) stop() {
	d.term = true
	d.p.cmd.Process.Signal(syscall.SIGTERM)
	settle()
	settle()
}

func (d *daemonRun) letIn() bool {
	d.g.wait(2*time.Second, func() bool { return d.g.count("query") > 0 || d.p.ended() })
	id, ok := d.g.release("query")
	if ok {
		if q := d.byID(id); q != nil {
			q.held = false
		}
		settle()
	}
	return ok
}

// drain lets everything go, and ends the server.
func (d *daemonRun) drain(everybody bool) {
	for {
		d.g.mu.Lock()
		n := d.g.count("query")
		d.g.mu.Unlock()
		if n == 0 || !d.letIn() {
			break
		}
	}
	d.log = append(d.log, "drain")
	for d.compute() {
	}
	// canceled requests may be processed late
	for _, q := range d.reqs {
		if q.late {
			select {
			case <-q.done:
				d.judge(q)
			case <-time.After(10 * time.Second):
				// it may be processed
				for d.compute() {
				}
				select {
				case <-q.done:
					d.judge(q)
				case <-time.After(20 * time.Second):
					d.fail("a request after the signal to stop gets no reply")
				}
			}
		}
		if !q.finished() {
			d.fail("a request got no reply")
		}
	}
	if !d.term {
		// the server is as good as before
		d.log = append(d.log, "one more request")
		d.send(false, false)
		d.compute()
		d.log = append(d.log, "stop")
		d.stop()
	}
	for end := time.Now().Add(20 * time.Second); !d.p.wait(time.Millisecond); {
		d.g.release("answer")
		if time.Now().After(end) {
			d.fail("the server does not end")
		}
	}
	if d.p.code != 0 {
		d.fail("the server does not end normally")
	}
}

// words lists the sequences of events: S send, B send a malformed query, H
// send and hold on arrival, E let it in, R end a computation, T stop, and the
// number of the request to cancel. Sequences that end with E or R are left
// out: that is what draining does.
func daemonWords(sends, bads, holds, cancels, terms, more int, r bool) []string {
	var out []string
	var rec func(w string, s, b, h, e, c, t, rel, m int)
	rec = func(w string, s, b, h, e, c, t, rel, m int) {
		if w != "" {
			if l := w[len(w)-1]; l != 'E' && l != 'R' {
				out = append(out, w)
			}
		}
		if m == 0 {
			return
		}
		if s < sends {
			rec(w+"S", s+1, b, h, e, c, t, rel, m-1)
			if b < bads {
				rec(w+"B", s+1, b+1, h, e, c, t, rel, m-1)
			}
			if h < holds && t == 0 {
				rec(w+"H", s+1, b, h+1, e, c, t, rel, m-1)
			}
		}
		if e < h {
			rec(w+"E", s, b, h, e+1, c, t, rel, m-1)
		}
		if rel < s-h+e && r {
			rec(w+"R", s, b, h, e, c, t, rel+1, m-1)
		}
		if c < cancels {
			for k := 0; k < s; k++ {
				if !strings.Contains(w, fmt.Sprint(k)) {
					rec(w+fmt.Sprint(k), s, b, h, e, c+1, t, rel, m-1)
				}
			}
		}
		if t < terms {
			rec(w+"T", s, b, h, e, c, t+1, rel, m-1)
		}
	}
	rec("", 0, 0, 0, 0, 0, 0, 0, more)
	return out
}

func (d *daemonRun) event(e rune, base int) {
	d.log = append(d.log, string(e))
	switch e {
	case 'S':
		d.send(false, false)
	case 'B':
		d.send(true, false)
	case 'H':
		d.send(false, true)
	case 'E':
		d.letIn()
	case 'R':
		d.compute()
	case 'T':
		d.stop()
	case 'I':
		d.info()
	default:
		k := int(e - '0')
		if k == 9 { // the last one
			k = len(d.reqs) - 1
		}
		if k < len(d.reqs) {
			d.cancelReq(k)
		}
	}
	// nobody waiting may be told to go away
	for _, q := range d.reqs {
		if q.finished() && !q.canceled {
			d.judge(q)
		}
	}
	waits := false
	for _, q := range d.reqs {
		waits = waits || !q.finished() && !q.canceled && !q.late
	}
	if waits && d.p.ended() {
		d.fail("the server ended before its requests")
	}
}

func runC20(r *eng.R) {
	if !usable(r) {
		return
	}
	worlds := map[string]*daemonWorld{}
	world := func(s string) *daemonWorld {
		if worlds[s] == nil {
			worlds[s] = newDaemonWorld(s)
		}
		return worlds[s]
	}
	gap := 0
	run := func(scheme, word string, prefill int, many bool) {
		r.Case(fmt.Sprintf("%s, %d waiting, connection per request %v, events %s", scheme, prefill, many, word), func() {
			d, done := startDaemon(r, world(scheme), many)
			defer done()
			for k := 0; k < prefill; k++ {
				d.send(false, false)
			}
			if prefill > 0 {
				d.log = append(d.log, fmt.Sprint(prefill, " requests"))
			}
			for i, e := range word {
				d.event(e, prefill)
				if i == 0 && !d.term {
					d.event('I', prefill)
				}
			}
			d.drain(true)
			gap += d.gap
			r.State(scheme, word, prefill, many)
			r.Trans(len(word) + prefill)
			r.Trace()
			oc := "served"
			if strings.Contains(word, "T") {
				oc = "served and stopped"
			}
			r.Outcome(oc)
		})
	}
	seen := map[string]bool{}
	for _, w := range append(daemonWords(2, 1, 1, 2, 1, 9, true), daemonWords(3, 1, 0, 1, 1, 8, true)...) {
		if !seen[w] {
			seen[w] = true
			run("complexVPIR", w, 0, len(seen)%2 == 0)
		}
	}
	for k, w := range daemonWords(2, 1, 1, 1, 1, 6, true) {
		run(netSchemes[k%3], w, 0, k%2 == 0)
	}
	for _, p := range []int{10, 11, 12} {
		// 0 is computed, 1 to 10 are in the queue, 9 means the last one
		for a := 0; a < 6; a++ {
			for b := 0; b < 6; b++ {
				for c := 0; c < 6; c++ {
					w := string("S019RT"[a]) + string("S019RT"[b]) + string("S019RT"[c])
					if strings.Count(w, "T") > 1 || strings.Count(w, "0") > 1 || strings.Count(w, "1") > 1 {
						continue
					}
					run("complexVPIR", w, p, (a+b+c)%2 == 0)
				}
			}
		}
	}
	if r.Thorough {
		for _, w := range daemonWords(3, 1, 1, 2, 1, 12, true) {
			if !seen[w] {
				seen[w] = true
				run("complexVPIR", w, 0, len(seen)%2 == 0)
			}
		}
		for _, w := range daemonWords(4, 1, 0, 1, 1, 12, true) {
			if !seen[w] {
				seen[w] = true
				run("complexPIR", w, 0, len(seen)%2 == 0)
			}
		}
	}
	if gap > 0 {
		r.Note("%d requests were not seen arriving", gap)
	}
}
