package main

import (
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc/codes"
)

func init() {
	register(&eng.Check{
		ID:       "C22",
		Bounds:   "the real web program in front of servers under control; all sequences of two steps (thorough: also of three, over fewer steps) of a request and a condition of the backend: 44 requests with everything up, and 7 requests under 12 conditions (each server reporting an error or nothing or other information, lying, answering too little), in one process per first step; a server that vanishes and comes back; two requests at once in all orders of the four replies, in both phases, and one of two failing; many requests at once",
		QuickSec: 500,
		Run:      runC22,
	})
}

// webReq is a request and what it has to give: the canonical key, the count,
// "absent", "error", "page", or "any" (an error, or the count 0).
type webReq struct {
	name, method, path, body, ctype string
	kind, value                     string
}

func form(kv ...string) string {
	v := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		v.Add(kv[i], kv[i+1])
	}
	return v.Encode()
}

func webRequests(set keySet) (all, few []webReq) {
	recs := set.recs()
	post := func(name, path, body, kind, value string) webReq {
		return webReq{name: name, method: "POST", path: path, body: body, kind: kind, value: value}
	}
	key := func(c certSpec) webReq {
		k, err := canonBytes(c.bytes())
		must(err)
		return post("retrieve "+c.email(), "/retrieve", form("email", c.email()), "key", k)
	}
	count := func(q *complexQuery, path, body string) webReq {
		v, err := q.eval(recs)
		must(err)
		return post(q.name, path, body, "count", fmt.Sprint(v))
	}
	begin := func(s string) webReq {
		return count(qStarts(s), "/count/email", form("position", "begin", "text", s))
	}
	end := func(s string) webReq {
		return count(qEnds(s), "/count/email", form("position", "end", "text", s))
	}
	algo := func(a string) webReq { return count(qAlgo(a), "/count/algo", form("algo", a)) }
	year := func(y int) webReq { return count(qTime(y), "/count/timestamp", form("year", fmt.Sprint(y))) }

	few = []webReq{
		key(set.certs[0]),
		post("retrieve absent", "/retrieve", form("email", "nobody@a.org"), "absent", ""),
		end("@a.org"),
		algo("RSA"),
		year(2019),
		post("retrieve nothing", "/retrieve", form("email", ""), "error", ""),
		post("year not a number", "/count/timestamp", form("year", "201x"), "error", ""),
	}
	for _, c := range set.certs[1:9] {
		all = append(all, key(c))
	}
	all = append(all,
		post("retrieve absent close", "/retrieve", form("email", "alice@a.orgx"), "absent", ""),
		post("retrieve absent special", "/retrieve", form("email", "é+&=% \x00<b>@a.org"), "absent", ""),
		post("retrieve long", "/retrieve", form("email", strings.Repeat("a", 3000)), "absent", ""),
		post("retrieve without email", "/retrieve", "", "error", ""),
		post("retrieve malformed", "/retrieve", "email=%zz", "error", ""),
		webReq{name: "GET retrieve", method: "GET", path: "/retrieve?email=alice%40a.org", kind: "error"},
		webReq{name: "retrieve not a form", method: "POST", path: "/retrieve", body: `{"email":"alice@a.org"}`, ctype: "application/json", kind: "error"},
		webReq{name: "retrieve wrong type", method: "POST", path: "/retrieve", body: "email=a", ctype: ";;", kind: "error"},
		begin("a"), begin("alice@a.org"), begin("zz"), begin("f1"), begin(strings.Repeat("x", 600)), begin("é"), begin("jü"), begin("a+b%41&"), begin("a b"),
		end("t"), end("@ö.org"), end("&c=d@a.org"), end("g"), end("alice@a.org"), end("."),
		post("count unknown position", "/count/email", form("position", "middle", "text", "a"), "error", ""),
		post("count no position", "/count/email", form("text", "a"), "error", ""),
		post("count no text", "/count/email", form("position", "begin"), "error", ""),
		post("count empty text", "/count/email", form("position", "end", "text", ""), "error", ""),
		post("count malformed", "/count/email", "position=begin&text=%", "error", ""),
		webReq{name: "GET count", method: "GET", path: "/count/email?position=begin&text=a", kind: "error"},
		algo("DSA"), algo("ECDSA"), algo("ElGamal"), algo("ECDH"),
		post("unknown algorithm", "/count/algo", form("algo", "rsa"), "any", ""),
		post("no algorithm", "/count/algo", "", "error", ""),
		post("algorithm malformed", "/count/algo", "algo=%z", "error", ""),
		year(2014), year(2018), year(1970), year(0), year(-5), year(123456789),
		post("year too large", "/count/timestamp", form("year", "99999999999999999999"), "error", ""),
		post("no year", "/count/timestamp", "", "error", ""),
		post("year malformed", "/count/timestamp", "year=%", "error", ""),
		post("year with blanks", "/count/timestamp", form("year", " 2019"), "error", ""),
		webReq{name: "index", method: "GET", path: "/", kind: "page"},
		webReq{name: "style", method: "GET", path: "/static/style.css", kind: "page"},
		webReq{name: "unknown page", method: "GET", path: "/nothing", kind: "error"},
		webReq{name: "outside", method: "GET", path: "/static/../mod.go", kind: "error"},
	)
	return append(append([]webReq(nil), few...), all...), few
}

// condition is what a server does during one request.
type condition struct {
	name  string
	set   func(w *web)
	harm  bool // nothing but an error can be right
	lying bool // error or the right result
}

type web struct {
	p          *proc
	addr       string
	dir        string
	pt, cx     *cluster
	client     *http.Client
	base       [][2]interface{}
	infoP      *proto.DatabaseInfoResponse
	ptSv, cxSv *service
}

func (w *web) both(i int) []*stub { return []*stub{w.pt.s[i], w.cx.s[i]} }

func (w *web) honest() {
	for i := range w.pt.s {
		i := i
		for k, s := range w.both(i) {
			v := []*service{w.ptSv, w.cxSv}[k]
			s.onInfo = func() (*proto.DatabaseInfoResponse, error) { return v.info, nil }
			s.onQuery = func(q []byte) ([]byte, error) { return v.srv[i].AnswerBytes(q) }
			s.ended = nil
		}
	}
}

func webConditions() []condition {
	var out []condition
	for i := 0; i < 2; i++ {
		i := i
		use := func(name string, ft fault) {
			for _, f := range faults {
				if f.name == ft.name {
					ft = f
				}
			}
			out = append(out, condition{name: fmt.Sprintf("server %d: %s", i, name), harm: !ft.mild(), lying: ft.mild(), set: func(w *web) {
				ft.plant(w.pt, i)
				ft.plant(w.cx, i)
			}})
		}
		use("no information", fault{name: "info: Internal"})
		use("no answer", fault{name: "query: Unavailable"})
		use("empty answer", fault{name: "answer empty"})
		use("short answer", fault{name: "answer one byte short"})
		use("lies", fault{name: "answer with a bit flipped at 0"})
		out = append(out, condition{name: fmt.Sprintf("server %d: other information", i), harm: true, set: func(w *web) {
			for _, s := range w.both(i) {
				on := s.onInfo
				s.onInfo = func() (*proto.DatabaseInfoResponse, error) {
					in, err := on()
					in = copyInfo(in)
					in.NumColumns += 8
					return in, err
				}
			}
		}})
	}
	return out
}

func startWeb(r *eng.R, dir string, pt, cx *service) *web {
	w := &web{dir: dir, ptSv: pt, cxSv: cx}
	for _, d := range []string{"p", "c"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	w.pt, w.cx = pt.cluster(filepath.Join(dir, "p")), cx.cluster(filepath.Join(dir, "c"))
	env := []string{"VPIR_CONFIG_POINT=" + w.pt.conf(upTo(2)), "VPIR_CONFIG_COMPLEX=" + w.cx.conf(upTo(2))}
	for try := 0; try < 4; try++ {
		w.addr = freeAddrs(1)[0]
		w.p = spawn(dir, "web", env, "-listen-addr", w.addr)
		if w.p.listening(w.addr) {
			w.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
			return w
		}
		if !strings.Contains(w.p.output(), "in use") {
			break
		}
	}
	w.stop()
	r.Failf("the front end does not start: %s", w.p.output())
	return nil
}

func (w *web) stop() {
	w.p.kill()
	w.pt.stop()
	w.cx.stop()
}

var countText = regexp.MustCompile(`count: *[0-9]`)

type webResp struct {
	code int
	body string
	err  error
}

func (w *web) do(q webReq) webResp {
	req, err := http.NewRequest(q.method, "http://"+w.addr+q.path, strings.NewReader(q.body))
	must(err)
	// paths as they are
	if q.name == "outside" {
		req.URL.Opaque = "//" + w.addr + q.path
	}
	if q.method == "POST" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		if q.ctype != "" {
			req.Header.Set("Content-Type", q.ctype)
		}
	}
	resp, err := w.client.Do(req)
	if err != nil {
		return webResp{err: err}
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	return webResp{resp.StatusCode, string(b), err}
}

// judgeWeb tells what is wrong with a response, if anything. The error is the
// only right response if harm, and right if lying.
func judgeWeb(q webReq, a webResp, harm, lying bool) string {
	if a.err != nil {
		return fmt.Sprintf("no response: %v", a.err)
	}
	if a.code >= 400 {
		if countText.MatchString(a.body) || strings.Contains(a.body, keyHead) {
			return fmt.Sprintf("an error response %d with a result: %q", a.code, a.body)
		}
		backend := q.kind != "error" && q.kind != "page"
		if q.kind == "error" || q.kind == "any" || q.kind == "absent" || backend && (harm || lying) {
			return ""
		}
		return fmt.Sprintf("status %d: %q", a.code, a.body)
	}
	if q.kind == "page" {
		if len(a.body) == 0 {
			return "an empty page"
		}
		return ""
	}
	if q.kind == "error" || harm {
		return fmt.Sprintf("status %d instead of an error: %q", a.code, a.body)
	}
	hasKey, hasCount := strings.Contains(a.body, keyHead), countText.MatchString(a.body)
	switch q.kind {
	case "key":
		if k, err := armoredKey(a.body); err != nil || k != q.value {
			return fmt.Sprintf("another key (%v): %q", err, a.body)
		}
		if hasCount {
			return fmt.Sprintf("a key and a count: %q", a.body)
		}
	case "absent":
		if hasKey || hasCount || !strings.Contains(a.body, "not found") {
			return fmt.Sprintf("a result for an absent key: %q", a.body)
		}
	case "any", "count":
		v := q.value
		if v == "" {
			v = "0"
		}
		if strings.TrimSpace(a.body) != "count: "+v {
			return fmt.Sprintf("%q instead of count %s", a.body, v)
		}
	}
	return ""
}

func haveWeb() bool {
	_, err := os.Stat(program("web"))
	return err == nil
}

func runC22(r *eng.R) {
	if !usable(r) {
		return
	}
	if !haveWeb() {
		r.Note("the web program cannot be configured from outside: nothing explored")
		r.Cap()
		return
	}
	all, few := webRequests(netKeys)
	type step struct {
		q webReq
		c *condition
	}
	var steps, short []step
	for _, q := range all {
		steps = append(steps, step{q, nil})
	}
	conds := webConditions()
	for ci := range conds {
		for qi, q := range few {
			steps = append(steps, step{q, &conds[ci]})
			if qi < 3 && ci%2 == 0 {
				short = append(short, step{q, &conds[ci]})
			}
		}
	}
	for _, q := range few {
		short = append(short, step{q, nil})
	}
	name := func(s step) string {
		if s.c == nil {
			return s.q.name
		}
		return s.q.name + " (" + s.c.name + ")"
	}
	sv := services{}
	start := func(dir string) *web { return startWeb(r, dir, sv.get("pointVPIR", 2), sv.get("complexVPIR", 2)) }
	// run makes one step; the caller knows what came before.
	run := func(w *web, s step, before ...step) {
		w.honest()
		harm, lying := false, false
		if s.c != nil {
			s.c.set(w)
			harm, lying = s.c.harm, s.c.lying
		}
		if why := judgeWeb(s.q, w.do(s.q), harm, lying); why != "" {
			b := ""
			for _, x := range before {
				b += "after " + name(x) + ": "
			}
			if w.p.wait(200 * time.Millisecond) {
				r.Failf("%s%s: the front end ended with code %d: %s", b, name(s), w.p.code, w.p.output())
			}
			r.Failf("%s%s: %s", b, name(s), why)
		}
		r.Trans(1)
	}
	for _, a := range steps {
		a := a
		r.Case("first "+name(a), func() {
			dir, done := scratch()
			defer done()
			w := start(dir)
			defer w.stop()
			prev := a
			run(w, a)
			for _, b := range steps {
				run(w, b, prev, a)
				run(w, a, b)
				prev = b
				r.State(name(a), name(b))
				r.Trace()
			}
			r.Outcome("two steps")
		})
	}
	if r.Thorough {
		for _, a := range short {
			a := a
			r.Case("three steps, first "+name(a), func() {
				dir, done := scratch()
				defer done()
				w := start(dir)
				defer w.stop()
				for _, b := range short {
					for _, c := range short {
						run(w, a)
						run(w, b, a)
						run(w, c, a, b)
						r.State(name(a), name(b), name(c))
						r.Trace()
					}
				}
				r.Outcome("three steps")
			})
		}
	}
	// a server vanishes and comes back
	for i := 0; i < 2; i++ {
		for qi, q := range few[:5] {
			for ri, q2 := range few[:5] {
				if (qi+ri)%2 == 1 && !r.Thorough {
					continue
				}
				i, q, q2 := i, q, q2
				r.Case(fmt.Sprintf("server %d vanishes: %s, %s", i, q.name, q2.name), func() {
					dir, done := scratch()
					defer done()
					w := start(dir)
					defer w.stop()
					run(w, step{q, nil})
					run(w, step{q2, nil})
					var addrs []string
					for _, s := range w.both(i) {
						addrs = append(addrs, s.addr)
						s.stop()
					}
					for k := 0; k < 3; k++ {
						for _, x := range []webReq{q, q2} {
							if why := judgeWeb(x, w.do(x), true, true); why != "" {
								r.Failf("%s without server %d: %s", x.name, i, why)
							}
						}
					}
					for k, s := range w.both(i) {
						if err := s.start(addrs[k]); err != nil {
							r.Note("address taken: %v", err)
							return
						}
					}
					// sooner or later
					for _, x := range []webReq{q, q2} {
						why := ""
						for end := time.Now().Add(45 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Millisecond) {
							a := w.do(x)
							if why = judgeWeb(x, a, false, true); why != "" {
								break
							}
							if why = judgeWeb(x, a, false, false); why == "" {
								break
							}
						}
						if why != "" {
							r.Failf("%s with server %d back: %s", x.name, i, why)
						}
					}
					r.State("vanishes", i, q.name, q2.name)
					r.Trans(12)
					r.Trace()
					r.Outcome("server back")
				})
			}
		}
	}
	// two requests at once
	pairs := [][2]int{{0, 0}, {0, 1}, {2, 3}, {2, 2}, {0, 2}, {1, 4}}
	unforced := 0
	for _, pr := range pairs {
		same := (pr[0] <= 1) == (pr[1] <= 1)
		for _, phase := range []string{"info", "query"} {
			for _, order := range permutations(4) {
				a, b, same, phase, order := few[pr[0]], few[pr[1]], same, phase, order
				r.Case(fmt.Sprintf("at once: %s, %s; %s replies %s", a.name, b.name, phase, permName(order)), func() {
					dir, done := scratch()
					defer done()
					w := start(dir)
					defer w.stop()
					w.honest()
					g := newGate(order)
					hold := func(s *stub, next func() int) {
						info, ans := s.onInfo, s.onQuery
						in := func() {
							k := next()
							if k < 0 {
								return
							}
							g.pass(k)
							time.AfterFunc(3*time.Millisecond, func() { g.ended(k) })
						}
						if phase == "info" {
							s.onInfo = func() (*proto.DatabaseInfoResponse, error) {
								in()
								return info()
							}
						} else {
							s.onQuery = func(q []byte) ([]byte, error) {
								x, err := ans(q)
								in()
								return x, err
							}
						}
					}
					for i := 0; i < 2; i++ {
						for k, s := range w.both(i) {
							i, k := i, k
							ch := make(chan int, 100)
							if same {
								// k-th arrival at server i
								if (k == 0) == (pr[0] <= 1) {
									ch <- 2 * i
									ch <- 2*i + 1
								}
							} else {
								ch <- 2*i + k
							}
							hold(s, func() int {
								select {
								case x := <-ch:
									return x
								default:
									return -1
								}
							})
						}
					}
					go g.run()
					ra := make(chan webResp, 1)
					go func() { ra <- w.do(a) }()
					y := w.do(b)
					x := <-ra
					for _, c := range []struct {
						q webReq
						a webResp
					}{{a, x}, {b, y}} {
						if why := judgeWeb(c.q, c.a, false, false); why != "" {
							r.Failf("%s: %s", c.q.name, why)
						}
					}
					if !g.forced() {
						unforced++
					}
					run(w, step{few[0], nil})
					run(w, step{few[2], nil})
					r.State("at once", a.name, b.name, phase, order)
					r.Trans(2)
					r.Trace()
					r.Outcome("two at once")
				})
			}
		}
	}
	// one of two fails
	for ci := range conds {
		for _, pr := range [][2]int{{0, 1}, {2, 3}, {2, 2}, {0, 0}} {
			for first := 0; first < 2; first++ {
				c, a, b, first := conds[ci], few[pr[0]], few[pr[1]], first
				if c.lying && strings.Contains(c.name, "lies") && a.kind == "key" && first == 1 && !r.Thorough {
					continue
				}
				r.Case(fmt.Sprintf("at once: %s, %s; request %d meets %s", a.name, b.name, first, c.name), func() {
					dir, done := scratch()
					defer done()
					w := start(dir)
					defer w.stop()
					w.honest()
					type hooks struct {
						info func() (*proto.DatabaseInfoResponse, error)
						ans  func([]byte) ([]byte, error)
					}
					good := map[*stub]hooks{}
					ss := append(w.both(0), w.both(1)...)
					for _, s := range ss {
						good[s] = hooks{s.onInfo, s.onQuery}
					}
					c.set(w)
					// only the first or the second to come meets the condition;
					// both wait for each other
					for _, s := range ss {
						s, bad := s, hooks{s.onInfo, s.onQuery}
						ni, nq := make(chan int, 2), make(chan int, 2)
						ni <- 0
						ni <- 1
						nq <- 0
						nq <- 1
						meet := make(chan bool, 2)
						pick := func(n chan int) hooks {
							select {
							case k := <-n:
								if k == first {
									return bad
								}
							default:
							}
							return good[s]
						}
						s.onInfo = func() (*proto.DatabaseInfoResponse, error) {
							h := pick(ni)
							meet <- true
							for end := time.Now().Add(time.Second); len(meet) < 2 && time.Now().Before(end); {
								time.Sleep(time.Millisecond)
							}
							return h.info()
						}
						s.onQuery = func(q []byte) ([]byte, error) { return pick(nq).ans(q) }
					}
					ra := make(chan webResp, 1)
					go func() { ra <- w.do(a) }()
					y := w.do(b)
					x := <-ra
					bad := 0
					for _, c := range []struct {
						q webReq
						a webResp
					}{{a, x}, {b, y}} {
						if why := judgeWeb(c.q, c.a, false, true); why != "" {
							r.Failf("%s: %s", c.q.name, why)
						}
						if c.a.code >= 400 {
							bad++
						}
					}
					if c.harm && bad == 0 {
						r.Failf("no request fails")
					}
					if bad == 2 && !strings.Contains(c.name, "information") {
						r.Failf("both requests fail: %q, %q", x.body, y.body)
					}
					w.honest()
					for _, s := range []int{0, 2, 3} {
						run(w, step{few[s], nil})
					}
					r.State("one of two", c.name, a.name, b.name, first)
					r.Trans(5)
					r.Trace()
					r.Outcome("one of two")
				})
			}
		}
	}
	r.Case("all requests at once", func() {
		dir, done := scratch()
		defer done()
		w := start(dir)
		defer w.stop()
		w.honest()
		rs := make([]chan webResp, len(all))
		for i, q := range all {
			i, q := i, q
			rs[i] = make(chan webResp, 1)
			go func() { rs[i] <- w.do(q) }()
		}
		for i, q := range all {
			if why := judgeWeb(q, <-rs[i], false, false); why != "" {
				r.Failf("%s: %s", q.name, why)
			}
		}
		r.Trans(len(all))
		r.Trace()
		r.Outcome("all at once")
	})
	if unforced > 0 {
		r.Note("%d orders could not be enforced", unforced)
	}
	_ = codes.OK
}
