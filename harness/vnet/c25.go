package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:       "C25",
		Bounds:   "the real interactive program on a terminal, in front of servers under control; all sequences of two actions (thorough: of three, over fewer) of downloads of stored and absent keys and of every kind of statistic, and of actions under 12 conditions of the servers",
		QuickSec: 400,
		Run:      runC25,
	})
}

// move is a choice from a menu, or a text that is typed in.
type move struct{ prompt, choose, text string }

// action is a walk through the menus and what it has to give: a key, a number,
// "absent", or an error.
type action struct {
	name        string
	moves       []move
	kind, value string
	c           *condition
}

const mainPrompt = "What do you want to do"

// to makes the walk through the menus; it tells why that is impossible.
func (t *tty) walk(ms []move) (string, bool) {
	for _, m := range ms {
		if !t.until(20*time.Second, m.prompt) {
			return fmt.Sprintf("no prompt %q", m.prompt), false
		}
		if m.choose == "" {
			t.ready(2)
			t.typeIn(m.text)
			t.send("\r")
			continue
		}
		t.ready(0)
		found := false
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !t.ended(); time.Sleep(time.Millisecond) {
			cur, want := t.menu(m)
			if want < 0 || cur < 0 {
				continue
			}
			found = true
			if cur == want {
				break
			}
			key := "\x1b[B"
			if cur > want {
				key = "\x1b[A"
			}
			// one step, which moves the mark
			t.master.WriteString(key)
			for e := time.Now().Add(3 * time.Second); time.Now().Before(e) && !t.ended(); time.Sleep(200 * time.Microsecond) {
				if c, _ := t.menu(m); c >= 0 && c != cur {
					break
				}
			}
		}
		if !found {
			return fmt.Sprintf("no choice %q for %q: %q", m.choose, m.prompt, t.shown()), false
		}
		t.send("\r")
	}
	return "", true
}

// menu tells which entry of the menu is marked, and which one is wanted.
func (t *tty) menu(m move) (cur, want int) {
	s := t.shown()
	cur, want = -1, -1
	at := strings.LastIndex(s, m.prompt)
	if at < 0 {
		return
	}
	k := 0
	for _, l := range strings.Split(s[at:], "\n")[1:] {
		l = strings.TrimSpace(l)
		t := strings.TrimSpace(strings.TrimLeft(l, ">❯"))
		if t == "" {
			continue
		}
		if t != l {
			cur = k
		}
		if t == m.choose || len(m.choose) > 6 && strings.Contains(t, m.choose) || m.choose == "exit" && strings.HasSuffix(t, " exit") {
			want = k
		}
		k++
	}
	return
}

var resultOf = regexp.MustCompile(`Result of [^\n]*: (-?[0-9]+)\.`)

// result is what an action has shown: keys and numbers.
func shownResults(s string) (key string, nkeys int, nums []string) {
	nkeys = strings.Count(s, keyHead)
	if nkeys > 0 {
		if k, err := armoredKey(s); err == nil {
			key = k
		} else {
			key = err.Error()
		}
	}
	seen := map[string]bool{}
	for _, m := range resultOf.FindAllStringSubmatch(s, -1) {
		if !seen[m[1]] {
			seen[m[1]] = true
			nums = append(nums, m[1])
		}
	}
	return
}

func interactiveActions(set keySet) (all, few []action) {
	recs := set.recs()
	download := func(email string) []move {
		return []move{{mainPrompt, "Download a key", ""}, {"Enter the email", "", email}}
	}
	num := func(q *complexQuery, ms ...move) action {
		a := action{name: q.name, moves: append([]move{{mainPrompt, "Get stats", ""}}, ms...), kind: "number"}
		if v, err := q.eval(recs); err == nil {
			a.value = fmt.Sprint(v)
		} else {
			a.kind = "error"
		}
		return a
	}
	count := move{"What kind of stat", "Count emails", ""}
	attr := func(s string) move { return move{"What attribute", s, ""} }
	part := func(pos, text string) []move {
		return []move{{"Select the kind of query", pos, ""}, {"Enter your query text", "", text}}
	}
	email := func(q *complexQuery, pos, text string) action {
		return num(q, append([]move{count, attr("email")}, part(pos, text)...)...)
	}
	starts := func(s string) action { return email(qStarts(s), "begin with", s) }
	ends := func(s string) action { return email(qEnds(s), "end with", s) }
	algo := func(s string) action {
		return num(qAlgo(s), count, attr("algo"), move{"Select the kind of algo", s, ""})
	}
	year := func(y string) action {
		var n int
		fmt.Sscan(y, &n)
		return num(qTime(n), count, attr("creation"), move{"Enter a year", "", y})
	}
	avg := func(pos, s string) action {
		q := qAvg(s)
		if pos == "begin with" {
			q.name = "begin " + q.name
			q.match = func(k keyRec) bool { return strings.HasPrefix(k.email, s) }
		}
		return num(q, append([]move{{"What kind of stat", "average lifetime", ""}}, part(pos, s)...)...)
	}
	key := func(c certSpec) action {
		k, err := canonBytes(c.bytes())
		must(err)
		return action{name: "download " + c.email(), moves: download(c.email()), kind: "key", value: k}
	}
	absent := func(e string) action { return action{name: "download absent " + e, moves: download(e), kind: "absent"} }
	few = []action{key(set.certs[0]), absent("nobody@a.org"), ends("@a.org"), avg("end with", "org"), algo("RSA")}
	for _, c := range set.certs[1:8] {
		all = append(all, key(c))
	}
	all = append(all, absent("alice@a.orgx"), absent(""), absent("ALICE@a.org"),
		starts("a"), starts("jü"), starts("a+b%41&"), ends("@ö.org"), starts("alice@a.org"), starts("zz"), starts("f1"), ends("t"), ends("alice@a.org"), ends("."),
		algo("DSA"), algo("ECDSA"), algo("ElGamal"), algo("ECDH"),
		year("2019"), year("2018"), year("1970"), year("0"),
		avg("begin with", "a"), avg("begin with", "jü"), avg("end with", "ö.org"), avg("begin with", "alice@a.org"), avg("end with", "@f.net"), avg("end with", "nobody"))
	return append(append([]action(nil), few...), all...), few
}

type interactive struct {
	web
	t *tty
}

func (w *interactive) close() {
	if w.t != nil {
		w.t.stop()
	}
	w.pt.stop()
	w.cx.stop()
}

func startInteractive(dir string, pt, cx *service) *interactive {
	w := &interactive{web: web{dir: dir, ptSv: pt, cxSv: cx}}
	for _, d := range []string{"p", "c"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0755))
	}
	w.pt, w.cx = pt.cluster(filepath.Join(dir, "p")), cx.cluster(filepath.Join(dir, "c"))
	return w
}

func (w *interactive) start(r *eng.R) {
	if w.t != nil {
		w.t.stop()
		w.t = nil
	}
	env := []string{"VPIR_CONFIG_POINT=" + w.pt.conf(upTo(2)), "VPIR_CONFIG_COMPLEX=" + w.cx.conf(upTo(2))}
	t, err := spawnTTY(w.dir, "interactive", env)
	must(err)
	w.t = t
	if !t.until(40*time.Second, mainPrompt) {
		r.Failf("the program does not start: %q", t.shown())
	}
}

// act makes one action and tells what is wrong, if anything.
func (w *interactive) act(r *eng.R, a action) string {
	w.honest()
	if w.t == nil || w.t.ended() {
		w.start(r)
	}
	harm, lying := false, false
	if a.c != nil {
		a.c.set(&w.web)
		harm, lying = a.c.harm, a.c.lying
	}
	t := w.t
	why, ok := t.walk(a.moves)
	var s string
	if ok {
		again := "Type enter to continue"
		t.until(60*time.Second, mainPrompt, again)
		s = t.shown()
		if strings.Contains(s, again) {
			t.ready(2)
			t.send("\r")
			t.until(20*time.Second, mainPrompt)
		}
	} else {
		s = t.shown()
	}
	alive := !t.ended()
	key, nkeys, nums := shownResults(s)
	switch {
	case nkeys > 1 || len(nums) > 1 || nkeys+len(nums) > 1:
		return fmt.Sprintf("more than one result: %q", s)
	case nkeys+len(nums) == 0:
		if a.kind == "error" || a.kind == "absent" || harm || lying {
			// nothing shown; whether the program goes on is its affair, but
			// an absent key has a message of its own
			if a.kind == "absent" && !harm && !lying && !alive {
				return fmt.Sprintf("the program ends on an absent key: %q", s)
			}
			if alive && !strings.Contains(t.shown(), mainPrompt) {
				return fmt.Sprintf("the program hangs: %q", s)
			}
			return ""
		}
		return fmt.Sprintf("no result (%s; running: %v): %q", why, alive, s)
	case harm:
		return fmt.Sprintf("a result from servers that failed: %q", s)
	case a.kind == "key":
		if nkeys != 1 || key != a.value {
			return fmt.Sprintf("not the stored key: %q", s)
		}
	case a.kind == "number":
		if len(nums) != 1 || nums[0] != a.value {
			return fmt.Sprintf("%v instead of %s: %q", nums, a.value, s)
		}
	default:
		return fmt.Sprintf("a result where there is none: %q", s)
	}
	if !alive {
		return fmt.Sprintf("the program ends after a result: %q", s)
	}
	if !strings.Contains(t.shown(), mainPrompt) {
		return fmt.Sprintf("the program hangs after a result: %q", t.shown())
	}
	return ""
}

func haveInteractive(r *eng.R) bool {
	if _, err := os.Stat(program("interactive")); err != nil {
		r.Note("the interactive program cannot be configured from outside: nothing explored")
		r.Cap()
		return false
	}
	if m, s, err := openTTY(); err != nil {
		r.Note("no terminal can be made (%v): nothing explored", err)
		r.Cap()
		return false
	} else {
		m.Close()
		s.Close()
	}
	return true
}

func runC25(r *eng.R) {
	if !usable(r) {
		return
	}
	if !haveInteractive(r) {
		return
	}
	all, few := interactiveActions(netKeys)
	name := func(a action) string {
		if a.c == nil {
			return a.name
		}
		return a.name + " (" + a.c.name + ")"
	}
	steps := all
	conds := webConditions()
	for i := range conds {
		for k, a := range few {
			if k == 4 || k == 1 {
				continue
			}
			a.c = &conds[i]
			steps = append(steps, a)
		}
	}
	sv := services{}
	run := func(w *interactive, a action, before ...action) {
		if why := w.act(r, a); why != "" {
			b := ""
			for _, x := range before {
				b += "after " + name(x) + ": "
			}
			r.Failf("%s%s: %s", b, name(a), why)
		}
		r.Trans(1)
	}
	session := func(f func(w *interactive)) {
		dir, done := scratch()
		defer done()
		w := startInteractive(dir, sv.get("pointVPIR", 2), sv.get("complexVPIR", 2))
		defer w.close()
		f(w)
	}
	for ai, a := range steps {
		ai, a := ai, a
		r.Case("first "+name(a), func() {
			session(func(w *interactive) {
				for bi, b := range steps {
					if !r.Thorough && (a.c != nil && (b.c != nil || bi >= len(few)) || b.c != nil && ai >= len(few)) && (ai+bi)%3 != 0 {
						continue
					}
					if (ai+bi)%2 == 1 && a.c == nil && b.c == nil && !r.Thorough {
						continue
					}
					if w.t == nil || w.t.ended() || bi%2 == 0 {
						run(w, a)
					}
					run(w, b, a)
					r.State(name(a), name(b))
					r.Trace()
				}
			})
			r.Outcome("two actions")
		})
	}
	if r.Thorough {
		for _, a := range few {
			a := a
			r.Case("three actions, first "+name(a), func() {
				session(func(w *interactive) {
					for _, b := range few {
						for _, c := range all {
							run(w, a)
							run(w, b, a)
							run(w, c, a, b)
							r.State(name(a), name(b), name(c))
							r.Trace()
						}
					}
				})
				r.Outcome("three actions")
			})
		}
	}
	// an empty text is part of every email
	recs := netKeys.recs()
	avgAll := qAvg("")
	avgAll.match = func(keyRec) bool { return true }
	meanAge, err := avgAll.eval(recs)
	must(err)
	for _, pos := range []string{"begin with", "end with"} {
		for _, stat := range []string{"Count emails", "average lifetime"} {
			pos, stat := pos, stat
			r.Case("empty text: "+stat+" "+pos, func() {
				session(func(w *interactive) {
					w.honest()
					w.start(r)
					ms := []move{{mainPrompt, "Get stats", ""}, {"What kind of stat", stat, ""}}
					good := fmt.Sprint(meanAge)
					if stat == "Count emails" {
						ms = append(ms, move{"What attribute", "email", ""})
						good = fmt.Sprint(len(recs))
					}
					ms = append(ms, move{"Select the kind of query", pos, ""})
					if why, ok := w.t.walk(ms); !ok {
						r.Failf("%s", why)
					}
					if !w.t.until(20*time.Second, "Enter your query text") {
						r.Failf("no question for the text: %q", w.t.shown())
					}
					w.t.ready(2)
					w.t.send("\r")
					w.t.until(20*time.Second, mainPrompt, "Type enter to continue", "nvalid")
					if _, _, nums := shownResults(w.t.shown()); len(nums) > 0 && nums[0] != good {
						r.Failf("a wrong result for the empty text: %q", w.t.shown())
					}
				})
				r.Trans(1)
				r.Trace()
				r.State("empty", pos, stat)
				r.Outcome("empty text")
			})
		}
	}
	// the end
	r.Case("exit", func() {
		session(func(w *interactive) {
			w.honest()
			w.start(r)
			for _, a := range few[:3] {
				run(w, a)
			}
			w.t.walk([]move{{mainPrompt, "exit", ""}})
			select {
			case <-w.t.done:
			case <-time.After(10 * time.Second):
				r.Failf("the program does not end: %q", w.t.shown())
			}
			if c := w.t.cmd.ProcessState.ExitCode(); c != 0 {
				r.Failf("exit status %d", c)
			}
		})
		r.Outcome("exit")
	})
}
