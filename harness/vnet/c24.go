package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:       "C24",
		Bounds:   "the real server and client programs; all four schemes, 2 servers, and 3 to 5 for point schemes; key sets of 1, 7, 46 and 95 keys (1, 1, 4 and 9 buckets) split into 1 to 4 files, of which the servers load the first ones; with and without the options for experiments, 1 to 8 cores; every stored email and absent emails (of files that were not loaded, prefixes, extensions), also read from the terminal; all kinds of complex queries over an alphabet of parts of the stored emails; two rounds of clients, several at once",
		QuickSec: 500,
		Run:      runC24,
	})
}

func runC24(r *eng.R) {
	if !usable(r) {
		return
	}
	type setup struct {
		set    keySet
		split  []int
		load   int // number of files
		cores  int // 0: not an experiment
		n      int
		scheme string
		order  []int
	}
	base := netKeys.certs
	sets := map[int]keySet{1: {"1", base[:1]}, 7: filled(keySet{"7", base[:6]}, 7), 46: netKeys, 95: filled(keySet{"95", base[:6]}, 95)}
	var setups []setup
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3, 4, 5} {
			if n > 2 && !point(scheme) {
				continue
			}
			type sp struct {
				k     int
				split []int
				load  int
			}
			sps := []sp{{1, []int{1}, 1}, {7, []int{3, 4}, 2}, {7, []int{4, 3}, 1}, {46, []int{46}, 1}, {46, []int{40, 1, 5}, 3}, {46, []int{6, 35, 5}, 2}, {95, []int{20, 30, 40, 5}, 4}}
			for k, s := range sps {
				cores := 0
				setups = append(setups, setup{sets[s.k], s.split, s.load, cores, n, scheme, permutations(n)[k%2]})
			}
			for k, cores := range []int{1, 2, 3, 4, 5, 8} {
				s := sps[3+k%4]
				if n > 3 && k > 1 {
					continue
				}
				setups = append(setups, setup{sets[s.k], s.split, s.load, cores, n, scheme, permutations(n)[k%2]})
			}
		}
	}
	for _, s := range setups {
		s := s
		r.Case(fmt.Sprintf("%s, %d servers, keys %s in files of %v, %d loaded, cores %d, tables %s", s.scheme, s.n, s.set.name, s.split, s.load, s.cores, permName(s.order)), func() {
			dir, done := scratch()
			defer done()
			sks := filepath.Join(dir, "sks")
			must(os.Mkdir(sks, 0755))
			writeSplit(sks, s.set.keys(), s.split)
			conf := filepath.Join(dir, "config.toml")
			env := []string{"VPIR_CONFIG=" + conf, "VPIR_SKS_ROOT=" + sks}
			ps, _, err := daemons(s.n, conf, s.order, func(i int) *proc {
				args := []string{"-id", fmt.Sprint(i), "-files", fmt.Sprint(s.load), "-scheme", s.scheme}
				if s.cores > 0 {
					args = append(args, "-experiment", "-cores", fmt.Sprint(s.cores))
				}
				return spawn(dir, "server", env, args...)
			})
			if err != nil {
				r.Failf("%v", err)
			}
			defer func() {
				for _, p := range ps {
					p.kill()
				}
			}()
			k := 0
			for _, m := range s.split[:s.load] {
				k += m
			}
			loaded := keySet{s.set.name, s.set.certs[:k]}
			for _, w := range wantsC24(s.scheme, loaded, s.set.certs[k:], r.Thorough) {
				judge(r, s.scheme, w, runProgram("client", 100*time.Second, dir, env, append([]string{"-scheme", s.scheme}, w.args...)...))
				for i, p := range ps {
					if p.ended() {
						r.Failf("server %d ended after %s: %s", i, w.name, p.output())
					}
				}
				r.State(s.scheme, s.n, s.set.name, s.split, s.load, s.cores, w.name)
				r.Trans(1 + s.n)
				r.Trace()
				r.Outcome(map[bool]string{true: "value", false: "error"}[w.value != ""])
			}
			// several clients at once
			ws := wantsC24(s.scheme, loaded, nil, false)
			if len(ws) > 4 {
				ws = ws[:4]
			}
			got := make([]chan ran, len(ws))
			for i, w := range ws {
				i, w := i, w
				got[i] = make(chan ran, 1)
				go func() {
					got[i] <- runProgram("client", 100*time.Second, dir, env, append([]string{"-scheme", s.scheme}, w.args...)...)
				}()
			}
			for i, w := range ws {
				judge(r, s.scheme, w, <-got[i])
			}
			// the email typed in
			if point(s.scheme) {
				for _, w := range keyWants(loaded)[:1] {
					judge(r, s.scheme, w, typed(dir, env, w.args[1]+"\n", "-scheme", s.scheme))
				}
				mustFail(r, typed(dir, env, "", "-scheme", s.scheme))
			}
		})
	}
}

func typed(dir string, env []string, in string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, program("client"), args...)
	cmd.Dir = dir
	cmd.Env = append(progEnv(), env...)
	var b bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(in), &b, &b
	cmd.Run()
	// the question and the answer share a line
	return ran{code: cmd.ProcessState.ExitCode(), out: strings.Replace(b.String(), "please enter the id: ", "", 1), late: ctx.Err() != nil}
}

func wantsC24(scheme string, set keySet, others []certSpec, thorough bool) []want {
	if point(scheme) {
		e := set.certs[0].email()
		ws := keyWants(set, "nobody@a.org", e+"x", e[1:], "x"+e, e[:len(e)-1], "@", "f6@f.nett", "f6@f.ne")
		for i, c := range others {
			if i < 3 || thorough {
				ws = append(ws, want{"unloaded id=" + c.email(), []string{"-id", c.email()}, ""})
			}
		}
		return ws
	}
	emails := []string{"nobody@a.org", "alice@a.orgx", "ALICE@a.org"}
	starts := []string{"a", "jü", "a+", "f", "f1", "zz", "alice@a.org", "alice@a.org0"}
	ends := []string{"g", "ö.org", "org", "@f.net", "ch", "zz", "alice@a.org", "xalice@a.org", "t"}
	for i, c := range set.certs {
		if i < 8 || thorough {
			emails = append(emails, c.email())
			starts = append(starts, c.email()[:3])
			ends = append(ends, c.email()[4:])
		}
	}
	for i, c := range others {
		if i < 2 {
			emails = append(emails, c.email())
		}
	}
	return complexWants(set, uniq(emails), uniq(starts), uniq(ends), []string{"org", "@f.net", ".ch", "zz", "x.org", "ö.org"}, []int{1970, 2014, 2018, 2019, 2020})
}

func uniq(l []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
