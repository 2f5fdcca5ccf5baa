package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:          "C17",
		Bounds:      "all sequences (sets in all orders) of up to 3 (thorough 4) index keys over an alphabet of 17 spellings, all orders of up to 5 valid indices, 1 to 40 servers in 3 orders, both table syntaxes; malformed files: every truncation and a catalogue of type errors; every file is loaded 6 times because of the random order of maps",
		Assumptions: []string{"an index in another spelling (such as 00) may be taken for the index or rejected", "of equal addresses, and servers without address, nothing is said"},
		Run:         runC17,
	})
}

func runC17(r *eng.R) {
	dir, err := os.MkdirTemp(eng.TempDir(), "c17")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "config.toml")
	load := func(text string) ([]string, error) {
		if err := os.WriteFile(file, []byte(text), 0600); err != nil {
			panic(err)
		}
		c, err := utils.LoadConfig(file)
		r.Trans(1)
		if err != nil {
			return nil, err
		}
		if c == nil {
			r.Failf("no configuration and no error for %q", text)
		}
		return c.Addresses, nil
	}
	quote := func(k string) string {
		bare := k != ""
		for _, c := range k {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '_') {
				bare = false
			}
		}
		if bare {
			return k
		}
		return strconv.Quote(k)
	}
	render := func(keys []string, inline bool) (string, map[string]string) {
		var b strings.Builder
		addr := map[string]string{}
		if inline {
			b.WriteString("[servers]\n")
		}
		for i, k := range keys {
			ip, port := fmt.Sprintf("10.1.%d.%d", i, len(keys)), 5000+i*7
			if i%3 == 2 {
				ip = fmt.Sprintf("host%d.example", i)
			}
			addr[k] = fmt.Sprintf("%s:%d", ip, port)
			if inline {
				fmt.Fprintf(&b, "  %s = { port = %d, ip = \"%s\" }\n", quote(k), port, ip)
			} else {
				fmt.Fprintf(&b, "[servers.%s]\n  ip = \"%s\"\n  port = %d\n", quote(k), ip, port)
			}
		}
		return b.String(), addr
	}
	judge := func(keys []string) {
		for _, inline := range []bool{false, true} {
			text, addr := render(keys, inline)
			// is it 0..n-1?
			want := make([]string, len(keys))
			valid, canonical := true, true
			for _, k := range keys {
				i, err := strconv.Atoi(k)
				if err != nil || i < 0 || i >= len(keys) || want[i] != "" {
					valid = false
					break
				}
				canonical = canonical && strconv.Itoa(i) == k
				want[i] = addr[k]
			}
			for try := 0; try < 6; try++ {
				got, err := load(text)
				switch {
				case err != nil:
					if valid && canonical {
						r.Failf("indices %q: %v", keys, err)
					}
					r.Outcome("error")
				case !valid:
					r.Failf("indices %q give the addresses %q", keys, got)
				default:
					if strings.Join(got, " ") != strings.Join(want, " ") || len(got) != len(want) {
						r.Failf("indices %q: addresses %q, not %q", keys, got, want)
					}
					r.Outcome(fmt.Sprint(len(keys), " servers"))
				}
			}
		}
		r.State(strings.Join(keys, "|"))
	}
	alpha := []string{"0", "1", "2", "3", "00", "01", "+0", "-0", "-1", "x", "", " 0", "0x0", "1.0", "1_0", "99999999999999999999", "4294967296"}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	var rec func(pre []string, depth int, alpha []string)
	rec = func(pre []string, depth int, alpha []string) {
		if len(pre) > 0 {
			judge(pre)
		}
		if len(pre) == depth {
			return
		}
		for _, a := range alpha {
			dupl := false
			for _, p := range pre {
				dupl = dupl || p == a
			}
			if !dupl {
				rec(append(append([]string{}, pre...), a), depth, alpha)
			}
		}
	}
	for _, a := range alpha {
		a := a
		r.Case(fmt.Sprintf("first index %q", a), func() { rec([]string{a}, depth, alpha); r.Trace() })
	}
	for _, a := range []string{"0", "1", "2", "3", "4", "5"} {
		a := a
		r.Case(fmt.Sprintf("all orders from %q", a), func() { rec([]string{a}, 5, []string{"0", "1", "2", "3", "4", "5"}); r.Trace() })
	}
	for n := 1; n <= 40; n++ {
		n := n
		r.Case(fmt.Sprintf("%d servers", n), func() {
			var up, down, mixed, shifted []string
			for i := 0; i < n; i++ {
				up = append(up, strconv.Itoa(i))
				down = append(down, strconv.Itoa(n-1-i))
				mixed = append(mixed, strconv.Itoa((i*7+3)%n))
				shifted = append(shifted, strconv.Itoa(i+1))
			}
			judge(up)
			judge(down)
			if n%7 != 0 {
				judge(mixed)
			}
			judge(shifted)
			for skip := 0; skip < n; skip++ {
				gap := append(append([]string{}, up[:skip]...), up[skip+1:]...)
				if skip != n-1 {
					judge(gap)
				}
			}
			r.Trace()
		})
	}
	r.Case("malformed files", func() {
		good, _ := render([]string{"1", "0", "2"}, false)
		good2, _ := render([]string{"1", "0", "2"}, true)
		for _, g := range []string{good, good2} {
			for i := 0; i <= len(g); i++ {
				got, err := load(g[:i])
				if err == nil {
					for _, a := range got {
						if a == "" {
							r.Failf("file %q gives the addresses %q", g[:i], got)
						}
					}
				}
				r.State("cut", g[:i])
			}
		}
		for _, bad := range []string{
			"[servers.0]\nip = 5\nport = 1\n", "[servers.0]\nip = \"a\"\nport = \"b\"\n", "[servers.0]\nip = \"a\"\nport = 1.5\n", "[servers.0\nip=\"a\"\n",
			"servers = 3\n", "servers = \"x\"\n", "servers = [1, 2]\n", "[servers.0]\nip = \"a\nport = 1\n", "[servers.0]\n[servers.0]\n", "[servers]\n0 = \"10.0.0.1:50\"\n",
			"[servers.0]\nip=\"a\"\nport=1\nport=2\n", "\x00\x01", "= 3\n", "[servers.0]\nip = \"a\"\nport = 99999999999999999999999\n", "[[servers]]\nip=\"a\"\nport=1\n[[servers]]\nip=\"b\"\nport=2\n",
		} {
			if got, err := load(bad); err == nil && len(got) > 0 {
				r.Failf("file %q gives the addresses %q", bad, got)
			}
			r.State("bad", bad)
		}
		for _, p := range []string{filepath.Join(dir, "none.toml"), dir, ""} {
			if c, err := utils.LoadConfig(p); err == nil {
				r.Failf("path %q gives %v", p, c)
			}
		}
		// nothing to configure: no address
		for _, e := range []string{"", "# nothing\n", "[servers]\n", "title = \"x\"\n"} {
			if got, err := load(e); err == nil && len(got) > 0 {
				r.Failf("file %q gives %q", e, got)
			}
		}
		r.Trace()
	})
	r.Case("histories", func() {
		// a load does not depend on the former ones
		a, aa := render([]string{"2", "0", "1"}, false)
		b, ba := render([]string{"1", "0"}, true)
		bad, _ := render([]string{"1", "7"}, false)
		for h := 0; h < 81; h++ {
			for x, i := h, 0; i < 4; i++ {
				text, want := a, []string{aa["0"], aa["1"], aa["2"]}
				switch x % 3 {
				case 1:
					text, want = b, []string{ba["0"], ba["1"]}
				case 2:
					text, want = bad, nil
				}
				got, err := load(text)
				if (err != nil) != (want == nil) || strings.Join(got, " ") != strings.Join(want, " ") {
					r.Failf("history %d, load %d: %q %v", h, i, got, err)
				}
				x /= 3
			}
			r.State("history", h)
		}
		r.Trace()
	})
}
