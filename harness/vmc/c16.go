package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C16",
		Bounds: "all sequences of up to 3 (thorough 4) certificates over an alphabet of 20 (three addresses, three creation times, upper case, revoked, invalid, expired, several identities, without address, with subkeys, other algorithms) in all splits into up to 3 files; sizes 8191 to 8193; many files and 300 to 1100 (thorough 10100) certificates; all ordered pairs of results written to the same place; key files cut at every byte; the data program on all sequences of up to 2; chunks: all lists of up to 3 (thorough 4) keys of four sizes around 50 and 100 MB with a total of 100 to 120 (thorough 330) MB",
		Run:    runC16,
	})
}

type sym struct {
	name string
	c    certSpec
}

func sizedCert(email string, t int64, size int) certSpec {
	c := simple(email, t)
	c.pad = size - 1000
	for i := 0; i < 3; i++ {
		c.pad += size - len(c.bytes())
	}
	if n := len(c.bytes()); n != size {
		panic(fmt.Sprint("size ", n))
	}
	return c
}

func symbolsC16() []sym {
	u := func(name, email string, t int64) uidSpec { return uidSpec{name: name, email: email, t: tBase + t} }
	flag := func(u uidSpec) uidSpec { u.primary = true; return u }
	c := func(key int, t int64, uids ...uidSpec) certSpec { return certSpec{key: key, t: tBase + t, uids: uids} }
	with := func(c certSpec, f func(*certSpec)) certSpec {
		c.uids = append([]uidSpec(nil), c.uids...)
		f(&c)
		return c
	}
	a1 := c(0, 10, u("A", "a@x.org", 10))
	s := []sym{
		{"a@1", a1},
		{"a@2", c(1, 20, u("A", "a@x.org", 20))},
		{"a@3", c(0, 30, u("A", "a@x.org", 30))},
		{"A@2", c(0, 20, u("A", "A@X.Org", 20))},
		{"b@1", c(1, 10, u("B", "b@x.org", 10))},
		{"b@3", c(1, 30, u("B", "b@x.org", 5))},
		{"a@4 revoked", with(c(0, 40, u("A", "a@x.org", 40)), func(c *certSpec) { c.rev = 1 })},
		{"a@5 invalid revocation", with(c(0, 50, u("A", "a@x.org", 50)), func(c *certSpec) { c.rev = 2 })},
		{"a@6 invalid identity", with(c(0, 60, u("A", "a@x.org", 60)), func(c *certSpec) { c.uids[0].bad = true })},
		{"a@7 unsigned", with(c(0, 70, u("A", "a@x.org", 70)), func(c *certSpec) { c.uids[0].unsigned = true })},
		{"no address", c(1, 80, u("Anna", "", 80))},
		{"a@2 expired", with(c(0, 22, u("A", "a@x.org", 22)), func(c *certSpec) { c.uids[0].life = 1 })},
		{"a flagged, b newer @2", c(0, 24, u("B", "b@x.org", 90), flag(u("A", "a@x.org", 1)))},
		{"b flagged later than a @2", c(1, 26, flag(u("A", "a@x.org", 1)), flag(u("B", "b@x.org", 2)), u("C", "c@x.org", 9))},
		{"no flag, b newer @2", c(0, 28, u("A", "a@x.org", 1), u("B", "b@x.org", 2))},
		{"fallback to the first of b, a @2", c(0, 23, u("Nobody", "", 9), u("B", "b@x.org", 2), u("A", "a@x.org", 1))},
		{"b unsigned newer, a @2", with(c(0, 27, u("A", "a@x.org", 1), u("B", "b@x.org", 2)), func(c *certSpec) { c.uids[1].unsigned = true })},
		{"a@3 subkey", with(c(1, 31, u("A", "a@x.org", 31)), func(c *certSpec) { c.sub = true; c.uids[0].foreign = true })},
		{"dsa", certSpec{raw: dsaCert}},
		{"a@9 8192 bytes", sizedCert("a@x.org", 99, 8192)},
	}
	return s
}

// expected gives for each address the certificates that may be kept.
func expected(seq []sym) map[string][]certSpec {
	m := map[string][]certSpec{}
	when := func(c certSpec) int64 {
		if c.raw != "" {
			return tBase
		}
		return c.t
	}
	for _, s := range seq {
		c := s.c
		e := c.email()
		if !c.readable() || c.rev == 1 || e == "" {
			continue
		}
		old := m[e]
		switch {
		case len(old) == 0 || when(old[0]) < when(c):
			m[e] = []certSpec{c}
		case when(old[0]) == when(c):
			m[e] = append(old, c)
		}
	}
	return m
}

func names(seq []sym) string {
	out := []string{}
	for _, s := range seq {
		out = append(out, s.name)
	}
	return fmt.Sprintf("%q", out)
}

// writeDump writes the certificates to dump files.
func writeDump(dir string, seq []sym, sizes []int) []string {
	var files []string
	for i, n := range sizes {
		var w bytes.Buffer
		for _, s := range seq[:n] {
			w.Write(s.c.bytes())
		}
		seq = seq[n:]
		f := filepath.Join(dir, fmt.Sprintf("sks-dump-%04d.pgp", i*37))
		must(ioutil.WriteFile(f, w.Bytes(), 0o600))
		files = append(files, f)
	}
	return files
}

// unreadable tells whether one of the files has certificates, but no valid
// one; such a dump may be refused as a whole.
func unreadable(seq []sym, sizes []int) bool {
	for _, n := range sizes {
		ok := n == 0
		for _, s := range seq[:n] {
			ok = ok || s.c.readable()
		}
		if !ok {
			return true
		}
		seq = seq[n:]
	}
	return false
}

func compareKept(r *eng.R, what string, want map[string][]certSpec, got map[string]string) {
	var emails []string
	for e := range want {
		emails = append(emails, e)
	}
	sort.Strings(emails)
	for _, e := range emails {
		g, ok := got[e]
		if !ok {
			r.Failf("%s: the key of %s is lost", what, e)
		}
		found := false
		for _, c := range want[e] {
			w, err := canonBytes(c.bytes())
			must(err)
			found = found || w == g
		}
		if !found {
			r.Failf("%s: the key of %s is not its latest valid one", what, e)
		}
	}
	for e := range got {
		if len(want[e]) == 0 {
			r.Failf("%s: there is a key for %q", what, e)
		}
	}
}

// stored drops what is over the limit of size.
func storedOf(want map[string][]certSpec) map[string][]certSpec {
	out := map[string][]certSpec{}
	for e, cs := range want {
		if len(cs[0].bytes()) <= 8192 || cs[0].sub {
			out[e] = cs
		}
	}
	return out
}

func loaded(r *eng.R, what string, files []string) map[string]string {
	keys, err := pgp.LoadKeysFromDisk(files)
	if err != nil {
		r.Failf("%s: load: %v", what, err)
	}
	got := map[string]string{}
	for _, k := range keys {
		if _, ok := got[k.ID]; ok {
			r.Failf("%s: %s is there twice", what, k.ID)
		}
		c, err := canonBytes(k.Packet)
		if err != nil {
			r.Failf("%s: the key of %s: %v", what, k.ID, err)
		}
		got[k.ID] = c
	}
	return got
}

func runC16(r *eng.R) {
	syms := symbolsC16()
	depth := 3
	if r.Thorough {
		depth = 4
	}

	parse := func(dir string, seq []sym, sizes []int) map[string]*openpgp.Entity {
		m, err := pgp.AnalyzeKeyDump(writeDump(dir, seq, sizes))
		if err != nil && unreadable(seq, sizes) {
			r.Outcome("a file without valid certificates")
			return nil
		}
		if err != nil {
			r.Failf("%s in files of %v: %v", names(seq), sizes, err)
		}
		r.Trans(1)
		return m
	}
	one := func(dir string, seq []sym, sizes []int, disk bool) {
		what := fmt.Sprintf("%s in files of %v", names(seq), sizes)
		r.State(what)
		m := parse(dir, seq, sizes)
		if m == nil {
			return
		}
		got := map[string]string{}
		for e, ent := range m {
			got[e] = canonEntity(ent)
		}
		want := expected(seq)
		compareKept(r, "parsing "+what, want, got)
		r.Outcome(fmt.Sprint("kept ", len(got)))
		if disk {
			must(pgp.WriteKeysOnDisk(dir, m))
			full := []string{filepath.Join(dir, pgp.SksParsedFullFileName)}
			compareKept(r, "storing "+what, storedOf(want), loaded(r, what, full))
			el, err := pgp.LoadAndParseKeys(full)
			if err != nil {
				r.Failf("%s: LoadAndParseKeys: %v", what, err)
			}
			got := map[string]string{}
			for _, e := range el {
				got[pgp.PrimaryEmail(e)] = canonEntity(e)
			}
			if len(got) != len(el) {
				r.Failf("%s: %d keys, %d different addresses", what, len(el), len(got))
			}
			compareKept(r, "loading "+what, storedOf(want), got)
			r.Trans(3)
		}
		r.Trace()
	}

	// all sequences; a case is a prefix of length 2
	var rec func(dir string, seq []sym)
	rec = func(dir string, seq []sym) {
		n := len(seq)
		for _, sizes := range compositions(n, 3, n <= 2) {
			one(dir, seq, sizes, n < depth && len(sizes) <= 2)
		}
		if n == depth {
			return
		}
		for _, s := range syms {
			rec(dir, append(append([]sym(nil), seq...), s))
		}
	}
	r.Case("empty dump", func() {
		dir, done := scratch()
		defer done()
		one(dir, nil, []int{}, true)
		one(dir, nil, []int{0}, true)
		one(dir, nil, []int{0, 0}, true)
	})
	for _, a := range syms {
		a := a
		r.Case("dumps of "+names([]sym{a}), func() {
			dir, done := scratch()
			defer done()
			for _, sizes := range compositions(1, 3, true) {
				one(dir, []sym{a}, sizes, true)
			}
		})
		for _, b := range syms {
			b := b
			r.Case("dumps from "+names([]sym{a, b}), func() {
				dir, done := scratch()
				defer done()
				rec(dir, []sym{a, b})
			})
		}
	}

	// sizes
	r.Case("sizes", func() {
		dir, done := scratch()
		defer done()
		var big []sym
		for i, n := range []int{8190, 8191, 8192, 8193, 8194, 8400, 20000, 70000} {
			big = append(big, sym{fmt.Sprint(n, " bytes"), sizedCert(fmt.Sprintf("s%d@x.org", i), 1, n)})
		}
		for i, s := range big {
			one(dir, []sym{s}, []int{1}, true)
			one(dir, []sym{syms[0], s}, []int{2}, true)
			one(dir, []sym{syms[0], s, syms[4]}, []int{3}, true)
			one(dir, append([]sym{syms[0], syms[4]}, big[i:]...), []int{2, len(big) - i}, true)
			one(dir, append([]sym{syms[0], syms[4]}, big[:i]...), []int{2, i}, true)
		}
		// several identities
		for _, n := range []int{2, 3, 20} {
			c := simple("many@x.org", 3)
			for i := 0; i < n; i++ {
				c.uids = append(c.uids, uidSpec{name: fmt.Sprint("Id", i), email: fmt.Sprintf("m%d@x.org", i), t: tBase - int64(i)})
			}
			one(dir, []sym{{fmt.Sprint(n, " identities"), c}}, []int{1}, true)
		}
	})

	// a second result in the same place
	for i := range syms {
		i := i
		r.Case("overwriting "+syms[i].name, func() {
			dir, done := scratch()
			defer done()
			olds := [][]sym{syms[i : i+1], syms[i:], syms[:i]}
			for _, old := range olds {
				for j := range syms {
					for _, cur := range [][]sym{syms[j : j+1], nil} {
						m1, m2 := parse(dir, old, []int{len(old)}), parse(dir, cur, []int{len(cur)})
						if m1 == nil || m2 == nil {
							continue
						}
						must(pgp.WriteKeysOnDisk(dir, m1))
						must(pgp.WriteKeysOnDisk(dir, m2))
						what := fmt.Sprintf("%s over %s", names(cur), names(old))
						r.State(what)
						compareKept(r, "storing "+what, storedOf(expected(cur)), loaded(r, what, []string{filepath.Join(dir, pgp.SksParsedFullFileName)}))
						r.Trans(3)
						r.Trace()
					}
				}
			}
		})
	}

	// many files and many certificates
	r.Case("many files", func() {
		dir, done := scratch()
		defer done()
		in := filepath.Join(dir, "in")
		must(os.Mkdir(in, 0o700))
		var seq []sym
		for i, no := range []int{0, 1, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1024, 4095, 4096, 4097, 5000, 8191, 9000, 9998, 9999} {
			s := sym{fmt.Sprint("file ", no), simple(fmt.Sprintf("f%d@x.org", no), int64(i))}
			seq = append(seq, s)
			must(ioutil.WriteFile(filepath.Join(in, fmt.Sprintf("sks-dump-%04d.pgp", no)), s.c.bytes(), 0o600))
		}
		files, err := pgp.GetSksOriginalDumpFiles(in)
		must(err)
		if len(files) != len(seq) {
			r.Failf("%d of %d files of the dump are found", len(files), len(seq))
		}
		m, err := pgp.AnalyzeKeyDump(files)
		must(err)
		got := map[string]string{}
		for e, ent := range m {
			got[e] = canonEntity(ent)
		}
		compareKept(r, "parsing many files", expected(seq), got)
		r.State("many files")
		r.Trans(2)
		r.Trace()
	})
	many := []int{300, 1100}
	if r.Thorough {
		many = append(many, 4200, 10100)
	}
	for _, n := range many {
		n := n
		r.Case(fmt.Sprint(n, " certificates"), func() {
			dir, done := scratch()
			defer done()
			var seq []sym
			for i := 0; i < n; i++ {
				seq = append(seq, sym{fmt.Sprint("no. ", i), simple(fmt.Sprintf("m%d@x.org", i), int64(i))})
			}
			// the newer one of two is far from the other one
			seq = append(seq, sym{"newer first", simple("m0@x.org", 100000)}, sym{"older last", simple(fmt.Sprintf("m%d@x.org", n-1), -5)})
			all := seq
			for _, sizes := range [][]int{{len(all)}, {1, len(all) - 1}} {
				must(os.RemoveAll(filepath.Join(dir, "x")))
				must(os.Mkdir(filepath.Join(dir, "x"), 0o700))
				m, err := pgp.AnalyzeKeyDump(writeDump(filepath.Join(dir, "x"), all, sizes))
				if err != nil {
					r.Failf("%d certificates: %v", n, err)
				}
				what := fmt.Sprintf("%d certificates in files of %v", n, sizes)
				got := map[string]string{}
				for e, ent := range m {
					got[e] = canonEntity(ent)
				}
				compareKept(r, "parsing "+what, expected(all), got)
				must(pgp.WriteKeysOnDisk(dir, m))
				compareKept(r, "storing "+what, expected(all), loaded(r, what, []string{filepath.Join(dir, pgp.SksParsedFullFileName)}))
				r.State("many", n, sizes)
				r.Trans(3)
			}
			r.Trace()
		})
	}

	// key files cut short
	for n := 0; n <= 3; n++ {
		n := n
		r.Case(fmt.Sprint("cut ", n), func() {
			dir, done := scratch()
			defer done()
			var keys []pgp.Key
			for _, s := range []sym{syms[0], syms[4], {"", simple("c@x.org", 1)}}[:n] {
				keys = append(keys, pgp.Key{ID: s.c.email(), Packet: s.c.bytes()})
			}
			f := filepath.Join(dir, "full")
			writeKeyFile(f, keys)
			b, err := ioutil.ReadFile(f)
			must(err)
			for k := 0; k <= len(b); k++ {
				must(ioutil.WriteFile(f, b[:k], 0o600))
				got, err := pgp.LoadKeysFromDisk([]string{f})
				r.Trans(1)
				r.State("cut", n, k)
				if err != nil {
					r.Outcome("cut: error")
					continue
				}
				r.Outcome("cut: prefix")
				if k == len(b) && len(got) != n {
					r.Failf("%d keys of %d", len(got), n)
				}
				for i, g := range got {
					if i >= n || g.ID != keys[i].ID || !eq(g.Packet, keys[i].Packet) {
						r.Failf("after cutting the file to %d bytes: key %d is %q, not the stored one", k, i, g.ID)
					}
				}
			}
		})
	}

	// the program
	bin := program("data")
	data := func(args ...string) {
		out, err := exec.Command(bin, args...).CombinedOutput()
		r.Trans(1)
		if err != nil {
			r.Failf("data %v: %v\n%s", args, err, out)
		}
	}
	runProgram := func(seq []sym, sizes []int) {
		if unreadable(seq, sizes) {
			return
		}
		what := fmt.Sprintf("%s in files of %v", names(seq), sizes)
		r.State("program", what)
		dir, done := scratch()
		defer done()
		for _, d := range []string{"in", "full", "chunks"} {
			must(os.Mkdir(filepath.Join(dir, d), 0o700))
		}
		writeDump(filepath.Join(dir, "in"), seq, sizes)
		must(ioutil.WriteFile(filepath.Join(dir, "in", "README"), []byte("not a dump"), 0o600))
		must(ioutil.WriteFile(filepath.Join(dir, "in", "sks-dump-01.pgp"), simple("z@x.org", 1).bytes(), 0o600))
		data("-cmd", "parseDump", "-path", filepath.Join(dir, "in"), "-out", filepath.Join(dir, "full"))
		full := filepath.Join(dir, "full", pgp.SksParsedFullFileName)
		want := storedOf(expected(seq))
		compareKept(r, "data -cmd parseDump of "+what, want, loaded(r, what, []string{full}))
		// where there are the chunks of an earlier, larger dump
		var all []pgp.Key
		for _, s := range syms {
			all = append(all, pgp.Key{ID: "old " + s.name, Packet: s.c.bytes()})
		}
		writeKeyFile(filepath.Join(dir, "old"), all)
		data("-cmd", "genChunks", "-path", filepath.Join(dir, "old"), "-out", filepath.Join(dir, "chunks"))
		data("-cmd", "genChunks", "-path", full, "-out", filepath.Join(dir, "chunks"))
		files, err := pgp.GetAllFiles(filepath.Join(dir, "chunks"))
		must(err)
		compareKept(r, "data -cmd genChunks of "+what, want, loaded(r, what, files))
		r.Trace()
	}
	r.Case("program: nothing", func() { runProgram(nil, []int{}) })
	for _, a := range syms {
		a := a
		r.Case("program: from "+a.name, func() {
			runProgram([]sym{a}, []int{1})
			for i, b := range syms {
				if r.Thorough || i%3 == 0 {
					runProgram([]sym{a, b}, []int{1, 1})
				}
				if r.Thorough {
					runProgram([]sym{a, b}, []int{2})
				}
			}
		})
	}
	r.Case("program: all", func() { runProgram(syms, []int{7, 0, len(syms) - 7}) })

	// chunks
	sizes := []int{1000, 52428800 - 2, 104857600 - 2, 104857601}
	maxKeys, most := 3, 120<<20
	if r.Thorough {
		maxKeys, most = 4, 330<<20
	}
	var chunks func(cur []int)
	chunks = func(cur []int) {
		total := 0
		for _, n := range cur {
			total += n
		}
		if len(cur) > 0 && total > 100<<20-10000 {
			r.Case(fmt.Sprint("chunks of keys of ", cur, " bytes"), func() { c16Chunks(r, data, cur) })
		}
		if len(cur) == maxKeys {
			return
		}
		for _, n := range sizes {
			if total+n < most {
				chunks(append(append([]int{}, cur...), n))
			}
		}
	}
	chunks(nil)
}

func c16Chunks(r *eng.R, data func(...string), lens []int) {
	dir, done := scratch()
	defer done()
	must(os.Mkdir(filepath.Join(dir, "chunks"), 0o700))
	defer debug.FreeOSMemory()
	defer debug.SetGCPercent(debug.SetGCPercent(20))
	keys := make([]pgp.Key, len(lens))
	for i, n := range lens {
		keys[i] = pgp.Key{ID: fmt.Sprintf("%02d", i), Packet: make([]byte, n)}
		for j := 0; j < n; j += 997 {
			keys[i].Packet[j] = byte(i + 1 + j)
		}
	}
	full := filepath.Join(dir, "full")
	writeKeyFile(full, keys)
	debug.FreeOSMemory()
	data("-cmd", "genChunks", "-path", full, "-out", filepath.Join(dir, "chunks"))
	files, err := pgp.GetAllFiles(filepath.Join(dir, "chunks"))
	must(err)
	sort.Strings(files)
	r.State(lens, len(files))
	r.Outcome(fmt.Sprint(len(files), " chunks"))
	seen := map[string]bool{}
	for _, f := range files {
		got, err := pgp.LoadKeysFromDisk([]string{f})
		if err != nil {
			r.Failf("%s: %v", filepath.Base(f), err)
		}
		r.Trans(1)
		for _, g := range got {
			if seen[g.ID] {
				r.Failf("key %s is in the chunks twice", g.ID)
			}
			seen[g.ID] = true
			var i int
			if _, err := fmt.Sscanf(g.ID, "%d", &i); err != nil || i >= len(keys) || !eq(g.Packet, keys[i].Packet) {
				r.Failf("key %q in the chunks is not one of the dump", g.ID)
			}
		}
	}
	if len(seen) != len(keys) {
		r.Failf("%d of %d keys are in the %d chunks", len(seen), len(keys), len(files))
	}
	r.Trace()
}
