package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:          "C23",
		Bounds:      "all pairs of strings of up to 4 (thorough 5) symbols over an alphabet with multi-byte and zero symbols, with all prefix and suffix lengths up to 7; all pairs of long strings at one difference around 16, 32 and 64 bytes; all pairs of algorithm codes; all pairs of creation times around year, zone and representation boundaries in 9 zones; all combinations of query flags with inputs of up to 300 bits; 3 other processes and time zones",
		Assumptions: []string{"BLAKE2b does not collide"},
		Run:         runC23,
	})
	dumps["ids"] = func() []byte {
		var w bytes.Buffer
		for _, t := range timesC23() {
			in := &query.Info{}
			a, err := in.IdForCreationTime(t.Local())
			if err != nil {
				panic(err)
			}
			b, err := in.IdForYearCreationTime(t.Local())
			if err != nil {
				panic(err)
			}
			fmt.Fprint(&w, bitKey(a), bitKey(b), ";")
		}
		for _, y := range []string{"1999", "2018", "2019", "2020"} {
			fmt.Fprint(&w, bitKey((&query.Info{Target: query.CreationTime}).ToCreationTimeClientFSS(y).Input), ";")
		}
		fmt.Fprint(&w, bitKey((&query.Info{And: true, FromEnd: 4}).ToAndClientFSS(".edu").Input), ";")
		for _, s := range []string{"", "a", "é@x", strings.Repeat("z", 100)} {
			id, _ := (&query.Info{}).IdForEmail(s)
			fmt.Fprint(&w, bitKey(id), ";")
		}
		for _, s := range []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"} {
			fmt.Fprint(&w, bitKey((&query.Info{Target: query.PubKeyAlgo}).ToPKAClientFSS(s).Input), ";")
		}
		return w.Bytes()
	}
}

func zonesC23() []*time.Location {
	return []*time.Location{time.UTC, time.FixedZone("", 0), time.FixedZone("a", 3600), time.FixedZone("b", -3600), time.FixedZone("c", 14*3600),
		time.FixedZone("d", -12*3600), time.FixedZone("e", 5*3600+1800), time.FixedZone("f", 3607), time.FixedZone("g", -1)}
}

func timesC23() []time.Time {
	var out []time.Time
	for _, y := range []int{1970, 1999, 2000, 2018, 2019, 2020, 2038, 2106} {
		for _, d := range []time.Duration{-24 * time.Hour, -1, 0, 1, time.Second, 24 * time.Hour, -30 * 24 * time.Hour, 180 * 24 * time.Hour} {
			out = append(out, time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
		}
		out = append(out, time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC))
	}
	out = append(out, time.Unix(0, 0), time.Unix(0xffffffff, 0), time.Unix(1<<31-1, 0), time.Unix(1<<31, 0))
	return out
}

func runC23(r *eng.R) {
	ids := func(in *query.Info, s string) ([]bool, bool) {
		a, ok := in.IdForEmail(s)
		b, ok2 := (&query.FSS{Info: in}).IdForEmail(s)
		r.Trans(2)
		if ok != ok2 || bitKey(a) != bitKey(b) {
			r.Failf("identifier of %q differs between client and server", s)
		}
		return a, ok
	}
	pair := func(mode string, n int, v, e string) {
		in := &query.Info{Target: query.UserId}
		want, fits := v == e, true
		switch mode {
		case "start":
			in.FromStart = n
			fits = len(v) >= n && len(e) >= n
			want = fits && v[:n] == e[:n]
		case "end":
			in.FromEnd = n
			fits = len(v) >= n && len(e) >= n
			want = fits && v[len(v)-n:] == e[len(e)-n:]
		}
		a, ok := ids(in, v)
		b, ok2 := ids(in, e)
		if (ok && ok2) != fits {
			r.Failf("%s %d of %q and %q: valid %v, %v", mode, n, v, e, ok, ok2)
		}
		if !fits {
			r.Outcome("too short")
			return
		}
		if len(a) != len(b) {
			r.Failf("%s %d of %q and %q: %d and %d bits", mode, n, v, e, len(a), len(b))
		}
		if (bitKey(a) == bitKey(b)) != want {
			r.Failf("%s %d of %q and %q: identifiers equal is %v", mode, n, v, e, !want)
		}
		r.Outcome(fmt.Sprint(want))
	}
	symbols := []string{"a", "b", "é", "\x00", "@"}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	words := []string{""}
	for i, lvl := 0, []string{""}; i < depth; i++ {
		var next []string
		for _, w := range lvl {
			for _, s := range symbols {
				next = append(next, w+s)
			}
		}
		lvl = next
		words = append(words, next...)
	}
	for wi := range words {
		v := words[wi]
		r.Case(fmt.Sprintf("strings with %q", v), func() {
			// the identifiers once, then all pairs
			for _, mode := range []string{"equal", "start", "end"} {
				max := 7
				if mode == "equal" {
					max = 1
				}
				for n := 1; n <= max; n++ {
					for _, e := range words {
						if len(e)+len(v) > 6 && mode == "equal" && len(e) != len(v) {
							continue
						}
						pair(mode, n, v, e)
					}
				}
			}
			r.State("word", v)
			r.Trace()
		})
	}
	for _, l := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 300, 511, 512, 513, 600} {
		l := l
		r.Case(fmt.Sprintf("strings of %d bytes", l), func() {
			base := make([]byte, l)
			for i := range base {
				base[i] = byte('a' + i%7)
			}
			for i := -1; i < l; i++ {
				for _, bit := range []byte{1, 0x80} {
					x := dup(base)
					if i >= 0 {
						x[i] ^= bit
					}
					for _, mode := range []string{"equal", "start", "end"} {
						for _, n := range []int{1, 2, l / 2, l - 1, l, l + 1} {
							pair(mode, n, string(base), string(x))
							pair(mode, n, string(x), string(base))
							pair(mode, n, string(base), string(x)+"q")
							pair(mode, n, string(base), "q"+string(x))
							pair(mode, n, string(base), string(x)+"\x00")
						}
					}
				}
				r.State("long", l, i+1)
			}
			r.Trace()
		})
	}
	r.Case("emails with near hashes", func() {
		for _, p := range nearHashes {
			for _, v := range p {
				for _, e := range p {
					pair("equal", 1, v, e)
					r.State("near", v, e)
				}
			}
		}
		r.Trace()
	})
	r.Case("algorithms", func() {
		in := &query.Info{Target: query.PubKeyAlgo}
		seen := map[string]int{}
		for a := 0; a < 256; a++ {
			x := in.IdForPubKeyAlgo(packet.PublicKeyAlgorithm(a))
			y := (&query.FSS{Info: in}).IdForPubKeyAlgo(packet.PublicKeyAlgorithm(a))
			if bitKey(x) != bitKey(y) || len(x) != len(in.IdForPubKeyAlgo(0)) {
				r.Failf("algorithm %d: identifiers differ between client and server", a)
			}
			if b, ok := seen[bitKey(x)]; ok {
				r.Failf("algorithms %d and %d have the same identifier", a, b)
			}
			seen[bitKey(x)] = a
			r.State("algo", a)
			r.Trans(2)
		}
		for name, code := range algoNames {
			x := in.ToPKAClientFSS(name)
			if seen[bitKey(x.Input)] != int(code) {
				r.Failf("%s is looked up as algorithm %d", name, seen[bitKey(x.Input)])
			}
			if x.Info == nil || x.Target != query.PubKeyAlgo {
				r.Failf("query for %s has another target", name)
			}
		}
		r.Trace()
	})
	ts := timesC23()
	for ti := range ts {
		ti := ti
		r.Case(fmt.Sprint("times with ", ts[ti].UTC()), func() {
			in := &query.Info{Target: query.CreationTime}
			srv := &query.FSS{Info: in}
			for _, z := range zonesC23() {
				for _, u := range ts {
					for _, z2 := range zonesC23() {
						a, e1 := in.IdForCreationTime(ts[ti].In(z))
						b, e2 := srv.IdForCreationTime(u.In(z2))
						c, e3 := in.IdForYearCreationTime(ts[ti].In(z))
						d, e4 := srv.IdForYearCreationTime(u.In(z2))
						r.Trans(4)
						if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
							r.Failf("%v %v: %v %v %v %v", ts[ti].In(z), u.In(z2), e1, e2, e3, e4)
						}
						if len(a) != len(b) || len(c) != len(d) {
							r.Failf("%v %v: identifiers of different lengths", ts[ti].In(z), u.In(z2))
						}
						if (bitKey(a) == bitKey(b)) != ts[ti].Equal(u) {
							r.Failf("%v %v: identifiers equal is %v", ts[ti].In(z), u.In(z2), bitKey(a) == bitKey(b))
						}
						if (bitKey(c) == bitKey(d)) != (ts[ti].UTC().Year() == u.UTC().Year()) {
							r.Failf("%v %v: years equal is %v", ts[ti].In(z), u.In(z2), bitKey(c) == bitKey(d))
						}
					}
				}
			}
			r.State("time", ti)
			r.Trace()
		})
	}
	r.Case("times: clock readings", func() {
		n := time.Now() // with a monotonic clock
		in := &query.Info{}
		a, _ := in.IdForCreationTime(n)
		b, _ := in.IdForCreationTime(n.Round(0).In(time.FixedZone("x", 7200)))
		if bitKey(a) != bitKey(b) {
			r.Failf("the identifier of a time depends on its clock reading or zone")
		}
		for y := 1900; y < 2200; y++ {
			q := (&query.Info{Target: query.CreationTime}).ToCreationTimeClientFSS(fmt.Sprint(y))
			w, _ := in.IdForCreationTime(time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC).In(time.FixedZone("x", -7200)))
			if bitKey(q.Input) != bitKey(w) {
				r.Failf("creation time %d", y)
			}
			r.State("year", y)
			r.Trans(2)
		}
		r.Trace()
	})
	r.Case("times: days, seconds, years", func() {
		in := &query.Info{}
		seen := map[string]time.Time{}
		years := map[string]int{}
		one := func(t time.Time) {
			a, err := in.IdForCreationTime(t)
			if err != nil {
				r.Failf("%v: %v", t, err)
			}
			if o, ok := seen[bitKey(a)]; ok && !o.Equal(t) {
				r.Failf("%v and %v have the same identifier", o, t)
			}
			seen[bitKey(a)] = t
			y, err := in.IdForYearCreationTime(t)
			if err != nil {
				r.Failf("%v: %v", t, err)
			}
			if o, ok := years[bitKey(y)]; ok && o != t.UTC().Year() {
				r.Failf("the years %d and %d have the same identifier", o, t.UTC().Year())
			}
			years[bitKey(y)] = t.UTC().Year()
			r.Trans(2)
		}
		for d := 0; d < 51200; d++ {
			one(time.Unix(int64(d)*86400, 0))
		}
		for s := 0; s < 86400; s++ {
			one(time.Unix(1543536000+int64(s), 0))
		}
		for y := 1; y <= 3000; y++ {
			one(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC))
			one(time.Date(y, 12, 31, 23, 59, 59, 0, time.UTC))
		}
		for k := uint(0); k < 36; k++ {
			one(time.Unix(1543536000+1<<k, 0))
			one(time.Unix(1<<k, 0))
			if k < 30 {
				one(time.Unix(1543536000, 1<<k))
			}
		}
		if len(years) < 3000 {
			r.Failf("%d identifiers of at least 3000 years", len(years))
		}
		r.State("dense times")
		r.Trace()
	})
	// conjunctions: two records match exactly if year and part of the email do
	r.Case("conjunctions", func() {
		orgs := []string{"a", "b", ".edu", ".com", "é", "epfl.ch", strings.Repeat("x", 40)}
		for _, o := range orgs {
			q := (&query.Info{And: true, FromEnd: len(o)}).ToAndClientFSS(o)
			if q.Info == nil || !q.And || q.FromEnd != len(o) {
				r.Failf("conjunction for %q loses its flags", o)
			}
			for y := 2010; y < 2025; y++ {
				for _, m := range orgs {
					s := &query.FSS{Info: q.Info}
					yi, err := s.IdForYearCreationTime(time.Date(y, 6, 1, 0, 0, 0, 0, time.UTC))
					ei, ok := s.IdForEmail("u@" + m)
					r.Trans(2)
					if err != nil {
						r.Failf("%v", err)
					}
					if !ok {
						continue
					}
					id := append(append([]bool{}, yi...), ei...)
					if len(id) != len(q.Input) {
						r.Failf("conjunction for %q: %d and %d bits", o, len(q.Input), len(id))
					}
					want := y == 2018 && strings.HasSuffix("u@"+m, o)
					if (bitKey(id) == bitKey(q.Input)) != want {
						r.Failf("conjunction for %q and year %d with %q: %v", o, y, m, !want)
					}
				}
			}
			r.State("and", o)
		}
		r.Trace()
	})
	// encoding
	for _, tgt := range []query.Target{query.UserId, query.CreationTime, query.PubKeyAlgo} {
		tgt := tgt
		r.Case(fmt.Sprintf("codec for target %d", tgt), func() {
			for flags := 0; flags < 8; flags++ {
				for _, fs := range []int{0, 1, 5, 300, -1} {
					for _, fe := range []int{0, 1, 7, 256} {
						for _, targets := range [][]query.Target{nil, {query.UserId}, {query.CreationTime, query.UserId}, {query.PubKeyAlgo, query.UserId, query.CreationTime}} {
							for _, n := range []int{0, 1, 7, 8, 9, 128, 300} {
								in := make([]bool, n)
								for i := range in {
									in[i] = i*i%3 == 1
								}
								q := &query.ClientFSS{Info: &query.Info{Target: tgt, FromStart: fs, FromEnd: fe, And: flags&1 > 0, Avg: flags&2 > 0, Sum: flags&4 > 0, Targets: targets}, Input: in}
								b, err := q.Encode()
								if err != nil {
									r.Failf("%v", err)
								}
								d, err := query.DecodeClientFSS(b)
								r.Trans(2)
								if err != nil {
									r.Failf("%+v %v: %v", q.Info, n, err)
								}
								if d.Info == nil || !reflect.DeepEqual(d.Info, q.Info) || bitKey(d.Input) != bitKey(in) || len(d.Input) != n {
									r.Failf("%+v with %d bits decodes to %+v with %d", q.Info, n, d.Info, len(d.Input))
								}
								if n == 8 || n == 9 {
									// what goes to the servers
									m := &query.FSS{Info: q.Info, FssKey: fss.FssKeyEq2P{SInit: []byte{1, 2, 3, 0, 5}, TInit: 1, FinalCW: []uint32{7, 0, 1 << 31}}}
									var w bytes.Buffer
									if err := gob.NewEncoder(&w).Encode(m); err != nil {
										r.Failf("%v", err)
									}
									var m2 *query.FSS
									if err := gob.NewDecoder(&w).Decode(&m2); err != nil {
										r.Failf("%v", err)
									}
									if !reflect.DeepEqual(m.Info, m2.Info) || !reflect.DeepEqual(m.FssKey.FinalCW, m2.FssKey.FinalCW) {
										r.Failf("%+v is sent as %+v", m.Info, m2.Info)
									}
								}
							}
						}
					}
				}
				r.State("codec", int(tgt), flags)
			}
			for n := 0; n < 20; n++ {
				if d, err := query.DecodeClientFSS(make([]byte, n)); err == nil && d == nil {
					r.Failf("no query and no error")
				}
			}
			r.Trace()
		})
	}
	r.Case("bits", func() {
		// injective, eight bits per byte
		seen := map[string]bool{}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				data := []byte{byte(a), byte(b)}
				x := utils.ByteToBits(data)
				if len(x) != 16 || data[0] != byte(a) || data[1] != byte(b) {
					r.Failf("%d bits for two bytes %x", len(x), data)
				}
				if seen[bitKey(x)] {
					r.Failf("bits of %x are those of other bytes", data)
				}
				seen[bitKey(x)] = true
			}
		}
		for n := 0; n < 70; n++ {
			for i := 0; i < n; i++ {
				for bit := uint(0); bit < 8; bit++ {
					d := make([]byte, n)
					d[i] = 1 << bit
					x := utils.ByteToBits(d)
					c := 0
					for p, y := range x {
						if y {
							c++
							if p/8 != i {
								r.Failf("bit of byte %d at %d", i, p)
							}
						}
					}
					if len(x) != 8*n || c != 1 {
						r.Failf("bits of %x", d)
					}
				}
			}
			r.State("bits", n)
		}
		r.Trans(65536 + 70*35*8)
		r.Trace()
	})
	for p, tz := range []string{"Asia/Tokyo", "America/New_York", "UTC", "XYZ-13:30"} {
		p, tz := p, tz
		r.Case("process in zone "+tz, func() {
			a, err := inProcess("ids", p+1, "TZ="+tz)
			if err != nil {
				r.Failf("%v", err)
			}
			b := dumps["ids"]()
			r.Trans(2)
			if !eq(a, b) {
				r.Failf("identifiers depend on the process")
			}
			r.State("process", p)
			r.Trace()
		})
	}
}

func bitKey(b []bool) string {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = '0'
		if b[i] {
			o[i] = '1'
		}
	}
	return string(o)
}
