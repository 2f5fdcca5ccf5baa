package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:       "C19",
		Bounds:   "for each scheme, about 80 deviations of one server's information (every field up and down, to zero, far; rows and columns exchanged; every byte of the root changed, the root cut, extended, zero and absent; combinations that keep sums and products; two deviating servers), every deviating server among 2 and 3, all orders of the replies for 2 servers and each order for every third deviation for 3 servers (thorough: all); command-line client, client of the simulations, library; a server that deviates only for a while; agreed values up to the largest ones",
		QuickSec: 400,
		Run:      runC19,
	})
}

func copyInfo(a *proto.DatabaseInfoResponse) *proto.DatabaseInfoResponse {
	return &proto.DatabaseInfoResponse{NumRows: a.NumRows, NumColumns: a.NumColumns, BlockLength: a.BlockLength,
		PirType: a.PirType, Root: dup(a.Root), ProofLen: a.ProofLen}
}

func infoString(a *proto.DatabaseInfoResponse) string {
	return fmt.Sprintf("%d %d %d %q %x %d", a.NumRows, a.NumColumns, a.BlockLength, a.PirType, a.Root, a.ProofLen)
}

type deviation struct {
	name string
	f    func(*proto.DatabaseInfoResponse)
}

func deviations(base *proto.DatabaseInfoResponse) []deviation {
	var out []deviation
	add := func(name string, f func(i *proto.DatabaseInfoResponse)) {
		c := copyInfo(base)
		f(c)
		if infoString(c) != infoString(base) {
			out = append(out, deviation{name, f})
		}
	}
	nums := []struct {
		name string
		at   func(i *proto.DatabaseInfoResponse) *uint32
	}{
		{"rows", func(i *proto.DatabaseInfoResponse) *uint32 { return &i.NumRows }},
		{"columns", func(i *proto.DatabaseInfoResponse) *uint32 { return &i.NumColumns }},
		{"block length", func(i *proto.DatabaseInfoResponse) *uint32 { return &i.BlockLength }},
		{"proof length", func(i *proto.DatabaseInfoResponse) *uint32 { return &i.ProofLen }},
	}
	for _, n := range nums {
		n := n
		for _, d := range []int64{1, -1, 8, 256, 65536, 1 << 31} {
			d := d
			add(fmt.Sprintf("%s %+d", n.name, d), func(i *proto.DatabaseInfoResponse) { *n.at(i) += uint32(d) })
		}
		add(n.name+" 0", func(i *proto.DatabaseInfoResponse) { *n.at(i) = 0 })
		add(n.name+" 1", func(i *proto.DatabaseInfoResponse) { *n.at(i) = 1 })
		add(n.name+" doubled", func(i *proto.DatabaseInfoResponse) { *n.at(i) *= 2 })
	}
	for a := range nums {
		for b := range nums {
			a, b := nums[a], nums[b]
			if a.name == b.name {
				continue
			}
			add(a.name+" +1, "+b.name+" -1", func(i *proto.DatabaseInfoResponse) { *a.at(i)++; *b.at(i)-- })
			if a.name < b.name {
				add(a.name+" and "+b.name+" exchanged", func(i *proto.DatabaseInfoResponse) { *a.at(i), *b.at(i) = *b.at(i), *a.at(i) })
			}
		}
	}
	add("columns to rows", func(i *proto.DatabaseInfoResponse) { i.NumRows, i.NumColumns = i.NumRows*i.NumColumns, 1 })
	add("rows to columns", func(i *proto.DatabaseInfoResponse) { i.NumRows, i.NumColumns = 1, i.NumRows*i.NumColumns })
	for _, t := range []string{"", "merkle", "Merkle", "merkle ", "classical", "vpir"} {
		t := t
		add(fmt.Sprintf("type %q", t), func(i *proto.DatabaseInfoResponse) { i.PirType = t })
	}
	for k := 0; k < 32; k++ {
		k := k
		add(fmt.Sprintf("root byte %d", k), func(i *proto.DatabaseInfoResponse) {
			if k < len(i.Root) {
				i.Root[k] ^= 1 << uint(k%8)
			}
		})
	}
	add("root without its end", func(i *proto.DatabaseInfoResponse) {
		if len(i.Root) > 0 {
			i.Root = i.Root[:len(i.Root)-1]
		}
	})
	add("root without its start", func(i *proto.DatabaseInfoResponse) {
		if len(i.Root) > 0 {
			i.Root = i.Root[1:]
		}
	})
	add("longer root", func(i *proto.DatabaseInfoResponse) { i.Root = append(i.Root, 0) })
	add("no root", func(i *proto.DatabaseInfoResponse) { i.Root = nil })
	add("root of zeros", func(i *proto.DatabaseInfoResponse) { i.Root = make([]byte, len(i.Root)) })
	add("another root", func(i *proto.DatabaseInfoResponse) { i.Root = bytes.Repeat([]byte{7}, 32) })
	add("unauthenticated", func(i *proto.DatabaseInfoResponse) { i.PirType, i.Root, i.ProofLen = "", nil, 0 })
	add("authenticated", func(i *proto.DatabaseInfoResponse) { i.PirType, i.Root, i.ProofLen = "merkle", make([]byte, 32), 41 })
	return out
}

func runC19(r *eng.R) {
	if !usable(r) {
		return
	}
	sv := services{}
	type prog struct {
		name, bin string
		args      func(scheme string, n int) []string
	}
	sims := map[string]string{"pointPIR": "pir-classic", "pointVPIR": "pir-merkle", "complexPIR": "fss-classic", "complexVPIR": "fss-auth"}
	progs := []prog{
		{"client", "client", func(scheme string, n int) []string {
			return append([]string{"-scheme", scheme}, wantsOf(scheme)[0].args...)
		}},
		{"simulation client", "multi", func(scheme string, n int) []string {
			return []string{"-scheme", sims[scheme], "-numServers", fmt.Sprint(n), "-repetitions", "1", "-elemBitSize", "8", "-bitsToRetrieve", "8", "-inputSize", "2"}
		}},
	}
	// plant makes the servers of dev deviate.
	plant := func(c *cluster, base *proto.DatabaseInfoResponse, dev map[int]deviation) {
		for i, d := range dev {
			in := copyInfo(base)
			d.f(in)
			c.s[i].onInfo = func() (*proto.DatabaseInfoResponse, error) { return in, nil }
		}
	}
	unforced := 0
	deviate := func(p prog, scheme string, n int, dev map[int]deviation, order []int) {
		d := ""
		for i := 0; i < n; i++ {
			if x, ok := dev[i]; ok {
				d += fmt.Sprintf(", server %d: %s", i, x.name)
			}
		}
		r.Case(fmt.Sprintf("%s %s, %d servers%s, replies %s", p.name, scheme, n, d, permName(order)), func() {
			dir, done := scratch()
			defer done()
			v := sv.get(scheme, n)
			c := v.cluster(dir)
			defer c.stop()
			plant(c, v.info, dev)
			g, _ := c.gated(order, order)
			got := runProgram(p.bin, 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(order)}, p.args(scheme, n)...)
			mustFail(r, got)
			for i, s := range c.s {
				if q := s.seen(); len(q) > 0 {
					r.Failf("server %d got a query", i)
				}
			}
			if !g.forced() {
				unforced++
			}
			r.State(p.name, scheme, n, d, order)
			r.Trans(n)
			r.Trace()
			r.Outcome("refused")
		})
	}
	library := func(scheme string, n int, dev map[int]deviation, order []int) {
		d := ""
		for i := 0; i < n; i++ {
			if x, ok := dev[i]; ok {
				d += fmt.Sprintf(", server %d: %s", i, x.name)
			}
		}
		r.Case(fmt.Sprintf("library %s, %d servers%s, replies %s", scheme, n, d, permName(order)), func() {
			dir, done := scratch()
			defer done()
			v := sv.get(scheme, n)
			c := v.cluster(dir)
			defer c.stop()
			a := connect(r, c)
			base := c.s[0].onInfo
			for round := 0; round < 3; round++ {
				for _, s := range c.s {
					s.onInfo = base
				}
				if round == 1 {
					plant(c, v.info, dev)
				}
				c.gated(order, order)
				infos, err := a.GetDBInfos()
				if round == 1 {
					if err == nil {
						r.Failf("no error: %v", infos)
					}
					continue
				}
				if err != nil {
					r.Failf("round %d: %v", round, err)
				}
				checkInfos(r, infos, n, v.info)
			}
			r.State("library", scheme, n, d, order)
			r.Trans(3 * n)
			r.Trace()
			r.Outcome("refused")
		})
	}
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3} {
			if n == 3 && !point(scheme) {
				continue
			}
			v := sv.get(scheme, n)
			ds := deviations(v.info)
			ps := permutations(n)
			for k, d := range ds {
				for i := 0; i < n; i++ {
					for o, order := range ps {
						all := n == 2 || (k+o)%3 == 0 || r.Thorough
						if all {
							deviate(progs[0], scheme, n, map[int]deviation{i: d}, order)
						}
						if all && (k+o+i)%2 == 0 || r.Thorough {
							deviate(progs[1], scheme, n, map[int]deviation{i: d}, order)
						}
						library(scheme, n, map[int]deviation{i: d}, order)
					}
				}
				// two deviate, in the same or in different ways
				if n == 3 && k%4 == 0 {
					order := ps[k/4%len(ps)]
					e := ds[(k*7+3)%len(ds)]
					for i := 0; i < n; i++ {
						j := (i + 1) % n
						if infoAfter(v.info, d) != infoAfter(v.info, e) {
							deviate(progs[0], scheme, n, map[int]deviation{i: d, j: e}, order)
							library(scheme, n, map[int]deviation{i: d, j: e}, order)
						}
						deviate(progs[0], scheme, n, map[int]deviation{i: d, j: d}, order)
						library(scheme, n, map[int]deviation{i: d, j: d}, order)
					}
				}
			}
		}
	}
	runAgreed(r)
	if unforced > 0 {
		r.Note("%d orders could not be enforced, as the client does not have its requests under way at once", unforced)
	}
}

func infoAfter(base *proto.DatabaseInfoResponse, d deviation) string {
	c := copyInfo(base)
	d.f(c)
	return infoString(c)
}

func checkInfos(r *eng.R, infos []database.Info, n int, want *proto.DatabaseInfoResponse) {
	if len(infos) != n {
		r.Failf("information of %d servers, not %d", len(infos), n)
	}
	for _, in := range infos {
		in := in
		if uint64(in.NumRows) != uint64(want.NumRows) || uint64(in.NumColumns) != uint64(want.NumColumns) ||
			uint64(in.BlockSize) != uint64(want.BlockLength) || in.PIRType != want.PirType {
			r.Failf("got %+v, the servers report %s", in, infoString(want))
		}
		var root []byte
		proof := 0
		if in.Merkle != nil {
			root, proof = in.Root, in.ProofLen
		}
		if !eq(root, want.Root) || uint64(proof) != uint64(want.ProofLen) {
			r.Failf("got root %x and proof length %d, the servers report %s", root, proof, infoString(want))
		}
	}
}

// what all the servers report is used
func runAgreed(r *eng.R) {
	big := []uint32{0, 1, 2, 255, 256, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	for _, n := range []int{2, 3} {
		n := n
		r.Case(fmt.Sprintf("library, %d servers agree", n), func() {
			dir, done := scratch()
			defer done()
			c := newCluster(n, dir, func(int) *proto.DatabaseInfoResponse { return nil }, func(int, []byte) ([]byte, error) { return nil, nil })
			defer c.stop()
			a := connect(r, c)
			k := 0
			for f := 0; f < 4; f++ {
				for _, v := range big {
					for _, t := range []string{"", "merkle", "x"} {
						for _, root := range [][]byte{nil, {0}, bytes.Repeat([]byte{0xab}, 32), bytes.Repeat([]byte{1}, 100)} {
							in := &proto.DatabaseInfoResponse{NumRows: 3, NumColumns: 4, BlockLength: 5, ProofLen: 6, PirType: t, Root: root}
							*[]*uint32{&in.NumRows, &in.NumColumns, &in.BlockLength, &in.ProofLen}[f] = v
							for _, s := range c.s {
								s.onInfo = func() (*proto.DatabaseInfoResponse, error) { return in, nil }
							}
							infos, err := a.GetDBInfos()
							if err != nil {
								r.Failf("%s: %v", infoString(in), err)
							}
							checkInfos(r, infos, n, in)
							k++
							r.State("agreed", n, infoString(in))
						}
					}
				}
			}
			r.Trans(k * n)
			r.Trace()
			r.Outcome("used")
		})
	}
	// the queries of the command-line client are for the agreed layout
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3} {
			if n == 3 && !point(scheme) {
				continue
			}
			for _, rows := range []uint32{1, 3, 64} {
				for _, cols := range []uint32{1, 7, 8, 9, 64, 129, 1000, 4097} {
					for _, bs := range []uint32{1, 64} {
						scheme, n := scheme, n
						in := &proto.DatabaseInfoResponse{NumRows: rows, NumColumns: cols, BlockLength: bs}
						if auth(scheme) {
							in.PirType, in.Root, in.ProofLen = "merkle", make([]byte, 32), 1
						}
						r.Case(fmt.Sprintf("client %s, %d servers agree on %s", scheme, n, infoString(in)), func() {
							dir, done := scratch()
							defer done()
							c := newCluster(n, dir, func(int) *proto.DatabaseInfoResponse { return in }, func(int, []byte) ([]byte, error) { return nil, nil })
							defer c.stop()
							w := wantsOf(scheme)[0]
							got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(upTo(n))}, append([]string{"-scheme", scheme}, w.args...)...)
							mustFail(r, got)
							if point(scheme) {
								info := &database.Info{NumRows: int(rows), NumColumns: int(cols), BlockSize: int(bs), PIRType: in.PirType,
									Merkle: &database.Merkle{Root: in.Root, ProofLen: int(in.ProofLen)}}
								exp, err := client.NewPIR(utils.RandomPRG(), info).QueryBytes(be32(hashOf(w.args[1], *info)), n)
								must(err)
								for i, s := range c.s {
									if q := s.seen(); len(q) != 1 || len(q[0]) != len(exp[i]) {
										r.Failf("server %d got %x, not one query of length %d", i, q, len(exp[i]))
									}
								}
							}
							r.State("cli agreed", scheme, n, infoString(in))
							r.Trans(2 * n)
							r.Trace()
							r.Outcome("used")
						})
					}
				}
			}
		}
	}
}
