package main

import (
	"encoding/binary"
	"fmt"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C01",
		Bounds: "rows 1..6 x columns 1..72 (thorough 1..140) and columns around 127..129, 255..257, 511..513, 1023..1025, 2047..2049; block lengths full, ragged, with empty blocks at each end, all empty; 2 to 5 servers, and up to 257 servers, 70000 columns or rows, and blocks of 1100000 bytes in other cases; all indices of small databases, boundary indices of large ones, all ordered pairs of queries of one client on small ones",
		Run:    runC01,
	})
}

func lensOf(layout, n, bs int) []int {
	l := make([]int, n)
	for k := range l {
		switch layout {
		case 0:
			l[k] = bs
		case 1:
			l[k] = (k*7 + k/3) % (bs + 1)
		case 2:
			if k != 0 && k != n-1 {
				l[k] = bs
			}
		case 3:
			l[k] = 0
		case 4:
			if k == n/2 {
				l[k] = bs
			}
		}
	}
	return l
}

func contentOf(c int) func(k, p int) byte {
	return func(k, p int) byte {
		switch c {
		case 1:
			return 0xff
		default:
			return byte(k*131 + (k>>8)*17 + p*7 + (p>>8)*3 + 1)
		}
	}
}

func runC01(r *eng.R) {
	retrieve := func(c *client.PIR, db *database.Bytes, blocks [][]byte, ix, ns int, viaBytes bool) {
		var qs [][]byte
		var err error
		if viaBytes {
			in := make([]byte, 4)
			binary.BigEndian.PutUint32(in, uint32(ix))
			qs, err = c.QueryBytes(in, ns)
			if err != nil {
				r.Failf("index %d: query: %v", ix, err)
			}
		} else {
			qs = c.Query(ix, ns)
		}
		as, err := answersOf(pirServers(db, ns), qs)
		if err != nil {
			r.Failf("index %d: answer: %v", ix, err)
		}
		res, err := c.ReconstructBytes(as)
		if err != nil {
			r.Failf("index %d: reconstruct: %v", ix, err)
		}
		r.Trans(ns + 2)
		got, ok := res.([]byte)
		if !ok || !eq(got, padded(blocks[ix], db.BlockSize)) {
			r.Failf("index %d of %dx%d (block size %d, %d servers): got %x, stored %x", ix, db.NumRows, db.NumColumns, db.BlockSize, ns, got, blocks[ix])
		}
		r.Trace()
		r.Outcome(fmt.Sprintf("len%d", len(blocks[ix])))
	}
	maxC := 72
	if r.Thorough {
		maxC = 140
	}
	var cols []int
	for c := 1; c <= maxC; c++ {
		cols = append(cols, c)
	}
	for _, c := range []int{120, 127, 128, 129, 135, 136, 137, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049} {
		if c > maxC {
			cols = append(cols, c)
		}
	}
	for _, rows := range []int{1, 2, 3, 4, 6} {
		for _, nc := range cols {
			if nc > maxC && rows > 2 {
				continue
			}
			for ns := 2; ns <= 5; ns++ {
				rows, nc, ns := rows, nc, ns
				r.Case(fmt.Sprintf("shape rows=%d cols=%d servers=%d", rows, nc, ns), func() {
					for _, bs := range []int{1, 5, 16, 33} {
						for layout := 0; layout < 5; layout++ {
							if nc > 40 && (bs == 16 || layout > 2) {
								continue
							}
							tape := detrand.Seed(uint64(rows*100000+nc*10+ns) + r.Seed<<32)
							db, blocks := bytesDB(rows, nc, bs, lensOf(layout, rows*nc, bs), contentOf(layout/4))
							c := client.NewPIR(tape, &db.Info)
							idx := upTo(rows * nc)
							if rows*nc > 90 {
								idx = boundaries(rows * nc)
								for row := 1; row < rows; row++ {
									for _, d := range []int{-2, -1, 0, 1, 8, nc / 2, nc - 1} {
										if k := row*nc + d; k < rows*nc && !has(idx, k) {
											idx = append(idx, k)
										}
									}
								}
							}
							for _, ix := range idx {
								// one client for the whole history of queries, and a fresh one
								retrieve(c, db, blocks, ix, ns, ix%2 == 0)
								r.State("s", rows, nc, ns, bs, layout, ix)
							}
							if rows*nc <= 30 {
								for i := len(idx) - 1; i >= 0; i-- {
									retrieve(client.NewPIR(tape, &db.Info), db, blocks, idx[i], ns, true)
								}
							}
						}
					}
				})
			}
		}
	}
	// all ordered pairs of queries on one client, with servers kept, answers of
	// the first query reconstructed before or never
	for _, sh := range [][2]int{{1, 1}, {1, 2}, {1, 9}, {2, 3}, {3, 3}, {2, 8}, {3, 17}} {
		for ns := 2; ns <= 4; ns++ {
			sh, ns := sh, ns
			r.Case(fmt.Sprintf("pairs rows=%d cols=%d servers=%d", sh[0], sh[1], ns), func() {
				n := sh[0] * sh[1]
				db, blocks := bytesDB(sh[0], sh[1], 6, lensOf(1, n, 6), contentOf(0))
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						tape := detrand.Seed(uint64(i*1000 + j))
						c := client.NewPIR(tape, &db.Info)
						if (i+j)%2 == 0 {
							retrieve(c, db, blocks, i, ns, true)
						} else {
							c.Query(i, ns)
						}
						retrieve(c, db, blocks, j, ns, false)
						r.State("p", n, ns, i, j)
					}
				}
			})
		}
	}
	// many servers, columns or bytes
	for _, sh := range [][4]int{{1, 300, 5, 9}, {2, 300, 5, 10}, {1, 600, 3, 16}, {1, 2100, 1, 17}, {2, 1030, 9, 8}, {3, 70, 40, 33}, {1, 12, 4, 130}, {1, 20, 3, 257},
		{1, 4097, 64, 2}, {1, 4200, 70, 3}, {2, 4100, 66, 2}, {1, 70000, 1, 2}, {1, 70000, 2, 3}, {1, 33000, 8, 4}, {2, 66000, 1, 2}, {300, 3, 4, 2}, {70000, 1, 2, 2}, {1100, 60, 1, 3}, {70, 70, 130, 2},
		{1, 3, 65537, 2}, {2, 2, 70000, 3}, {1, 9, 1100000, 2}, {1, 300, 9000, 3}, {300, 300, 3, 2}} {
		sh := sh
		r.Case(fmt.Sprintf("large rows=%d cols=%d block=%d servers=%d", sh[0], sh[1], sh[2], sh[3]), func() {
			for layout := 0; layout < 3; layout++ {
				n := sh[0] * sh[1]
				db, blocks := bytesDB(sh[0], sh[1], sh[2], lensOf(layout, n, sh[2]), contentOf(0))
				c := client.NewPIR(detrand.Seed(uint64(layout)), &db.Info)
				idx := boundaries(n)
				for _, k := range []int{255, 256, 257, 511, 4095, 4096, 4097, 32767, 32768, 65535, 65536} {
					if k < n && !has(idx, k) {
						idx = append(idx, k)
					}
				}
				if sh[0]*sh[1]*sh[2]*sh[3] > 1000000 && len(idx) > 6 && !r.Thorough {
					idx = append(idx[:3:3], idx[len(idx)-3:]...)
				}
				for _, ix := range idx {
					retrieve(c, db, blocks, ix, sh[3], true)
					r.State("large", fmt.Sprint(sh), layout, ix)
				}
			}
		})
	}
	// one client with changing numbers of servers
	for i := 0; i < 6; i++ {
		i := i
		r.Case(fmt.Sprintf("servers change %d", i), func() {
			db, blocks := bytesDB(2, 11, 9, lensOf(1, 22, 9), contentOf(0))
			c := client.NewPIR(detrand.Seed(uint64(i)), &db.Info)
			seqs := [][]int{{2, 3, 2}, {3, 2, 5}, {5, 4, 3, 2}, {2, 2, 3, 3}, {4, 2, 4, 2}, {6, 7, 2, 8}}
			for ix := 0; ix < 22; ix++ {
				for _, ns := range seqs[i] {
					retrieve(c, db, blocks, ix, ns, true)
					r.State("v", i, ix, ns)
				}
			}
		})
	}
	// databases from the constructor of random databases
	for rows := 1; rows <= 4; rows++ {
		for _, nc := range []int{1, 2, 7, 8, 9, 16, 31, 64, 65} {
			for _, bl := range []int{1, 4, 16} {
				for ns := 2; ns <= 3; ns++ {
					rows, nc, bl, ns := rows, nc, bl, ns
					r.Case(fmt.Sprintf("random rows=%d cols=%d block=%d servers=%d", rows, nc, bl, ns), func() {
						tape := detrand.Seed(uint64(rows*1000 + nc*10 + bl))
						db := database.CreateRandomBytes(tape, rows*nc*bl*8, rows, bl)
						if db.NumRows != rows || db.NumColumns != nc || db.BlockSize != bl || len(db.Entries) != rows*nc*bl {
							r.Failf("unexpected shape %dx%dx%d", db.NumRows, db.NumColumns, db.BlockSize)
						}
						blocks := make([][]byte, rows*nc)
						for k := range blocks {
							blocks[k] = db.Entries[k*bl : (k+1)*bl]
						}
						c := client.NewPIR(tape, &db.Info)
						for ix := range blocks {
							retrieve(c, db, blocks, ix, ns, true)
							r.State("r", rows, nc, bl, ns, ix)
						}
					})
				}
			}
		}
	}
}
