package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func dup(b []byte) []byte { return append([]byte(nil), b...) }

func dups(b [][]byte) [][]byte {
	o := make([][]byte, len(b))
	for i := range b {
		o[i] = dup(b[i])
	}
	return o
}

// bytesDB builds a database of blocks; block k has lens[k] bytes.
func bytesDB(rows, cols, bs int, lens []int, content func(k, p int) byte) (*database.Bytes, [][]byte) {
	db := database.InitBytes(rows, cols, bs)
	blocks := make([][]byte, rows*cols)
	for k := range blocks {
		b := make([]byte, lens[k])
		for p := range b {
			b[p] = content(k, p)
		}
		blocks[k] = b
		db.BlockLengths[k] = len(b)
		db.Entries = append(db.Entries, b...)
	}
	return db, blocks
}

func padded(b []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, b)
	return o
}

// pirServers returns n servers for point queries.
func pirServers(db *database.Bytes, n int) []server.Server {
	s := make([]server.Server, n)
	for i := range s {
		if n == 2 {
			s[i] = server.NewPIRTwo(db)
		} else {
			s[i] = server.NewPIR(db)
		}
	}
	return s
}

func answersOf(s []server.Server, q [][]byte) ([][]byte, error) {
	if len(q) != len(s) {
		return nil, fmt.Errorf("%d queries for %d servers", len(q), len(s))
	}
	a := make([][]byte, len(s))
	for i := range s {
		var err error
		a[i], err = s[i].AnswerBytes(q[i])
		if err != nil {
			return nil, err
		}
	}
	return a, nil
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

// boundaries returns the interesting indices of 0..n-1.
func boundaries(n int) []int {
	cand := []int{0, 1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129,
		254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096,
		n / 2, n - 10, n - 9, n - 8, n - 7, n - 3, n - 2, n - 1}
	seen := map[int]bool{}
	var out []int
	for _, c := range cand {
		if c >= 0 && c < n && !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

func upTo(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// bitOf is the bit that a client returned.
func bitOf(v interface{}) (byte, bool) {
	switch b := v.(type) {
	case byte:
		return b, true
	case uint32:
		return byte(b), b < 2
	case int:
		return byte(b), b == 0 || b == 1
	case []byte:
		if len(b) == 1 {
			return b[0], true
		}
	}
	return 0, false
}

// scratch makes a directory, to be removed with the returned function.
func scratch() (string, func()) {
	d, err := ioutil.TempDir(eng.TempDir(), "scratch")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// program is the path of a program of the repository built for this check.
func program(name string) string { return filepath.Join(os.Getenv("VERIF_BIN"), name) }
