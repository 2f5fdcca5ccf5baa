// Package detrand makes crypto/rand deterministic: it is imported (and, thanks
// to its import path, initialised) before the packages of the code under test.
// Every case of an exploration starts from a tape of its own, so that what the
// code under test draws from the system is a function of the case.
package detrand

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/binary"
	"io"
	"os"
	"strconv"
	"sync"
)

// Tape is a deterministic, inexhaustible source of bytes.
type Tape struct {
	mu     sync.Mutex
	stream cipher.Stream
	fixed  []byte // served first
	used   int
}

// New returns the tape number seed.
func New(seed uint64) *Tape {
	var key [16]byte
	binary.LittleEndian.PutUint64(key[:], seed)
	copy(key[8:], "verifdet")
	b, err := aes.NewCipher(key[:])
	if err != nil {
		panic(err)
	}
	return &Tape{stream: cipher.NewCTR(b, make([]byte, 16))}
}

// Prefix returns a tape that starts with the given bytes.
func Prefix(p []byte, seed uint64) *Tape {
	t := New(seed)
	t.fixed = append([]byte(nil), p...)
	return t
}

func (t *Tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i := range p {
		p[i] = 0
	}
	t.stream.XORKeyStream(p, p)
	n := copy(p, t.fixed)
	t.fixed = t.fixed[n:]
	t.used += len(p)
	return len(p), nil
}

// Used tells how many bytes were read.
func (t *Tape) Used() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.used
}

type global struct {
	mu  sync.Mutex
	cur io.Reader
}

func (g *global) Read(p []byte) (int, error) {
	g.mu.Lock()
	c := g.cur
	g.mu.Unlock()
	return c.Read(p)
}

var g = &global{cur: New(0)}

// Set replaces the system's source of randomness.
func Set(r io.Reader) {
	g.mu.Lock()
	g.cur = r
	g.mu.Unlock()
}

// Seed replaces the system's source of randomness by tape number seed.
func Seed(seed uint64) *Tape {
	t := New(seed)
	Set(t)
	return t
}

func init() {
	// the tape that the initialisation of the process reads
	if v, err := strconv.ParseUint(os.Getenv("VERIF_TAPE0"), 10, 64); err == nil {
		g.cur = New(v)
	}
	rand.Reader = g
}
