// Package eng is the exploration engine shared by all the checks.
//
// A check is a deterministic enumeration of cases. The parent process runs it
// in several shards (child processes, each running the cases whose number is
// congruent to its own), so that a case that crashes, exits or hangs the
// process is attributed to that case and the exploration continues after it.
// Every failure is run again from its description before it is reported, and
// written to a replay file.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// R is handed to a check.
type R struct {
	ID       string
	Thorough bool
	Seed     uint64

	shard, nshards int
	replay         string // run only the case with this description
	skipTo         int    // first case number to run
	deadline       time.Time

	mu      sync.Mutex
	n       int // cases enumerated
	cur     string
	journal *os.File
	fails   []Failure
	caseErr string
	res     result
	states  map[uint64]struct{}
	capped  bool
	last    time.Time
	start   time.Time
}

// Failure is a violation in one case.
type Failure struct {
	Case string `json:"case"`
	What string `json:"what"`
	Rep  string `json:"reproduced,omitempty"`
}

type result struct {
	Cases       int
	Transitions int
	Traces      int
	Outcomes    map[string]int
	Samples     []string
	Notes       []string
	Capped      bool
	SlowestMS   int
	Slowest     string
	Done        bool
	Failures    []Failure
}

type stop struct{}

// Case runs one case, if it belongs to this process. The function f explores
// the case; it reports violations with r.Failf, or panics.
func (r *R) Case(desc string, f func()) {
	n := r.n
	r.n++
	if r.replay != "" {
		if desc != r.replay {
			return
		}
	} else {
		if n%r.nshards != r.shard || n < r.skipTo {
			return
		}
		if time.Now().After(r.deadline) {
			r.capped = true
			panic(stop{})
		}
	}
	r.cur = desc
	began := time.Now()
	defer func() {
		if d := int(time.Since(began).Milliseconds()); d > r.res.SlowestMS {
			r.res.SlowestMS, r.res.Slowest = d, desc
		}
	}()
	r.journalCase(n, desc)
	r.res.Cases++
	if len(r.res.Samples) < 2 || (len(r.res.Samples) < 4 && r.res.Cases%97 == 0) {
		r.res.Samples = append(r.res.Samples, desc)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					panic(e)
				}
				if _, ok := e.(failed); ok {
					return
				}
				st := string(debug.Stack())
				r.fails = append(r.fails, Failure{Case: desc, What: fmt.Sprintf("panic: %v\n%s", e, trimStack(st))})
			}
		}()
		f()
	}()
	r.cur = ""
	if len(r.fails) >= 2 {
		panic(stop{})
	}
	if time.Since(r.last) > 10*time.Second {
		r.last = time.Now()
		r.flush(false)
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	skip := true
	for _, l := range lines {
		if skip && strings.Contains(l, "panic(") {
			skip = false
		}
		if !skip {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type failed struct{}

// Failf reports a violation and abandons the case.
func (r *R) Failf(format string, a ...interface{}) {
	r.mu.Lock()
	r.fails = append(r.fails, Failure{Case: r.cur, What: fmt.Sprintf(format, a...)})
	r.mu.Unlock()
	panic(failed{})
}

// State records a state of the explored system, by what is observable of it.
func (r *R) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			h.Write(b[:])
		case uint32:
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], v)
			h.Write(b[:])
		case byte:
			h.Write([]byte{v})
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xff, 0})
	}
	r.mu.Lock()
	if len(r.states) < 40_000_000 {
		r.states[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Trans records n executed operations of the code under test.
func (r *R) Trans(n int) {
	r.mu.Lock()
	r.res.Transitions += n
	r.mu.Unlock()
}

// Trace records a complete execution of the code under test that was compared
// with the reference model at every step.
func (r *R) Trace() {
	r.mu.Lock()
	r.res.Traces++
	r.mu.Unlock()
}

// Outcome counts the different observed outcomes.
func (r *R) Outcome(o string) {
	r.mu.Lock()
	r.res.Outcomes[o]++
	r.mu.Unlock()
}

// Note adds a remark to the evidence.
func (r *R) Note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, n := range r.res.Notes {
		if n == s {
			return
		}
	}
	if len(r.res.Notes) < 40 {
		r.res.Notes = append(r.res.Notes, s)
	}
}

// Cur is the description of the running case.
func (r *R) Cur() string { return r.cur }

// Cap marks the exploration as not exhaustive.
func (r *R) Cap() { r.capped = true }

// Expired tells whether the time for the exploration is used up.
func (r *R) Expired() bool {
	if time.Now().After(r.deadline) {
		r.capped = true
		return true
	}
	return false
}

func (r *R) journalCase(n int, desc string) {
	if r.journal == nil {
		return
	}
	b := make([]byte, 8, 8+len(desc)+8)
	binary.LittleEndian.PutUint32(b, uint32(n))
	binary.LittleEndian.PutUint32(b[4:], uint32(len(desc)))
	b = append(b, desc...)
	r.journal.WriteAt(b, 0)
}

func (r *R) flush(done bool) {
	if r.journal == nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.Capped = r.capped
	r.res.Failures = r.fails
	b, err := json.Marshal(r.res)
	if err != nil {
		panic(err)
	}
	writeFile(r.journal.Name()+".json", b)
	if done {
		sb := make([]byte, 0, 8*len(r.states))
		for s := range r.states {
			sb = binary.LittleEndian.AppendUint64(sb, s)
		}
		writeFile(r.journal.Name()+".states", sb)
	}
}

func writeFile(name string, b []byte) {
	if err := os.WriteFile(name+".tmp", b, 0600); err != nil {
		return
	}
	os.Rename(name+".tmp", name)
}

// Check is a registered check.
type Check struct {
	ID          string
	Run         func(r *R)
	Shards      int // default: number of CPUs
	Assumptions []string
	Bounds      string // what is enumerated
	QuickBounds string
	// NoSilence keeps the output of children (for debugging)
	MemGB     int // limit of the address space of a shard; 0: none
	QuickSec  int // deadline of the exploration; default 240
	HangSec   int // CPU or idle seconds in one case; default 180
	Exhaust   bool
	CrashIsOK bool
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Main runs the check with the given id.
func Main(c *Check) {
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	seed := uint64(envInt("VERIF_SEED", 1))
	if os.Getenv("VERIF_SHARD") != "" || os.Getenv("VERIF_CASE") != "" {
		child(c, thorough, seed)
		return
	}
	os.Exit(parent(c, thorough, seed))
}

func child(c *Check, thorough bool, seed uint64) {
	if c.MemGB > 0 {
		lim := uint64(c.MemGB) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetTraceback("single")
	log.SetOutput(io.Discard)
	r := &R{ID: c.ID, Thorough: thorough, Seed: seed, nshards: 1, states: map[uint64]struct{}{}}
	r.res.Outcomes = map[string]int{}
	r.start = time.Now()
	r.last = r.start
	r.replay = os.Getenv("VERIF_CASE")
	r.deadline = r.start.Add(time.Duration(envInt("VERIF_DEADLINE", 240)) * time.Second)
	if r.replay == "" {
		fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d/%d", &r.shard, &r.nshards, &r.skipTo)
	}
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		f, err := os.OpenFile(j, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0600)
		if err != nil {
			panic(err)
		}
		r.journal = f
	}
	if runtime.NumCPU() > 2 && c.Shards == 0 {
		runtime.GOMAXPROCS(2)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case stop:
				case failed:
				default:
					panic(e)
				}
			}
		}()
		c.Run(r)
	}()
	r.flush(true)
	if r.replay != "" && r.res.Cases == 0 {
		fmt.Fprintln(os.Stderr, "no such case")
		os.Exit(3)
	}
	os.Exit(0)
}

// TempDir returns the scratch directory of this run, removed at its end.
func TempDir() string {
	d := os.Getenv("VERIF_TMP")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func replayPath(id string, n int) string {
	d := filepath.Join(verifDir(), "replays")
	os.MkdirAll(d, 0755)
	return filepath.Join(d, fmt.Sprintf("%s-%d.json", id, n))
}
