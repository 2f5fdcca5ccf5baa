package main

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

func init() {
	register(&eng.Check{
		ID:       "C26",
		Bounds:   "runner of the single-server experiments: all four primitives; for DH all sizes up to 40 bits (thorough: 130) and all lists of up to two (three) sizes over {1, 16, 17, 64}, 0 to 3 repetitions; for LWE the supported small size, for LWE-128 sizes up to 17 and three larger ones; invalid configurations. Servers of the multi-server experiments: classic and Merkle databases of 1 to 12 blocks in a row or a square, all pairs of flags for 2 and 3 servers, every block; the two complex schemes; three ways to stop. Client of these experiments: all schemes, 2 to 4 servers, 0 to 3 repetitions, every number of blocks of databases of up to 9 blocks",
		QuickSec: 400,
		Run:      runC26,
	})
}

func runC26(r *eng.R) {
	runRunner(r)
	if !usable(r) {
		return
	}
	runMulti(r)
	runMultiClient(r)
}

// ---- runner of the single-server experiments ----

type simBlock struct {
	Query       float64
	Answers     []float64
	Reconstruct float64
}

type simChunk struct {
	CPU, Bandwidth []*simBlock
	Digest         float64
}

// simSizes are the sizes of the messages that the library exchanges.
type simSizes struct{ query, answer, digest float64 }

func realSizes(primitive string, bits int) simSizes {
	rnd := utils.NewPRG(&utils.PRGKey{1})
	switch primitive {
	case "cmp-vpir-dh":
		db := database.CreateRandomEllipticWithDigest(rnd, bits, group.P256, true)
		c, s := client.NewDH(rnd, &db.Info), server.NewDH(db)
		q, err := c.QueryBytes(0)
		must(err)
		a, err := s.AnswerBytes(q)
		must(err)
		return simSizes{float64(len(q)), float64(len(a)), float64(len(db.SubDigests) + len(db.Digest))}
	case "cmp-vpir-lwe":
		db := database.CreateRandomBinaryLWEWithLength(rnd, bits)
		p := utils.ParamsWithDatabaseSize(db.NumRows, db.NumColumns)
		// three errors are corrected for a KiB
		q := client.NewAmplify(rnd, &db.Info, p, 3).Query(0, 0)
		a := server.NewAmplify(db).Answer(q)
		if len(q) != 7 || len(a) != 7 {
			panic(fmt.Sprintf("%d queries and %d answers for the correction of three errors", len(q), len(a)))
		}
		size := func(m *matrix.Matrix) float64 { return float64(4 * m.Rows() * m.Cols()) }
		return simSizes{7 * size(q[0]), 7 * size(a[0]), size(db.DigestLWE)}
	case "cmp-vpir-lwe-128":
		db := database.CreateRandomBinaryLWEWithLength128(rnd, bits)
		p := utils.ParamsWithDatabaseSize128(db.NumRows, db.NumColumns)
		q := client.NewLWE128(rnd, &db.Info, p).Query(0, 0)
		a := server.NewLWE128(db).Answer(q)
		size := func(m *matrix.Matrix128) float64 { return float64(16 * m.Rows() * m.Cols()) }
		return simSizes{size(q), size(a), size(db.DigestLWE128)}
	}
	panic(primitive)
}

type simRun struct {
	primitive string
	bits      []int
	reps      int
	rows      int
	blockLen  int
	old       bool // there are results of a previous run
}

func (s simRun) write(dir string) {
	must(ioutil.WriteFile(filepath.Join(dir, "simul.toml"),
		[]byte(fmt.Sprintf("DBBitLengths = %s\nRepetitions = %d\nBitsToRetrieve = 8192\n", strings.Replace(fmt.Sprint(s.bits), " ", ", ", -1), s.reps)), 0644))
	must(ioutil.WriteFile(filepath.Join(dir, "c.toml"),
		[]byte(fmt.Sprintf("Name = \"exp\"\nPrimitive = %q\nNumRows = %d\nBlockLength = %d\nElementBitSize = 8\n", s.primitive, s.rows, s.blockLen)), 0644))
	if s.old {
		must(os.Mkdir(filepath.Join(dir, "results"), 0755))
		must(ioutil.WriteFile(filepath.Join(dir, "results", "exp.json"), []byte(strings.Repeat(`{"Results":{"5":[]}}`, 400)), 0644))
		must(ioutil.WriteFile(filepath.Join(dir, "results", "other.json"), []byte("other"), 0644))
	}
}

func runRunner(r *eng.R) {
	var runs []simRun
	one := func(p string, reps, rows int, bits ...int) {
		runs = append(runs, simRun{primitive: p, bits: bits, reps: reps, rows: rows, blockLen: 1, old: len(runs)%3 == 1})
	}
	top := 40
	if r.Thorough {
		top = 130
	}
	for n := 1; n <= top; n++ {
		one("cmp-vpir-dh", 1+n%2, n%3, n)
	}
	for _, n := range []int{64, 100, 255, 256, 257} {
		one("cmp-vpir-dh", 1, 0, n)
	}
	over := []int{1, 16, 17, 64}
	one("cmp-vpir-dh", 1, 0)
	for _, a := range over {
		for _, b := range over {
			one("cmp-vpir-dh", 1, 0, a, b)
			if !r.Thorough {
				continue
			}
			for _, c := range over {
				one("cmp-vpir-dh", 2, 0, a, b, c)
			}
		}
	}
	for _, reps := range []int{0, 1, 2, 3} {
		one("cmp-vpir-dh", reps, 0, 16)
		one("cmp-vpir-dh", reps, 1, 17, 3)
		one("cmp-vpir-lwe-128", reps, 0, 16)
		if reps < 3 || r.Thorough {
			one("cmp-vpir-lwe", reps, 0, 8192)
		}
	}
	one("cmp-vpir-lwe", 1, 1, 8192)
	for n := 1; n <= 17; n++ {
		one("cmp-vpir-lwe-128", 1, 0, n)
	}
	for _, n := range []int{64, 100, 8192} {
		one("cmp-vpir-lwe-128", 1, 1, n)
	}
	one("cmp-vpir-lwe-128", 2, 0, 17, 2)
	one("cmp-vpir-dh", 1, 0, 16, 1<<33) // skipped
	for _, s := range []simRun{
		{"preprocessing", []int{1024}, 1, 0, 8, false},
		{"preprocessing", []int{1024, 64}, 1, 1, 8, true},
		{"preprocessing", []int{4096}, 2, 0, 16, false},
		{"preprocessing", []int{800}, 0, 0, 4, false},
	} {
		runs = append(runs, s)
	}
	for _, s := range runs {
		s := s
		r.Case(fmt.Sprintf("experiment %s, sizes %v, %d repetitions, rows %d, block length %d, old results %v", s.primitive, s.bits, s.reps, s.rows, s.blockLen, s.old), func() {
			dir, done := scratch()
			defer done()
			s.write(dir)
			args := []string{"-config", "c.toml"}
			profiles := len(s.bits) == 2
			if profiles {
				args = append(args, "-cpuprofile", "cpu", "-memprofile", "mem")
			}
			got := runProgram("simul", 100*time.Second, dir, nil, args...)
			if got.late || got.code != 0 {
				r.Failf("the experiment fails (exit code %d): %s", got.code, got.tail())
			}
			want := map[string]bool{}
			for _, n := range s.bits {
				if !(s.primitive == "cmp-vpir-dh" && n == 1<<33) {
					want[strconv.Itoa(n)] = true
				}
			}
			b, err := ioutil.ReadFile(filepath.Join(dir, "results", "exp.json"))
			if err != nil {
				r.Failf("no results: %v", err)
			}
			var e struct{ Results map[string][]*simChunk }
			if err := json.Unmarshal(b, &e); err != nil {
				r.Failf("results: %v", err)
			}
			if len(e.Results) != len(want) {
				r.Failf("results for %d sizes, %d asked for", len(e.Results), len(want))
			}
			for n := range want {
				cs, ok := e.Results[n]
				if !ok || len(cs) != s.reps {
					r.Failf("%d results for size %s, there were %d repetitions", len(cs), n, s.reps)
				}
				bits, _ := strconv.Atoi(n)
				for k, c := range cs {
					judgeChunk(r, s.primitive, bits, k, c)
				}
				r.State(s.primitive, n, s.reps)
			}
			if s.old {
				if b, _ := ioutil.ReadFile(filepath.Join(dir, "results", "other.json")); string(b) != "other" {
					r.Failf("the results of another experiment are gone")
				}
			}
			if profiles {
				for _, f := range []string{"cpu", "mem"} {
					if st, err := os.Stat(filepath.Join(dir, f)); err != nil || st.Size() == 0 {
						r.Failf("no profile %s", f)
					}
				}
			}
			r.Trans(len(s.bits) * s.reps)
			r.Trace()
			r.Outcome("results")
		})
	}
	type bad struct {
		name string
		s    simRun
		args []string
		gone string
	}
	ok := simRun{primitive: "cmp-vpir-dh", bits: []int{4}, reps: 1}
	bads := []bad{
		{"no configuration named", ok, nil, ""},
		{"no such configuration", ok, []string{"-config", "d.toml"}, ""},
		{"no general configuration", ok, []string{"-config", "c.toml"}, "simul.toml"},
		{"LWE with a size without parameters", simRun{primitive: "cmp-vpir-lwe", bits: []int{8191}, reps: 1}, []string{"-config", "c.toml"}, ""},
		{"LWE with a size without parameters after a good one", simRun{primitive: "cmp-vpir-lwe", bits: []int{8192, 16}, reps: 1}, []string{"-config", "c.toml"}, ""},
	}
	for _, p := range []string{"", "cmp", "cmp-vpir", "cmp-vpir-d", "cmp-vpir-dhx", "cmp-vpir-lwe-12", "CMP-VPIR-DH", "pir-classic", "preprocess"} {
		bads = append(bads, bad{fmt.Sprintf("primitive %q", p), simRun{primitive: p, bits: []int{4}, reps: 1, blockLen: 1}, []string{"-config", "c.toml"}, ""})
	}
	for _, b := range bads {
		b := b
		r.Case("experiment refused: "+b.name, func() {
			dir, done := scratch()
			defer done()
			b.s.write(dir)
			if b.gone != "" {
				must(os.Remove(filepath.Join(dir, b.gone)))
			}
			got := runProgram("simul", 100*time.Second, dir, nil, b.args...)
			if got.late || got.code == 0 {
				r.Failf("the experiment does not fail (exit code %d, timeout %v): %s", got.code, got.late, got.tail())
			}
			if l, _ := filepath.Glob(filepath.Join(dir, "results", "*")); len(l) > 0 {
				r.Failf("it leaves results: %v", l)
			}
			r.State(b.name)
			r.Trans(1)
			r.Trace()
			r.Outcome("refused")
		})
	}
}

func judgeChunk(r *eng.R, primitive string, bits, k int, c *simChunk) {
	if c == nil || len(c.CPU) != 1 || c.CPU[0] == nil || len(c.CPU[0].Answers) != 1 || len(c.Bandwidth) != 1 {
		r.Failf("size %d, repetition %d: incomplete result %+v", bits, k, c)
	}
	cpu := c.CPU[0]
	for _, t := range []float64{cpu.Query, cpu.Answers[0], cpu.Reconstruct} {
		if t < 0 || t > 1000 {
			r.Failf("size %d, repetition %d: time of %v seconds", bits, k, t)
		}
	}
	if primitive == "preprocessing" {
		return
	}
	if cpu.Reconstruct == 0 {
		r.Failf("size %d, repetition %d: no time was measured", bits, k)
	}
	b := c.Bandwidth[0]
	if b == nil || len(b.Answers) != 1 {
		r.Failf("size %d, repetition %d: incomplete bandwidth %+v", bits, k, b)
	}
	if got, want := (simSizes{b.Query, b.Answers[0], c.Digest}), realSizes(primitive, bits); got != want || b.Reconstruct != 0 {
		r.Failf("size %d, repetition %d: reported sizes (query, answer, digest) are %v, and %v for the reconstruction; the messages have %v", bits, k, got, b.Reconstruct, want)
	}
}

// ---- servers of the multi-server experiments ----

var hostCount int

// freeHosts are n loopback addresses of which no port is in use by other
// explorers.
func freeHosts(n int) []string {
	var shard int
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/", &shard)
	var out []string
	for len(out) < n {
		hostCount++
		h := fmt.Sprintf("127.%d.%d.%d", 20+os.Getpid()%200, 1+shard%200, 1+hostCount%250)
		l, err := net.Listen("tcp", h+":8080")
		if err != nil {
			if hostCount > 1000 {
				panic(err)
			}
			continue
		}
		l.Close()
		out = append(out, h+":9000")
	}
	return out
}

type multiSetup struct {
	scheme                 string
	dbLen, rows, blockLen  int
	n                      int
	logFile                bool
	stop                   int // 0: request, 1: SIGTERM, 2: SIGINT
	idle                   bool
	clientReps, clientBits int
}

func (m multiSetup) String() string {
	return fmt.Sprintf("%s, %d bits, rows %d, block length %d, %d servers, log file %v, stop %d, idle connection %v", m.scheme, m.dbLen, m.rows, m.blockLen, m.n, m.logFile, m.stop, m.idle)
}

type multiServer struct {
	*proc
	dir  string
	addr string
	conn *grpc.ClientConn
	log  bool
}

func (m multiSetup) start(r *eng.R, dir string) []*multiServer {
	addrs := freeHosts(m.n)
	conf := filepath.Join(dir, "config.toml")
	writeConf(conf, addrs, upTo(m.n))
	var out []*multiServer
	for i := 0; i < m.n; i++ {
		d := filepath.Join(dir, fmt.Sprintf("s%d", i))
		os.MkdirAll(d, 0755)
		must(ioutil.WriteFile(filepath.Join(d, "sid"), []byte(fmt.Sprintf("%d\n", i)), 0644))
		args := []string{"-scheme", m.scheme, "-dbLen", fmt.Sprint(m.dbLen), "-elemBitSize", "8", "-nRows", fmt.Sprint(m.rows), "-blockLen", fmt.Sprint(m.blockLen), "-servers", fmt.Sprint(m.n)}
		if m.logFile {
			args = append(args, "-logFile", "log")
		}
		out = append(out, &multiServer{proc: spawn(d, "mserver", []string{"VPIR_CONFIG=" + conf}, args...), dir: d, addr: addrs[i], log: m.logFile})
	}
	for i, s := range out {
		if !s.listening(addrs[i]) {
			killAll(out)
			r.Failf("server %d does not listen at its address: %s", i, s.logged())
		}
		conn, err := dialServer(addrs[i])
		if err != nil {
			killAll(out)
			r.Failf("server %d: %v", i, err)
		}
		s.conn = conn
	}
	return out
}

func dialServer(addr string) (*grpc.ClientConn, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return grpc.DialContext(ctx, addr, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})), grpc.WithBlock())
}

func killAll(l []*multiServer) {
	for _, s := range l {
		if s.conn != nil {
			s.conn.Close()
		}
		s.kill()
	}
}

func (s *multiServer) logged() string {
	b, _ := ioutil.ReadFile(filepath.Join(s.dir, "log"))
	return s.output() + string(b)
}

func (s *multiServer) info() (*proto.DatabaseInfoResponse, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return proto.NewVPIRClient(s.conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{}, netOpts...)
}

func (s *multiServer) query(q []byte) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	a, err := proto.NewVPIRClient(s.conn).Query(ctx, &proto.QueryRequest{Query: q}, netOpts...)
	return a.GetAnswer(), err
}

var statsLine = regexp.MustCompile(`stats,([0-9]+)\n`)

// sent are the sizes of the answers that the server logged.
func (s *multiServer) sent() []int {
	var out []int
	b := s.fullLog()
	for _, m := range statsLine.FindAllStringSubmatch(b, -1) {
		n, _ := strconv.Atoi(m[1])
		out = append(out, n)
	}
	return out
}

func (s *multiServer) fullLog() string {
	if s.log {
		b, _ := ioutil.ReadFile(filepath.Join(s.dir, "log"))
		return string(b)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.String()
}

func runMulti(r *eng.R) {
	var setups []multiSetup
	k := 0
	for _, scheme := range []string{"pir-classic", "pir-merkle"} {
		for _, n := range []int{2, 3} {
			for _, rows := range []int{1, 0} {
				for _, blockLen := range []int{1, 4, 33} {
					for _, blocks := range []int{1, 2, 3, 4, 6, 9, 12} {
						if !r.Thorough && (blocks+k+n+rows+blockLen)%3 != 0 && blocks != 4 {
							continue
						}
						k++
						setups = append(setups, multiSetup{scheme: scheme, dbLen: 8 * blockLen * blocks, rows: rows, blockLen: blockLen,
							n: n, logFile: k%2 == 0, stop: k % 3, idle: k%5 < 2})
					}
				}
			}
		}
	}
	if r.Thorough {
		for _, n := range []int{4, 5} {
			for _, scheme := range []string{"pir-classic", "pir-merkle"} {
				setups = append(setups, multiSetup{scheme: scheme, dbLen: 8 * 1024 * 16, rows: 0, blockLen: 1024, n: n})
			}
		}
	}
	for _, m := range setups {
		m := m
		r.Case("experiment servers: "+m.String(), func() {
			dir, done := scratch()
			defer done()
			s := m.start(r, dir)
			defer killAll(s)
			info := sameInfos(r, s)
			if got, want := int(info.NumRows*info.NumColumns), m.dbLen/(8*m.blockLen); got > want || got == 0 ||
				(m.rows == 1 || math.Sqrt(float64(want)) == math.Trunc(math.Sqrt(float64(want)))) && got != want {
				r.Failf("%d blocks, %d asked for", got, want)
			}
			if m.rows == 1 && info.NumRows != 1 || m.rows != 1 && info.NumRows < info.NumColumns {
				r.Failf("%d rows and %d columns", info.NumRows, info.NumColumns)
			}
			if m.scheme == "pir-classic" && (info.PirType == "merkle" || int(info.BlockLength) != m.blockLen) {
				r.Failf("type %q, block length %d", info.PirType, info.BlockLength)
			}
			if m.scheme == "pir-merkle" && info.PirType != "merkle" {
				r.Failf("type %q", info.PirType)
			}
			blocks := allBlocks(r, s, info, m)
			distinct := map[string]bool{}
			for _, b := range blocks {
				distinct[b] = true
			}
			if m.blockLen == 33 && len(distinct) != len(blocks) {
				r.Failf("some random blocks are equal: %d of %d", len(distinct), len(blocks))
			}
			malformed(r, s)
			runClientOn(r, dir, m, s, len(blocks))
			stopServers(r, m, s)
			r.State(m.String())
			r.Trace()
			r.Outcome("experiment done")
		})
		// and again, compared with the blocks of this run
		m2 := m
		m2.n, m2.stop = 5-m.n, (m.stop+1)%3
		if m2.n != 2 && m2.n != 3 {
			continue
		}
		r.Case("experiment servers, both numbers of them: "+m.String(), func() {
			var got []string
			for _, x := range []multiSetup{m, m2} {
				dir, done := scratch()
				s := x.start(r, dir)
				got = append(got, strings.Join(allBlocks(r, s, sameInfos(r, s), x), ""))
				killAll(s)
				done()
			}
			if got[0] != got[1] {
				r.Failf("the databases of %d and %d servers with the same flags differ", m.n, m2.n)
			}
			r.Trace()
		})
	}
	for _, scheme := range []string{"fss-classic", "fss-auth"} {
		m := multiSetup{scheme: scheme, dbLen: 1, rows: 1, blockLen: 1, n: 2, clientReps: 2, logFile: scheme == "fss-auth"}
		r.Case("experiment servers: "+m.String(), func() {
			dir, done := scratch()
			defer done()
			s := m.start(r, dir)
			defer killAll(s)
			sameInfos(r, s)
			malformed(r, s)
			runClientOn(r, dir, m, s, 0)
			stopServers(r, m, s)
			r.State(m.String())
			r.Trace()
			r.Outcome("experiment done")
		})
	}
	for _, bad := range [][]string{
		{"-scheme", "pir-other", "-dbLen", "64", "-elemBitSize", "8", "-nRows", "1", "-blockLen", "1"},
		{"-scheme", "", "-dbLen", "64", "-elemBitSize", "8", "-nRows", "1", "-blockLen", "1"},
		{"-dbLen", "64"},
		{"-scheme", "fss-other", "-dbLen", "64", "-elemBitSize", "8", "-nRows", "1", "-blockLen", "1"},
	} {
		bad := bad
		r.Case(fmt.Sprintf("experiment server refused: %q", bad), func() {
			dir, done := scratch()
			defer done()
			conf := filepath.Join(dir, "config.toml")
			writeConf(conf, freeHosts(1), upTo(1))
			must(ioutil.WriteFile(filepath.Join(dir, "sid"), []byte("0\n"), 0644))
			if got := runProgram("mserver", 60*time.Second, dir, []string{"VPIR_CONFIG=" + conf}, bad...); got.code == 0 || got.late {
				r.Failf("exit code %d, timeout %v: %s", got.code, got.late, got.tail())
			}
			r.Trace()
			r.Outcome("refused")
		})
	}
}

func sameInfos(r *eng.R, s []*multiServer) *proto.DatabaseInfoResponse {
	var first *proto.DatabaseInfoResponse
	for i, x := range s {
		in, err := x.info()
		if err != nil {
			r.Failf("server %d: %v", i, err)
		}
		if first == nil {
			first = in
		}
		if in.String() != first.String() {
			r.Failf("server %d reports %v, and server 0 %v", i, in, first)
		}
		r.Trans(1)
	}
	return first
}

// allBlocks retrieves all the blocks, and checks that each server answers every
// query in the same way.
func allBlocks(r *eng.R, s []*multiServer, in *proto.DatabaseInfoResponse, m multiSetup) []string {
	info := &database.Info{NumRows: int(in.NumRows), NumColumns: int(in.NumColumns), BlockSize: int(in.BlockLength), PIRType: in.PirType,
		Merkle: &database.Merkle{Root: in.Root, ProofLen: int(in.ProofLen)}}
	c := client.NewPIR(utils.NewPRG(&utils.PRGKey{7}), info)
	var out []string
	for k := 0; k < info.NumRows*info.NumColumns; k++ {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(k))
		q, err := c.QueryBytes(b[:], len(s))
		must(err)
		var as [][]byte
		for j := range s {
			var first []byte
			for i, x := range s {
				a, err := x.query(q[j])
				if err != nil {
					r.Failf("block %d: server %d: %v", k, i, err)
				}
				if i == 0 {
					first = a
				}
				if string(a) != string(first) {
					r.Failf("block %d: servers 0 and %d answer the same query differently", k, i)
				}
				r.Trans(1)
			}
			as = append(as, first)
		}
		v, err := c.ReconstructBytes(as)
		if err != nil {
			r.Failf("block %d: %v", k, err)
		}
		// the client may return the block with or without its padding
		got := v.([]byte)
		if len(got) < m.blockLen {
			r.Failf("block %d has %d bytes", k, len(got))
		}
		out = append(out, string(got[:m.blockLen]))
	}
	return out
}

// malformed sends queries that have no answer; the server has to survive.
func malformed(r *eng.R, s []*multiServer) {
	for _, q := range [][]byte{nil, {0}, make([]byte, 7), []byte("not a query at all, whatever the scheme is")} {
		for _, x := range s {
			x.query(q)
		}
	}
	for i, x := range s {
		if x.ended() {
			r.Failf("server %d ended after a malformed query: %s", i, x.output())
		}
	}
}

var clientStats = regexp.MustCompile(`(?m)stats,(-?[0-9]+),(-?[0-9]+),([-0-9.]+)$`)

type clientStat struct{ rep, bw int }

func clientStatsOf(r *eng.R, out string) []clientStat {
	var l []clientStat
	for _, m := range clientStats.FindAllStringSubmatch(out, -1) {
		a, _ := strconv.Atoi(m[1])
		b, _ := strconv.Atoi(m[2])
		t, err := strconv.ParseFloat(m[3], 64)
		if err != nil || t < 0 || t > 1000 {
			r.Failf("a repetition took %s seconds", m[3])
		}
		l = append(l, clientStat{a, b})
	}
	return l
}

// runClientOn runs the client of the experiments on real servers.
func runClientOn(r *eng.R, dir string, m multiSetup, s []*multiServer, blocks int) {
	before := make([]int, len(s))
	for i, x := range s {
		before[i] = len(x.sent())
	}
	get, bits := 0, 0
	if blocks > 0 {
		get = (blocks + 1) / 2
		in, err := s[0].info()
		must(err)
		bits = 8 * get * int(in.BlockLength)
	} else {
		get = 1
	}
	reps := 2
	got := runProgram("multi", 150*time.Second, dir, []string{"VPIR_CONFIG=" + filepath.Join(dir, "config.toml")},
		"-scheme", m.scheme, "-numServers", fmt.Sprint(len(s)), "-repetitions", fmt.Sprint(reps), "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(bits), "-inputSize", "2")
	if got.late || got.code != 0 {
		r.Failf("the client fails (exit code %d): %s", got.code, got.tail())
	}
	st := clientStatsOf(r, got.out)
	if len(st) != reps {
		r.Failf("the client reports on %d of %d repetitions: %s", len(st), reps, got.tail())
	}
	for i, x := range s {
		want := before[i] + get*reps
		var l []int
		for end := time.Now().Add(5 * time.Second); ; time.Sleep(5 * time.Millisecond) {
			if l = x.sent(); len(l) >= want || time.Now().After(end) {
				break
			}
		}
		if len(l) != want {
			r.Failf("server %d reports on %d answers to the client, of %d", i, len(l)-before[i], get*reps)
		}
		for _, n := range l[before[i]:] {
			if blocks > 0 && n <= 0 {
				r.Failf("server %d reports an answer of %d bytes", i, n)
			}
		}
		r.Trans(get * reps)
	}
}

func stopServers(r *eng.R, m multiSetup, s []*multiServer) {
	for i, x := range s {
		if !m.idle {
			x.conn.Close()
			x.conn = nil
		}
		switch m.stop {
		case 0:
			h, _, _ := net.SplitHostPort(x.addr)
			for end := time.Now().Add(10 * time.Second); ; time.Sleep(10 * time.Millisecond) {
				resp, err := (&http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}).Get("http://" + h + ":8080/")
				if err == nil {
					resp.Body.Close()
				}
				// the reply may get lost as the process ends
				if err == nil || x.wait(100*time.Millisecond) || time.Now().After(end) {
					break
				}
			}
		case 1:
			x.cmd.Process.Signal(syscall.SIGTERM)
		case 2:
			x.cmd.Process.Signal(os.Interrupt)
		}
		if !x.wait(30 * time.Second) {
			r.Failf("server %d does not stop: %s", i, x.logged())
		}
		if x.code != 0 {
			r.Failf("server %d ends with exit code %d: %s", i, x.code, x.logged())
		}
		r.Trans(1)
	}
}

// ---- client of the multi-server experiments, on servers of the explorer ----

func runMultiClient(r *eng.R) {
	type setup struct {
		scheme   string
		n        int
		blocks   int
		rows     int
		reps     int
		get      int
		partial  bool // ask for fewer bits than the last block has
		inputLen int
	}
	var l []setup
	for _, scheme := range []string{"pir-classic", "pir-merkle"} {
		for _, n := range []int{2, 3, 4} {
			for _, b := range [][2]int{{1, 1}, {4, 2}, {5, 1}, {9, 3}} {
				for get := 0; get <= b[0]; get++ {
					for reps := 0; reps <= 3; reps++ {
						if !r.Thorough && (reps+get+n)%3 != 0 && get != b[0] {
							continue
						}
						l = append(l, setup{scheme, n, b[0], b[1], reps, get, (get+reps)%2 == 1, 0})
					}
				}
			}
		}
	}
	for _, scheme := range []string{"fss-classic", "fss-auth"} {
		for reps := 0; reps <= 3; reps++ {
			for _, size := range []int{1, 2, 31} {
				l = append(l, setup{scheme: scheme, n: 2, reps: reps, inputLen: size})
			}
		}
	}
	for _, s := range l {
		s := s
		r.Case(fmt.Sprintf("experiment client: %s, %d servers, %d blocks in %d rows, %d repetitions, get %d, partial %v, input %d", s.scheme, s.n, s.blocks, s.rows, s.reps, s.get, s.partial, s.inputLen), func() {
			dir, done := scratch()
			defer done()
			rnd := utils.NewPRG(&utils.PRGKey{3})
			v := &service{}
			var db *database.Bytes
			switch s.scheme {
			case "pir-classic":
				db = database.CreateRandomBytes(rnd, 8*20*s.blocks, s.rows, 20)
			case "pir-merkle":
				db = database.CreateRandomMerkle(rnd, 8*20*s.blocks, s.rows, 20)
			default:
				kdb, err := database.CreateRandomKeysDB(rnd, 20)
				must(err)
				for i := 0; i < s.n; i++ {
					if s.scheme == "fss-classic" {
						v.srv = append(v.srv, server.NewPredicatePIR(kdb, byte(i)))
					} else {
						v.srv = append(v.srv, server.NewPredicateAPIR(kdb, byte(i)))
					}
				}
			}
			if db != nil {
				v.srv = pirServers(db, s.n)
			}
			v.info = infoOf(v.srv[0].DBInfo())
			c := v.cluster(dir)
			defer c.stop()
			var mu sync.Mutex
			answers := make([][][]byte, s.n)
			for i, x := range c.s {
				i, old := i, x.onQuery
				x.onQuery = func(q []byte) ([]byte, error) {
					a, err := old(q)
					mu.Lock()
					answers[i] = append(answers[i], a)
					mu.Unlock()
					return a, err
				}
			}
			bits := 8 * s.get * int(v.info.BlockLength)
			if s.partial && s.get > 0 {
				bits -= 8*int(v.info.BlockLength) - 1
			}
			logTo := len(s.scheme)%2 == s.reps%2
			args := []string{"-scheme", s.scheme, "-numServers", fmt.Sprint(s.n), "-repetitions", fmt.Sprint(s.reps), "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(bits), "-inputSize", fmt.Sprint(s.inputLen)}
			if logTo {
				args = append(args, "-logFile", "log")
			}
			got := runProgram("multi", 100*time.Second, dir, []string{"VPIR_CONFIG=" + c.conf(upTo(s.n))}, args...)
			if got.late || got.code != 0 {
				r.Failf("the client fails (exit code %d): %s", got.code, got.tail())
			}
			out := got.out
			if logTo {
				b, _ := ioutil.ReadFile(filepath.Join(dir, "log"))
				out = string(b)
			}
			rounds := s.get
			if db == nil {
				rounds = 1
			}
			st := clientStatsOf(r, out)
			if len(st) != s.reps {
				r.Failf("%d reports for %d repetitions", len(st), s.reps)
			}
			sum := make([]int, s.reps)
			for i, x := range c.s {
				qs := x.seen()
				if len(qs) != s.reps*rounds {
					r.Failf("server %d gets %d queries in %d repetitions of %d", i, len(qs), s.reps, rounds)
				}
				for k, q := range qs {
					sum[k/rounds] += len(q)
				}
			}
			for k, x := range st {
				if x.rep != k || x.bw != sum[k] {
					r.Failf("repetition %d is reported as number %d with queries of %d bytes; the servers got %d bytes", k, x.rep, x.bw, sum[k])
				}
			}
			if db != nil {
				// what the answers are about: the columns of consecutive blocks,
				// the same ones in every repetition
				cols := db.NumColumns
				column := map[string]int{}
				for j := 0; j < cols; j++ {
					var all []byte
					for i := 0; i < db.NumRows; i++ {
						at := (i*cols + j) * db.BlockSize
						all = append(all, db.Entries[at:at+db.BlockSize]...)
					}
					column[string(all)] = j
				}
				first := -1
				for k := 0; k < s.reps*rounds; k++ {
					x := make([]byte, len(answers[0][k]))
					for i := range answers {
						for j := range x {
							x[j] ^= answers[i][k][j]
						}
					}
					at, ok := column[string(x)]
					if !ok {
						r.Failf("query %d is for no column", k)
					}
					if k%rounds == 0 {
						if first >= 0 && at != first {
							r.Failf("a repetition starts at column %d, the one before at %d", at, first)
						}
						first = at
					}
					if at != (first+k%rounds)%cols {
						r.Failf("query %d of a repetition that starts at column %d is for column %d", k%rounds, first, at)
					}
				}
			}
			r.State(s)
			r.Trans(s.n * s.reps * rounds)
			r.Trace()
			r.Outcome("experiment done")
		})
	}
}
