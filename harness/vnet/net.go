package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

// usable tells whether the certificates in the repository are valid today;
// without them no client can talk to any server.
func usable(r *eng.R) bool {
	for i, c := range utils.ServerCertificates {
		for _, der := range c.Certificate {
			x, err := x509.ParseCertificate(der)
			if err != nil {
				break
			}
			if now := time.Now(); now.After(x.NotAfter) || now.Before(x.NotBefore) {
				r.Note("the certificate of server %d is only valid from %v to %v: nothing explored", i, x.NotBefore, x.NotAfter)
				r.Cap()
				return false
			}
		}
	}
	return true
}

// stub is a server under the control of the explorer.
type stub struct {
	proto.UnimplementedVPIRServer
	i    int
	addr string
	rpc  *grpc.Server
	lis  *trackedListener

	mu      sync.Mutex
	infos   int
	queries [][]byte
	heard   []heard // everything about the requests, if listening
	listens bool

	onInfo  func() (*proto.DatabaseInfoResponse, error)
	onQuery func(q []byte) ([]byte, error)
	ended   func(info bool) // the reply of an RPC is on its way

	foreign bool // has other credentials than it should; none: no TLS
	creds   credentials.TransportCredentials
}

type trackedListener struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
}

func (l *trackedListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.conns = append(l.conns, c)
		l.mu.Unlock()
	}
	return c, err
}

func (l *trackedListener) drop() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.conns {
		c.Close()
	}
	l.conns = nil
}

func (s *stub) DatabaseInfo(ctx context.Context, q *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	s.mu.Lock()
	s.infos++
	s.mu.Unlock()
	s.hear(ctx, "info", q, nil)
	return s.onInfo()
}

func (s *stub) Query(ctx context.Context, q *proto.QueryRequest) (*proto.QueryResponse, error) {
	s.mu.Lock()
	s.queries = append(s.queries, dup(q.GetQuery()))
	s.mu.Unlock()
	s.hear(ctx, "query", q, q.GetQuery())
	a, err := s.onQuery(dup(q.GetQuery()))
	if err != nil {
		return nil, err
	}
	return &proto.QueryResponse{Answer: a}, nil
}

func (s *stub) seen() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]byte(nil), s.queries...)
}

type rpcKey struct{}

func (s *stub) TagRPC(ctx context.Context, t *stats.RPCTagInfo) context.Context {
	return context.WithValue(ctx, rpcKey{}, strings.HasSuffix(t.FullMethodName, "DatabaseInfo"))
}

func (s *stub) HandleRPC(ctx context.Context, st stats.RPCStats) {
	if _, ok := st.(*stats.End); ok && s.ended != nil {
		info, _ := ctx.Value(rpcKey{}).(bool)
		s.ended(info)
	}
}
func (s *stub) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (s *stub) HandleConn(context.Context, stats.ConnStats)                       {}

// start listens on addr, or on an address of its own if that is empty.
func (s *stub) start(addr string) error {
	if addr == "" {
		addr = "127.0.0.1:0"
	}
	var l net.Listener
	var err error
	for try := 0; try < 50; try++ {
		if l, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	s.lis = &trackedListener{Listener: l}
	s.addr = l.Addr().String()
	creds := s.creds
	if !s.foreign {
		creds = credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{utils.ServerCertificates[s.i]}})
	}
	opts := []grpc.ServerOption{grpc.MaxRecvMsgSize(1 << 30), grpc.MaxSendMsgSize(1 << 30), grpc.StatsHandler(s)}
	if creds != nil {
		opts = append(opts, grpc.Creds(creds))
	}
	s.rpc = grpc.NewServer(opts...)
	proto.RegisterVPIRServer(s.rpc, s)
	go s.rpc.Serve(s.lis)
	return nil
}

// stop makes the server vanish.
func (s *stub) stop() {
	if s.rpc != nil {
		s.lis.Listener.Close()
		s.lis.drop()
		s.rpc.Stop()
		s.rpc = nil
	}
}

// cluster is a set of servers.
type cluster struct {
	s   []*stub
	dir string
}

// newCluster starts n servers that report info and answer with ans(i, query).
func newCluster(n int, dir string, info func(i int) *proto.DatabaseInfoResponse, ans func(i int, q []byte) ([]byte, error)) *cluster {
	c := &cluster{dir: dir}
	for i := 0; i < n; i++ {
		i := i
		s := &stub{i: i}
		s.onInfo = func() (*proto.DatabaseInfoResponse, error) { return info(i), nil }
		s.onQuery = func(q []byte) ([]byte, error) { return ans(i, q) }
		must(s.start(""))
		c.s = append(c.s, s)
	}
	return c
}

func (c *cluster) stop() {
	for _, s := range c.s {
		s.stop()
	}
}

func (c *cluster) addrs() []string {
	var a []string
	for _, s := range c.s {
		a = append(a, s.addr)
	}
	return a
}

// conf writes a configuration with the tables in the given order.
func (c *cluster) conf(order []int) string {
	name := filepath.Join(c.dir, "config.toml")
	writeConf(name, c.addrs(), order)
	return name
}

func writeConf(name string, addrs []string, order []int) {
	var b bytes.Buffer
	for _, i := range order {
		h, p, err := net.SplitHostPort(addrs[i])
		must(err)
		fmt.Fprintf(&b, "[servers.%d]\nip = %q\nport = %s\n\n", i, h, p)
	}
	must(ioutil.WriteFile(name, b.Bytes(), 0644))
}

func infoOf(in *database.Info) *proto.DatabaseInfoResponse {
	r := &proto.DatabaseInfoResponse{
		NumRows: uint32(in.NumRows), NumColumns: uint32(in.NumColumns),
		BlockLength: uint32(in.BlockSize), PirType: in.PIRType,
	}
	if in.Merkle != nil {
		r.Root, r.ProofLen = in.Root, uint32(in.ProofLen)
	}
	return r
}

// gate lets replies out in a given order. The client is expected to have all
// its requests under way at once; if it has not, the replies are not held, and
// forced tells so.
type gate struct {
	mu       sync.Mutex
	order    []int
	arrived  []chan struct{}
	release  []chan struct{}
	done     []chan struct{}
	unforced bool
}

func newGate(order []int) *gate {
	g := &gate{order: order}
	for range order {
		g.arrived = append(g.arrived, make(chan struct{}))
		g.release = append(g.release, make(chan struct{}))
		g.done = append(g.done, make(chan struct{}))
	}
	return g
}

func closeOnce(mu *sync.Mutex, c chan struct{}) {
	mu.Lock()
	defer mu.Unlock()
	select {
	case <-c:
	default:
		close(c)
	}
}

func (g *gate) run() {
	all := time.After(4 * time.Second)
	for _, a := range g.arrived {
		select {
		case <-a:
		case <-all:
			g.mu.Lock()
			g.unforced = true
			g.mu.Unlock()
			for _, c := range g.release {
				closeOnce(&g.mu, c)
			}
			return
		}
	}
	for _, i := range g.order {
		closeOnce(&g.mu, g.release[i])
		select {
		case <-g.done[i]:
		case <-time.After(500 * time.Millisecond):
		}
		// time for the client to get it
		time.Sleep(4 * time.Millisecond)
	}
}

func (g *gate) pass(i int) {
	closeOnce(&g.mu, g.arrived[i])
	<-g.release[i]
}

func (g *gate) ended(i int) { closeOnce(&g.mu, g.done[i]) }

func (g *gate) forced() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return !g.unforced
}

// gated makes the servers reply in the given orders; the first reply to a
// request of each server is what is ordered.
func (c *cluster) gated(infoOrder, queryOrder []int) (gi, gq *gate) {
	gi, gq = newGate(infoOrder), newGate(queryOrder)
	for i, s := range c.s {
		i, oi, oq := i, s.onInfo, s.onQuery
		s.onInfo = func() (*proto.DatabaseInfoResponse, error) {
			gi.pass(i)
			return oi()
		}
		s.onQuery = func(q []byte) ([]byte, error) {
			a, err := oq(q)
			gq.pass(i)
			return a, err
		}
		s.ended = func(info bool) {
			if info {
				gi.ended(i)
			} else {
				gq.ended(i)
			}
		}
	}
	go gi.run()
	go gq.run2(gi)
	return
}

// run2 starts when the first request of this phase is there.
func (g *gate) run2(before *gate) {
	any := make(chan struct{})
	var mu sync.Mutex
	stop := make(chan struct{})
	for _, a := range g.arrived {
		a := a
		go func() {
			select {
			case <-a:
				closeOnce(&mu, any)
			case <-stop:
			}
		}()
	}
	select {
	case <-any:
	case <-time.After(120 * time.Second):
	}
	close(stop)
	g.run()
}

// outcome of a run of a program
type ran struct {
	code int
	out  string
	late bool
}

// runProgram runs a program of the repository to its end.
func runProgram(name string, timeout time.Duration, dir string, env []string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, program(name), args...)
	cmd.Dir = dir
	cmd.Env = append(progEnv(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := ran{out: b.String(), late: ctx.Err() != nil}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
	default:
		panic(fmt.Sprintf("cannot run %s: %v", name, err))
	}
	return r
}

// progEnv is the environment for programs: none of the explorer's variables.
func progEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "VPIR_") {
			out = append(out, e)
		}
	}
	return out
}

var numberLine = regexp.MustCompile(`(?m)^[0-9]+$`)

// number is the only line that is a number, if there is one.
func (r ran) number() (uint32, bool) {
	m := numberLine.FindAllString(r.out, -1)
	if len(m) != 1 {
		return 0, false
	}
	var n uint32
	_, err := fmt.Sscan(m[0], &n)
	return n, err == nil
}

const keyHead = "-----BEGIN PGP PUBLIC KEY BLOCK-----"

// key is the canonical form of the armored key in the text.
func armoredKey(s string) (string, error) {
	i := strings.Index(s, keyHead)
	if i < 0 {
		return "", errors.New("no key")
	}
	l, err := openpgp.ReadArmoredKeyRing(strings.NewReader(s[i:]))
	if err != nil {
		return "", err
	}
	if len(l) != 1 {
		return "", fmt.Errorf("%d keys", len(l))
	}
	return canonEntity(l[0]), nil
}

// silent tells that the program printed no result.
func (r ran) silent() bool {
	return !numberLine.MatchString(r.out) && !strings.Contains(r.out, keyHead)
}

func (r ran) tail() string {
	if len(r.out) > 600 {
		return "..." + r.out[len(r.out)-600:]
	}
	return r.out
}

// service is what a set of servers offers, for one scheme.
type service struct {
	scheme string
	info   *proto.DatabaseInfoResponse
	srv    []server.Server
}

func newService(scheme string, n int, set keySet) *service {
	dir, done := scratch()
	defer done()
	keys := set.keys()
	files := writeSplit(dir, keys, []int{len(keys)})
	v := &service{scheme: scheme}
	switch scheme {
	case "pointPIR", "pointVPIR":
		gen := database.GenerateRealKeyBytes
		if scheme == "pointVPIR" {
			gen = database.GenerateRealKeyMerkle
		}
		db, err := gen(files, true)
		must(err)
		v.srv = pirServers(db, n)
	case "complexPIR", "complexVPIR":
		db, err := database.GenerateRealKeyDB(files)
		must(err)
		for i := 0; i < n; i++ {
			if scheme == "complexPIR" {
				v.srv = append(v.srv, server.NewPredicatePIR(db, byte(i)))
			} else {
				v.srv = append(v.srv, server.NewPredicateAPIR(db, byte(i)))
			}
		}
	}
	v.info = infoOf(v.srv[0].DBInfo())
	return v
}

func (v *service) cluster(dir string) *cluster {
	return newCluster(len(v.srv), dir,
		func(int) *proto.DatabaseInfoResponse { return v.info },
		func(i int, q []byte) ([]byte, error) { return v.srv[i].AnswerBytes(q) })
}

func point(scheme string) bool { return strings.HasPrefix(scheme, "point") }
func auth(scheme string) bool  { return strings.HasSuffix(scheme, "VPIR") }

func rpcErr(c codes.Code) error { return status.Error(c, "planted") }

func permName(p []int) string { return strings.Trim(fmt.Sprint(p), "[]") }
