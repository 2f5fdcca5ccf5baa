package main

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zz_verif/eng"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

func init() {
	register(&eng.Check{
		ID: "C29",
		Bounds: "13 kinds of impostors (without TLS, with certificates of their own: other key, same names, same issuer, same serial number, a chain that ends in a known certificate, a known certificate without its key, expired, for another host, of an authority that the system trusts, ...), which answer like servers, in the place of any one of 2 or 3 servers, of all of them, or after a server that worked (all histories of honest and impostor phases up to length 3, thorough 4); command-line client, client of the experiments, library of the front ends; " +
			"a relay that changes a byte of the stream, at every 48th (thorough: every) position of both directions; streams cut into pieces of 1 to 1500 bytes; honest servers at other addresses; the two server programs for every index, which must prove the identity of that index and not talk without TLS",
		QuickSec: 400,
		Run:      runC29,
	})
}

type impostor struct {
	name  string
	creds func(i int) credentials.TransportCredentials
}

var serials int64 = 1000

// freshCert makes a certificate; parent may be nil.
func freshCert(edit func(x *x509.Certificate), parent *x509.Certificate, parentKey crypto.Signer) ([]byte, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), mrand.New(mrand.NewSource(serials)))
	must(err)
	serials++
	x := &x509.Certificate{
		SerialNumber: big.NewInt(serials),
		Subject:      pkix.Name{CommonName: "impostor"},
		NotBefore:    time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames:    []string{"localhost"},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback},
	}
	edit(x)
	if parent == nil {
		parent, parentKey = x, key
	}
	der, err := x509.CreateCertificate(detrand.New(uint64(serials)), x, parent, &key.PublicKey, parentKey)
	must(err)
	return der, key
}

func serverTLS(key crypto.PrivateKey, chain ...[]byte) credentials.TransportCredentials {
	return credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{{Certificate: chain, PrivateKey: key}}})
}

func pinned(i int) *x509.Certificate {
	x, err := x509.ParseCertificate(utils.ServerCertificates[i].Certificate[0])
	must(err)
	return x
}

func likePinned(i int) func(x *x509.Certificate) {
	return func(x *x509.Certificate) {
		p := pinned(i)
		x.SerialNumber, x.Subject, x.Issuer = p.SerialNumber, p.Subject, p.Issuer
		x.NotBefore, x.NotAfter = p.NotBefore, p.NotAfter
		x.SubjectKeyId, x.AuthorityKeyId = p.SubjectKeyId, p.AuthorityKeyId
		x.DNSNames, x.IPAddresses = p.DNSNames, p.IPAddresses
	}
}

var (
	impostorsOnce sync.Once
	impostorsAll  []impostor
)

func impostors() []impostor {
	impostorsOnce.Do(func() { impostorsAll = makeImpostors() })
	return impostorsAll
}

func makeImpostors() []impostor {
	ca := func(name pkix.Name) ([]byte, *ecdsa.PrivateKey, *x509.Certificate) {
		der, key := freshCert(func(x *x509.Certificate) {
			x.Subject, x.IsCA, x.BasicConstraintsValid = name, true, true
			x.KeyUsage |= x509.KeyUsageCertSign
		}, nil, nil)
		x, err := x509.ParseCertificate(der)
		must(err)
		return der, key, x
	}
	with := func(edit func(x *x509.Certificate)) credentials.TransportCredentials {
		der, key := freshCert(edit, nil, nil)
		return serverTLS(key, der)
	}
	tder, tkey, tx := ca(pkix.Name{CommonName: "an authority of the system"})
	// the authorities that the system trusts, for this process and its programs
	roots := filepath.Join(eng.TempDir(), fmt.Sprintf("authorities-%d.pem", os.Getpid()))
	must(ioutil.WriteFile(roots, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: tder}), 0644))
	must(os.Setenv("SSL_CERT_FILE", roots))
	return []impostor{
		{"no TLS", func(i int) credentials.TransportCredentials { return nil }},
		{"a certificate of its own", func(i int) credentials.TransportCredentials { return with(func(*x509.Certificate) {}) }},
		{"a certificate like the known one, with another key", func(i int) credentials.TransportCredentials { return with(likePinned(i)) }},
		{"a certificate of an authority of the same name as the known one's", func(i int) credentials.TransportCredentials {
			cder, ckey, cx := ca(pinned(i).Issuer)
			der, key := freshCert(likePinned(i), cx, ckey)
			return serverTLS(key, der, cder)
		}},
		{"a certificate of an authority that is named like a server", func(i int) credentials.TransportCredentials {
			cder, ckey, cx := ca(pinned(i).Subject)
			der, key := freshCert(func(*x509.Certificate) {}, cx, ckey)
			return serverTLS(key, der, cder)
		}},
		{"the certificate of an authority", func(i int) credentials.TransportCredentials {
			der, key, _ := ca(pinned(i).Subject)
			return serverTLS(key, der)
		}},
		{"a chain that ends in the known certificate", func(i int) credentials.TransportCredentials {
			der, key := freshCert(likePinned(i), nil, nil)
			return serverTLS(key, der, utils.ServerCertificates[i].Certificate[0])
		}},
		{"the known certificate, without its key", func(i int) credentials.TransportCredentials {
			_, key := freshCert(func(*x509.Certificate) {}, nil, nil)
			return serverTLS(key, utils.ServerCertificates[i].Certificate...)
		}},
		{"an expired certificate", func(i int) credentials.TransportCredentials {
			return with(func(x *x509.Certificate) {
				x.NotBefore, x.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-24*time.Hour)
			})
		}},
		{"a certificate for another host", func(i int) credentials.TransportCredentials {
			return with(func(x *x509.Certificate) {
				x.DNSNames, x.IPAddresses = []string{"example.org"}, nil
			})
		}},
		{"a certificate of an authority that the system trusts", func(i int) credentials.TransportCredentials {
			der, key := freshCert(func(x *x509.Certificate) { x.Subject = pinned(i).Subject }, tx, tkey)
			return serverTLS(key, der, tder)
		}},
		{"a certificate without names", func(i int) credentials.TransportCredentials {
			return with(func(x *x509.Certificate) { x.DNSNames, x.IPAddresses = nil, nil })
		}},
		{"a certificate with any use", func(i int) credentials.TransportCredentials {
			return with(func(x *x509.Certificate) {
				x.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageAny}
				x.DNSNames = append(x.DNSNames, "127.0.0.1", "*")
			})
		}},
	}
}

// replace puts an impostor, which answers like the server, at its address.
func (s *stub) replace(k impostor) *stub {
	x := &stub{i: s.i, onInfo: s.onInfo, onQuery: s.onQuery, foreign: true, creds: k.creds(s.i)}
	addr := s.addr
	s.stop()
	must(x.start(addr))
	return x
}

func (s *stub) rpcs() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.infos + len(s.queries)
}

func runC29(r *eng.R) {
	if !usable(r) {
		return
	}
	impostorsAtStart(r)
	impostorsLater(r)
	relayed(r)
	otherAddresses(r)
	identities(r)
}

// complain takes what is wrong in one of several runs at a time.
type complain struct {
	mu  sync.Mutex
	why []string
}

func (c *complain) f(s string, a ...interface{}) {
	c.mu.Lock()
	c.why = append(c.why, fmt.Sprintf(s, a...))
	c.mu.Unlock()
}

func (c *complain) end(r *eng.R) {
	if len(c.why) > 0 {
		r.Failf("%s", c.why[0])
	}
}

func refusedRun(got ran) string {
	switch {
	case got.late:
		return "the client does not end: " + got.tail()
	case got.code == 0:
		return "the client reports success: " + got.tail()
	case !got.silent():
		return "the client printed a result: " + got.tail()
	}
	return ""
}

// together runs the functions at the same time.
func together(most int, fs []func()) {
	sem := make(chan bool, most)
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			f()
			<-sem
		}()
	}
	wg.Wait()
}

var simSchemes = map[string]string{"pointPIR": "pir-classic", "pointVPIR": "pir-merkle", "complexPIR": "fss-classic", "complexVPIR": "fss-auth"}

func impostorsAtStart(r *eng.R) {
	sv := services{}
	kinds := impostors()
	cli := func(scheme string, n int) []string {
		return append([]string{"-scheme", scheme}, wantsOf(scheme)[0].args...)
	}
	multi := func(scheme string, n int) []string {
		return []string{"-scheme", simSchemes[scheme], "-numServers", fmt.Sprint(n), "-repetitions", "1", "-elemBitSize", "8", "-bitsToRetrieve", "8", "-inputSize", "2"}
	}
	run := func(prog, scheme string, n int, args []string, where map[int]impostor, c *complain) {
		dir, done := scratch()
		defer done()
		cl := sv.get(scheme, n).cluster(dir)
		defer cl.stop()
		what := fmt.Sprintf("%s %s", prog, scheme)
		var bad []*stub
		for i, k := range where {
			x := cl.s[i].replace(k)
			defer x.stop()
			bad = append(bad, x)
			what += fmt.Sprintf(", server %d has %s", i, k.name)
		}
		if prog == "library" {
			cfg, err := utils.LoadConfig(cl.conf(upTo(n)))
			must(err)
			m := manager.NewManager(*cfg, netOpts)
			if a, err := m.Connect(); err == nil {
				if in, err := a.GetDBInfos(); err == nil {
					c.f("%s: information %v", what, in)
				}
				in := sv.get(scheme, n).srv[0].DBInfo()
				if k, err := a.GetKey(netKeys.certs[0].email(), *in, client.NewPIR(utils.RandomPRG(), in)); err == nil {
					c.f("%s: key %s", what, k)
				}
			}
		} else if why := refusedRun(runProgram(prog, 100*time.Second, dir, []string{"VPIR_CONFIG=" + cl.conf(upTo(n))}, args...)); why != "" {
			c.f("%s: %s", what, why)
		}
		for _, x := range bad {
			if k := x.rpcs(); k > 0 {
				c.f("%s: it gets %d requests", what, k)
			}
		}
	}
	for _, s := range []struct {
		prog, scheme string
		n            int
		args         func(string, int) []string
	}{
		{"client", "pointVPIR", 2, cli}, {"client", "pointPIR", 3, cli}, {"client", "complexVPIR", 2, cli}, {"client", "complexPIR", 2, cli},
		{"multi", "pointVPIR", 2, multi}, {"multi", "complexVPIR", 2, multi}, {"library", "pointPIR", 2, cli}, {"library", "pointVPIR", 3, cli},
	} {
		s := s
		sv.get(s.scheme, s.n)
		r.Case(fmt.Sprintf("impostors from the start: %s %s, %d servers", s.prog, s.scheme, s.n), func() {
			var c complain
			var fs []func()
			add := func(where map[int]impostor) {
				fs = append(fs, func() { run(s.prog, s.scheme, s.n, s.args(s.scheme, s.n), where, &c) })
				r.State("start", s.prog, s.scheme, s.n, fmt.Sprint(where))
				r.Trans(1)
				r.Trace()
			}
			for _, k := range kinds {
				all := map[int]impostor{}
				for i := 0; i < s.n; i++ {
					add(map[int]impostor{i: k})
					all[i] = k
				}
				add(all)
			}
			together(64, fs)
			c.end(r)
			r.Outcome("refused")
		})
	}
}

// impostorsLater: a server that worked is replaced, also between the two
// requests of a program, and comes back.
func impostorsLater(r *eng.R) {
	sv := services{}
	kinds := impostors()
	// between the requests of the command-line client
	for _, scheme := range []string{"pointVPIR", "complexVPIR"} {
		scheme := scheme
		v := sv.get(scheme, 2)
		r.Case("impostors after the first request: client "+scheme, func() {
			var c complain
			var fs []func()
			for _, k := range kinds {
				for i := 0; i < 2; i++ {
					k, i := k, i
					fs = append(fs, func() {
						dir, done := scratch()
						defer done()
						cl := v.cluster(dir)
						defer cl.stop()
						// the server itself never answers the query
						s := cl.s[i]
						gone := make(chan struct{})
						answer := s.onQuery
						s.onQuery = func([]byte) ([]byte, error) {
							<-gone
							return nil, io.EOF
						}
						var x *stub
						var once sync.Once
						swapped := make(chan struct{})
						s.ended = func(info bool) {
							if !info {
								return
							}
							go once.Do(func() {
								time.Sleep(5 * time.Millisecond)
								close(gone)
								addr := s.addr
								s.stop()
								x = &stub{i: i, onInfo: s.onInfo, onQuery: answer, foreign: true, creds: k.creds(i)}
								must(x.start(addr))
								close(swapped)
							})
						}
						got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + cl.conf(upTo(2))}, append([]string{"-scheme", scheme}, wantsOf(scheme)[0].args...)...)
						what := fmt.Sprintf("client %s, server %d replaced by one with %s", scheme, i, k.name)
						if why := refusedRun(got); why != "" {
							c.f("%s: %s", what, why)
						}
						select {
						case <-swapped:
							defer x.stop()
							if n := x.rpcs(); n > 0 {
								c.f("%s: it gets %d requests", what, n)
							}
						case <-time.After(20 * time.Second):
							c.f("%s: no request for information", what)
						}
					})
					r.State("between", scheme, k.name, i)
					r.Trans(2)
					r.Trace()
				}
			}
			together(24, fs)
			c.end(r)
			r.Outcome("refused")
		})
	}
	// histories of phases
	phases := 3
	if r.Thorough {
		phases = 4
	}
	v := sv.get("pointVPIR", 2)
	want := keyWants(netKeys)[0].value
	few := []impostor{kinds[0], kinds[1], kinds[2], kinds[6], kinds[7]}
	for first := 0; first < len(few); first++ {
		first := first
		r.Case(fmt.Sprintf("histories of phases with %s", few[first].name), func() {
			var c complain
			var fs []func()
			// a history says who server 0 and server 1 are: 0 is honest,
			// 1 the impostor, 2 another kind
			other := few[(first+1)%len(few)]
			var rec func(h [][2]int)
			rec = func(h [][2]int) {
				if len(h) == phases {
					hh := append([][2]int(nil), h...)
					fs = append(fs, func() { historyC29(&c, v, want, []impostor{{}, few[first], other}, hh) })
					r.State("history", first, hh)
					r.Trans(phases)
					r.Trace()
					return
				}
				for a := 0; a < 3; a++ {
					for b := 0; b < 2; b++ {
						if len(h) == 0 && a+b > 0 {
							continue
						}
						rec(append(h, [2]int{a, b}))
					}
				}
			}
			rec(nil)
			together(24, fs)
			c.end(r)
			r.Outcome("history")
		})
	}
}

func historyC29(c *complain, v *service, want string, kinds []impostor, h [][2]int) {
	dir, done := scratch()
	defer done()
	cl := v.cluster(dir)
	defer cl.stop()
	cfg, err := utils.LoadConfig(cl.conf(upTo(2)))
	must(err)
	m := manager.NewManager(*cfg, netOpts)
	a, err := m.Connect()
	if err != nil {
		c.f("history %v: cannot connect: %v", h, err)
		return
	}
	now := [2]int{}
	for p, who := range h {
		var bad []*stub
		for i := range who {
			if who[i] == now[i] {
				if who[i] != 0 {
					bad = append(bad, cl.s[i])
				}
				continue
			}
			old := cl.s[i]
			addr := old.addr
			old.stop()
			x := &stub{i: i, onInfo: old.onInfo, onQuery: old.onQuery}
			if who[i] != 0 {
				x.foreign, x.creds = true, kinds[who[i]].creds(i)
				bad = append(bad, x)
			}
			must(x.start(addr))
			cl.s[i] = x
		}
		now = who
		what := fmt.Sprintf("history %v (1: %s, 2: %s), phase %d", h, kinds[1].name, kinds[2].name, p)
		// time for the connections to be made again
		for try := 0; try < 3; try++ {
			infos, err := a.GetDBInfos()
			if err == nil {
				if len(bad) > 0 {
					c.f("%s: information %v", what, infos)
					return
				}
				in := infos[0]
				k, err := a.GetKey(netKeys.certs[0].email(), in, client.NewPIR(utils.RandomPRG(), &in))
				if err == nil {
					if got, err := armoredKey(k); err != nil || got != want {
						c.f("%s: wrong key %s", what, k)
						return
					}
				}
			}
			if len(bad) > 0 {
				// a query for what is known of the database
				in := v.srv[0].DBInfo()
				if k, err := a.GetKey(netKeys.certs[0].email(), *in, client.NewPIR(utils.RandomPRG(), in)); err == nil {
					c.f("%s: a key %s", what, k)
					return
				}
			}
			if err == nil {
				break
			}
			time.Sleep(700 * time.Millisecond)
		}
		for _, x := range bad {
			if n := x.rpcs(); n > 0 {
				c.f("%s: an impostor gets %d requests", what, n)
				return
			}
		}
	}
}

// relay forwards the streams of a server. It changes one byte of the first
// connection, or cuts the stream into pieces.
type relay struct {
	lis   net.Listener
	to    string
	mu    sync.Mutex
	conns []net.Conn
	n     [2]int64 // bytes of the first connection
	count int
}

func newRelay(to string, dir int, at int64, piece int) *relay {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	y := &relay{lis: l, to: to}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, err := net.Dial("tcp", to)
			if err != nil {
				c.Close()
				continue
			}
			y.mu.Lock()
			first := y.count == 0
			y.count++
			y.conns = append(y.conns, c, s)
			y.mu.Unlock()
			pump := func(d int, from, to net.Conn) {
				defer to.Close()
				defer from.Close()
				b := make([]byte, 1<<15)
				for {
					n, err := from.Read(b)
					if n > 0 {
						y.mu.Lock()
						pos := y.n[d]
						if first {
							y.n[d] += int64(n)
						}
						y.mu.Unlock()
						if first && d == dir && at >= pos && at < pos+int64(n) {
							b[at-pos] ^= 0x40
						}
						for k := 0; k < n; {
							m := n - k
							if piece > 0 && m > piece {
								m = piece
							}
							if _, err := to.Write(b[k : k+m]); err != nil {
								return
							}
							k += m
							if piece > 0 && piece < 100 {
								time.Sleep(10 * time.Microsecond)
							}
						}
					}
					if err != nil {
						return
					}
				}
			}
			go pump(0, c, s)
			go pump(1, s, c)
		}
	}()
	return y
}

func (y *relay) stop() {
	y.lis.Close()
	y.mu.Lock()
	for _, c := range y.conns {
		c.Close()
	}
	y.mu.Unlock()
}

func relayed(r *eng.R) {
	sv := services{}
	for _, scheme := range []string{"pointPIR", "complexPIR"} {
		scheme := scheme
		v := sv.get(scheme, 2)
		w := wantsOf(scheme)[0]
		// one: the client in front of a relay for server i
		one := func(c *complain, i, dir int, at int64, piece int) (n [2]int64) {
			d, done := scratch()
			defer done()
			cl := v.cluster(d)
			defer cl.stop()
			y := newRelay(cl.s[i].addr, dir, at, piece)
			defer y.stop()
			addrs := cl.addrs()
			addrs[i] = y.lis.Addr().String()
			conf := filepath.Join(d, "config.toml")
			writeConf(conf, addrs, upTo(2))
			most := 100 * time.Second
			if at >= 0 {
				// a changed length makes the other side wait for the rest
				most = 12 * time.Second
			}
			got := runProgram("client", most, d, []string{"VPIR_CONFIG=" + conf}, append([]string{"-scheme", scheme}, w.args...)...)
			if why := wrongRun(scheme, w, got); why != "" && !(at >= 0 && got.silent() && (got.late || got.code != 0)) {
				c.f("%s, relay for server %d, direction %d, byte %d changed, pieces of %d: %s", scheme, i, dir, at, piece, why)
			}
			y.mu.Lock()
			defer y.mu.Unlock()
			return y.n
		}
		for i := 0; i < 2; i++ {
			i := i
			r.Case(fmt.Sprintf("relay in pieces: client %s, server %d", scheme, i), func() {
				var c complain
				var fs []func()
				for _, p := range []int{1, 2, 3, 5, 9, 16, 17, 64, 100, 1000, 1460, 1500} {
					p := p
					fs = append(fs, func() { one(&c, i, 0, -1, p) })
					r.State("pieces", scheme, i, p)
					r.Trans(1)
				}
				together(4, fs)
				c.end(r)
				r.Trace()
				r.Outcome("right")
			})
			for dir := 0; dir < 2; dir++ {
				for part := 0; part < 2; part++ {
					dir, part := dir, part
					r.Case(fmt.Sprintf("relay that changes a byte: client %s, server %d, direction %d, part %d", scheme, i, dir, part), func() {
						var c complain
						total := one(&c, i, dir, -1, 0)[dir]
						step := int64(48)
						if r.Thorough {
							step = 1
						}
						var fs []func()
						for at := int64(part) * step; at < total; at += 2 * step {
							if r.Expired() {
								break
							}
							at := at + int64(i)*7%step + at/step%step
							fs = append(fs, func() { one(&c, i, dir, at, 0) })
							r.State("byte", scheme, i, dir, at)
							r.Trans(1)
						}
						together(24, fs)
						c.end(r)
						r.Trace()
						r.Outcome("right or refused")
					})
				}
			}
		}
	}
}

// wrongRun tells what is wrong about a run that should give w.
func wrongRun(scheme string, w want, got ran) string {
	if got.late || got.code != 0 {
		return fmt.Sprintf("exit code %d, timeout %v: %s", got.code, got.late, got.tail())
	}
	if point(scheme) {
		if k, err := armoredKey(got.out); err != nil || k != w.value {
			return "not the stored key: " + got.tail()
		}
		return ""
	}
	if n, ok := got.number(); !ok || fmt.Sprint(n) != w.value {
		return "not the right number, " + w.value + ": " + got.tail()
	}
	return ""
}

// otherAddresses: the servers need not be on one machine.
func otherAddresses(r *eng.R) {
	sv := services{}
	for _, scheme := range netSchemes {
		for _, n := range []int{2, 3, 4, 5} {
			if n > 2 && !point(scheme) {
				continue
			}
			scheme, n := scheme, n
			r.Case(fmt.Sprintf("servers at other addresses: client %s, %d servers", scheme, n), func() {
				v := sv.get(scheme, n)
				for k, hosts := range [][]string{{"127.0.0.1"}, {"127.0.0.2", "127.0.0.3", "127.0.1.4"}, {"127.1.2.3"}, {"localhost", "127.0.0.1"}, {"127.0.0.1", "127.250.0.1"}} {
					dir, done := scratch()
					cl := &cluster{dir: dir}
					var addrs []string
					for i := 0; i < n; i++ {
						i := i
						s := &stub{i: i, onInfo: func() (*proto.DatabaseInfoResponse, error) { return v.info, nil }, onQuery: func(q []byte) ([]byte, error) { return v.srv[i].AnswerBytes(q) }}
						h := hosts[i%len(hosts)]
						must(s.start(h + ":0"))
						_, port, err := net.SplitHostPort(s.addr)
						must(err)
						addrs = append(addrs, net.JoinHostPort(h, port))
						cl.s = append(cl.s, s)
					}
					conf := filepath.Join(dir, "config.toml")
					writeConf(conf, addrs, permutations(n)[k%2])
					w := wantsOf(scheme)[0]
					got := runProgram("client", 100*time.Second, dir, []string{"VPIR_CONFIG=" + conf}, append([]string{"-scheme", scheme}, w.args...)...)
					cl.stop()
					done()
					if why := wrongRun(scheme, w, got); why != "" {
						r.Failf("servers at %v: %s", addrs, why)
					}
					r.State("addresses", scheme, n, k)
					r.Trans(n)
				}
				r.Trace()
				r.Outcome("right")
			})
		}
	}
}

// identities: the server programs prove who they are, and only talk over TLS.
func identities(r *eng.R) {
	probe := func(what, addr string, i int) {
		ask := func(c credentials.TransportCredentials) (*proto.DatabaseInfoResponse, error) {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			o := grpc.WithInsecure()
			if c != nil {
				o = grpc.WithTransportCredentials(c)
			}
			conn, err := grpc.DialContext(ctx, addr, o)
			if err != nil {
				return nil, err
			}
			defer conn.Close()
			for end := time.Now().Add(15 * time.Second); ; time.Sleep(100 * time.Millisecond) {
				in, err := proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
				if err == nil || c == nil || time.Now().After(end) {
					return in, err
				}
			}
		}
		pool := x509.NewCertPool()
		pool.AddCert(pinned(i))
		var leaf []byte
		var version uint16
		if _, err := ask(credentials.NewTLS(&tls.Config{RootCAs: pool, ServerName: "127.0.0.1",
			VerifyConnection: func(s tls.ConnectionState) error {
				leaf, version = s.PeerCertificates[0].Raw, s.Version
				return nil
			}})); err != nil {
			r.Failf("%s does not prove that it is server %d: %v", what, i, err)
		}
		if !bytes.Equal(leaf, utils.ServerCertificates[i].Certificate[0]) || version < tls.VersionTLS12 {
			r.Failf("%s does not prove that it is server %d, or not well (%x)", what, i, version)
		}
		if in, err := ask(nil); err == nil {
			r.Failf("%s answers without TLS: %v", what, in)
		}
		for _, b := range []string{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"} {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				r.Failf("%s: %v", what, err)
			}
			c.SetDeadline(time.Now().Add(3 * time.Second))
			c.Write([]byte(b))
			// the settings of HTTP/2, or an answer of HTTP, without TLS; an
			// alert or a complaint is no answer
			a, _ := ioutil.ReadAll(c)
			c.Close()
			if bytes.HasPrefix(a, []byte("HTTP/1.1 200")) || len(a) >= 9 && a[3] == 4 && a[0] == 0 && a[1] == 0 {
				r.Failf("%s talks without TLS: %q", what, a)
			}
		}
		r.Trans(4)
	}
	for i := 0; i < 5; i++ {
		i := i
		for k, scheme := range netSchemes {
			scheme, experiment := scheme, (k+i)%2 == 1
			r.Case(fmt.Sprintf("identity of the server program %d, %s, experiment %v", i, scheme, experiment), func() {
				dir, done := scratch()
				defer done()
				sks := filepath.Join(dir, "sks")
				must(os.Mkdir(sks, 0755))
				keys := filled(keySet{"7", netKeys.certs[:6]}, 7).keys()
				writeSplit(sks, keys, []int{len(keys)})
				conf := filepath.Join(dir, "config.toml")
				env := []string{"VPIR_CONFIG=" + conf, "VPIR_SKS_ROOT=" + sks}
				// the others are not started
				var p *proc
				addrs := freeAddrs(5)
				for try := 0; try < 4; try++ {
					writeConf(conf, addrs, upTo(5))
					args := []string{"-id", fmt.Sprint(i), "-files", "1", "-scheme", scheme}
					if experiment {
						args = append(args, "-experiment", "-cores", "2")
					}
					p = spawn(dir, "server", env, args...)
					if p.listening(addrs[i]) {
						break
					}
					out := p.output()
					p.kill()
					if try == 3 {
						r.Failf("the server does not listen at its address: %s", out)
					}
					addrs = freeAddrs(5)
				}
				defer p.kill()
				probe("the server program", addrs[i], i)
				r.State("server", i, scheme, experiment)
				r.Trace()
				r.Outcome("proved")
			})
		}
		for _, scheme := range []string{"pir-classic", "pir-merkle", "fss-auth"} {
			scheme := scheme
			if scheme == "fss-auth" && i%2 == 0 && !r.Thorough {
				continue
			}
			r.Case(fmt.Sprintf("identity of the server of the experiments %d, %s", i, scheme), func() {
				dir, done := scratch()
				defer done()
				conf := filepath.Join(dir, "config.toml")
				must(ioutil.WriteFile(filepath.Join(dir, "sid"), []byte(fmt.Sprintf("%d\n", i)), 0644))
				args := []string{"-scheme", scheme, "-dbLen", "320", "-elemBitSize", "8", "-nRows", "1", "-blockLen", "4", "-servers", "5"}
				var p *proc
				addrs := freeAddrs(5)
				for try := 0; try < 4; try++ {
					writeConf(conf, addrs, upTo(5))
					p = spawn(dir, "mserver", []string{"VPIR_CONFIG=" + conf}, args...)
					if p.listening(addrs[i]) {
						break
					}
					out := p.output()
					p.kill()
					if try == 3 {
						r.Failf("the server does not listen at its address: %s", out)
					}
					addrs = freeAddrs(5)
				}
				defer p.kill()
				probe("the server of the experiments", addrs[i], i)
				r.State("mserver", i, scheme)
				r.Trace()
				r.Outcome("proved")
			})
		}
	}
}
