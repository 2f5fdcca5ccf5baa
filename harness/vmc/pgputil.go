package main

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/x509"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/pgp"
)

// uidSpec is an identity of a certificate.
type uidSpec struct {
	name, email string
	primary     bool
	t           int64  // creation of the self-signature
	bad         bool   // with an invalid self-signature
	unsigned    bool   // without self-signature
	life        uint32 // validity in seconds
	foreign     bool   // with an additional signature by somebody else
}

func (u uidSpec) id() string {
	if u.email == "" {
		return u.name
	}
	return u.name + " <" + u.email + ">"
}

// certSpec is an OpenPGP certificate.
type certSpec struct {
	key  int
	t    int64 // creation of the primary key
	uids []uidSpec
	rev  int // 1: revoked by its owner, 2: invalid revocation
	sub  bool
	pad  int // length of the name of an additional identity, last
	raw  string
}

const tBase = 1400000000

func simple(email string, t int64) certSpec {
	return certSpec{t: tBase + t, uids: []uidSpec{{name: "N", email: email, t: tBase + t}}}
}

var (
	rsaCache  = map[int]*rsa.PrivateKey{}
	certCache = map[string][]byte{}
)

func rsaKey(i int) *rsa.PrivateKey {
	if rsaCache[i] == nil {
		b, err := hex.DecodeString(rsaKeys[i])
		if err != nil {
			panic(err)
		}
		k, err := x509.ParsePKCS1PrivateKey(b)
		if err != nil {
			panic(err)
		}
		rsaCache[i] = k
	}
	return rsaCache[i]
}

// body is the content of a packet.
func packetBody(p []byte) []byte {
	switch {
	case p[1] < 192:
		return p[2:]
	case p[1] < 224:
		return p[3:]
	default:
		return p[6:]
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// bytes is the certificate as it stands in a dump.
func (c certSpec) bytes() []byte {
	name := fmt.Sprintf("%+v", c)
	if b, ok := certCache[name]; ok {
		return b
	}
	if c.raw != "" {
		b, err := hex.DecodeString(c.raw)
		must(err)
		certCache[name] = b
		return b
	}
	var w bytes.Buffer
	k := rsaKey(c.key)
	pub, priv := packet.NewRSAPublicKey(time.Unix(c.t, 0), &k.PublicKey), packet.NewRSAPrivateKey(time.Unix(c.t, 0), k)
	must(pub.Serialize(&w))
	body := dup(packetBody(w.Bytes()))
	if c.rev != 0 {
		s := &packet.Signature{SigType: packet.SigTypeKeyRevocation, PubKeyAlgo: packet.PubKeyAlgoRSA, Hash: crypto.SHA256,
			CreationTime: time.Unix(c.t+5, 0), IssuerKeyId: &pub.KeyId}
		h := crypto.SHA256.New()
		pub.SerializeSignaturePrefix(h)
		if c.rev == 2 {
			body[0] ^= 1
		}
		h.Write(body)
		must(s.Sign(h, priv, nil))
		must(s.Serialize(&w))
	}
	uids := c.uids
	if c.pad > 0 {
		uids = append(append([]uidSpec(nil), uids...), uidSpec{name: "A" + strings.Repeat("x", c.pad-1), t: 1})
	}
	for _, u := range uids {
		must((&packet.UserId{Id: u.id()}).Serialize(&w))
		if u.foreign {
			o := rsaKey(1 - c.key)
			op, os := packet.NewRSAPublicKey(time.Unix(77, 0), &o.PublicKey), packet.NewRSAPrivateKey(time.Unix(77, 0), o)
			s := &packet.Signature{SigType: packet.SigTypeGenericCert, PubKeyAlgo: packet.PubKeyAlgoRSA, Hash: crypto.SHA256,
				CreationTime: time.Unix(u.t, 0), IssuerKeyId: &op.KeyId}
			must(s.SignUserId(u.id(), pub, os, nil))
			must(s.Serialize(&w))
		}
		if u.unsigned {
			continue
		}
		s := &packet.Signature{SigType: packet.SigTypePositiveCert, PubKeyAlgo: packet.PubKeyAlgoRSA, Hash: crypto.SHA256,
			CreationTime: time.Unix(u.t, 0), IssuerKeyId: &pub.KeyId}
		if u.primary {
			p := true
			s.IsPrimaryId = &p
		}
		if u.life != 0 {
			l := u.life
			s.KeyLifetimeSecs = &l
		}
		id := u.id()
		if u.bad {
			id += "!"
		}
		must(s.SignUserId(id, pub, priv, nil))
		must(s.Serialize(&w))
	}
	if c.sub {
		sk := rsaKey(1 - c.key)
		sp := packet.NewRSAPublicKey(time.Unix(c.t, 0), &sk.PublicKey)
		sp.IsSubkey = true
		s := &packet.Signature{SigType: packet.SigTypeSubkeyBinding, PubKeyAlgo: packet.PubKeyAlgoRSA, Hash: crypto.SHA256,
			CreationTime: time.Unix(c.t, 0), IssuerKeyId: &pub.KeyId, FlagsValid: true, FlagEncryptStorage: true}
		must(s.SignKey(sp, priv, nil))
		must(sp.Serialize(&w))
		must(s.Serialize(&w))
	}
	b := dup(w.Bytes())
	certCache[name] = b
	return b
}

// readable tells whether the certificate is valid.
func (c certSpec) readable() bool {
	if c.raw != "" {
		return true
	}
	if c.rev == 2 {
		return false
	}
	n := 0
	for _, u := range c.uids {
		if u.bad {
			return false
		}
		if !u.unsigned {
			n++
		}
	}
	return n > 0 || c.pad > 0
}

// email is the address under which the directory has the certificate.
func (c certSpec) email() string {
	switch c.raw {
	case dsaCert:
		return "dora@x.org"
	case ecdsaCert:
		return "edgar@y.ch"
	}
	var best, flagged *uidSpec
	newer := func(a, b *uidSpec) bool {
		return b == nil || a.t > b.t || a.t == b.t && a.id() < b.id()
	}
	for i := range c.uids {
		u := &c.uids[i]
		if u.unsigned {
			continue
		}
		if newer(u, best) {
			best = u
		}
		if u.primary && newer(u, flagged) {
			flagged = u
		}
	}
	if flagged != nil {
		best = flagged
	}
	if best != nil && best.email != "" {
		return strings.ToLower(best.email)
	}
	var all []string
	for _, u := range c.uids {
		if u.email != "" && !u.unsigned {
			all = append(all, u.email)
		}
	}
	if len(all) == 0 {
		return ""
	}
	sort.Strings(all)
	return strings.ToLower(all[0])
}

// canonEntity describes the content of a certificate without its subkeys.
func canonEntity(e *openpgp.Entity) string {
	var w bytes.Buffer
	must(e.PrimaryKey.Serialize(&w))
	var ids []string
	for n, i := range e.Identities {
		var v bytes.Buffer
		v.WriteString(n + "|")
		must(i.UserId.Serialize(&v))
		must(i.SelfSignature.Serialize(&v))
		for _, s := range i.Signatures {
			must(s.Serialize(&v))
		}
		ids = append(ids, v.String())
	}
	sort.Strings(ids)
	return fmt.Sprintf("%x %x", w.Bytes(), ids)
}

func canonBytes(b []byte) (string, error) {
	el, err := openpgp.ReadKeyRing(bytes.NewReader(b))
	if err != nil {
		return "", err
	}
	if len(el) != 1 {
		return "", fmt.Errorf("%d certificates", len(el))
	}
	return canonEntity(el[0]), nil
}

func writeKeyFile(path string, keys []pgp.Key) {
	f, err := os.Create(path)
	must(err)
	enc := gob.NewEncoder(f)
	for i := range keys {
		must(enc.Encode(&keys[i]))
	}
	must(f.Close())
}

// writeSplit writes the keys to files: sizes[i] consecutive ones to the i-th.
func writeSplit(dir string, keys []pgp.Key, sizes []int) []string {
	var out []string
	for i, n := range sizes {
		p := filepath.Join(dir, fmt.Sprintf("f%03d", i))
		writeKeyFile(p, keys[:n])
		keys = keys[n:]
		out = append(out, p)
	}
	return out
}

// compositions lists the ways to write n as an ordered sum of at most max
// numbers, with zeros if zero.
func compositions(n, max int, zero bool) [][]int {
	var out [][]int
	var rec func(left int, cur []int)
	rec = func(left int, cur []int) {
		if left == 0 && len(cur) > 0 {
			out = append(out, append([]int(nil), cur...))
		}
		if len(cur) == max {
			return
		}
		from := 1
		if zero {
			from = 0
		}
		for k := from; k <= left; k++ {
			rec(left-k, append(cur, k))
		}
	}
	rec(n, nil)
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}
