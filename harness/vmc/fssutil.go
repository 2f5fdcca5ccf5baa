package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
)

// keyRec is what the directory knows about a key.
type keyRec struct {
	email string
	algo  packet.PublicKeyAlgorithm
	t     time.Time
}

func keysDB(recs []keyRec) *database.DB {
	ki := make([]*database.KeyInfo, len(recs))
	for i, r := range recs {
		ki[i] = &database.KeyInfo{
			UserId:       &packet.UserId{Id: "N <" + r.email + ">", Name: "N", Email: r.email},
			CreationTime: r.t,
			PubKeyAlgo:   r.algo,
			BitLength:    2048,
		}
	}
	db := database.NewKeysDB(database.Info{NumRows: 1, NumColumns: len(recs)})
	db.KeysInfo = ki
	return db
}

// complexQuery is a predicate with the query that a client makes for it.
type complexQuery struct {
	name string
	q    *query.ClientFSS
	// one of
	match func(k keyRec) bool // count
	avg   bool                // average of the ages of the matching keys
}

var errNothing = errors.New("nothing to average")

// eval is the reference model.
func (q *complexQuery) eval(recs []keyRec) (uint32, error) {
	n, sum := 0, 0
	for _, k := range recs {
		if !q.match(k) {
			continue
		}
		if q.avg {
			d := time.Now().UTC().Year() - k.t.UTC().Year()
			if d < 0 {
				continue
			}
			sum += d
		}
		n++
	}
	if !q.avg {
		return uint32(n), nil
	}
	if n == 0 {
		return 0, errNothing
	}
	return uint32(sum / n), nil
}

func qEmail(s string) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("email=%q", s),
		q:     (&query.Info{Target: query.UserId}).ToEmailClientFSS(s),
		match: func(k keyRec) bool { return k.email == s }}
}

func qStarts(s string) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("starts=%q", s),
		q:     (&query.Info{Target: query.UserId, FromStart: len(s)}).ToEmailClientFSS(s),
		match: func(k keyRec) bool { return strings.HasPrefix(k.email, s) }}
}

func qEnds(s string) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("ends=%q", s),
		q:     (&query.Info{Target: query.UserId, FromEnd: len(s)}).ToEmailClientFSS(s),
		match: func(k keyRec) bool { return strings.HasSuffix(k.email, s) }}
}

var algoNames = map[string]packet.PublicKeyAlgorithm{
	"RSA": packet.PubKeyAlgoRSA, "ElGamal": packet.PubKeyAlgoElGamal, "DSA": packet.PubKeyAlgoDSA,
	"ECDH": packet.PubKeyAlgoECDH, "ECDSA": packet.PubKeyAlgoECDSA,
}

func qAlgo(name string) *complexQuery {
	return &complexQuery{name: "algo=" + name,
		q:     (&query.Info{Target: query.PubKeyAlgo}).ToPKAClientFSS(name),
		match: func(k keyRec) bool { return k.algo == algoNames[name] }}
}

func qTime(year int) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("time=%d", year),
		q: (&query.Info{Target: query.CreationTime}).ToCreationTimeClientFSS(fmt.Sprint(year)),
		// the moment that the program looks for
		match: func(k keyRec) bool { return k.t.Equal(time.Date(year, 0, 0, 0, 0, 0, 0, time.UTC)) }}
}

// qAnd is the conjunction of the fixed year of ToAndClientFSS and the end of
// the email.
func qAnd(org string) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("and=%q", org),
		q:     (&query.Info{And: true, FromEnd: len(org)}).ToAndClientFSS(org),
		match: func(k keyRec) bool { return k.t.UTC().Year() == 2018 && strings.HasSuffix(k.email, org) }}
}

// qYear is the conjunction for any year and part of the email.
func qYear(year int, part string, start bool) *complexQuery {
	in := &query.Info{And: true, Targets: []query.Target{query.CreationTime, query.UserId}}
	if start {
		in.FromStart = len(part)
	} else {
		in.FromEnd = len(part)
	}
	y, err := in.IdForYearCreationTime(time.Date(year, 7, 1, 0, 0, 0, 0, time.UTC))
	if err != nil {
		panic(err)
	}
	e, _ := in.IdForEmail(part)
	input := append(append([]bool{}, y...), e...)
	return &complexQuery{name: fmt.Sprintf("year=%d part=%q start=%v", year, part, start),
		q: &query.ClientFSS{Info: in, Input: input},
		match: func(k keyRec) bool {
			if k.t.UTC().Year() != year {
				return false
			}
			if start {
				return strings.HasPrefix(k.email, part)
			}
			return strings.HasSuffix(k.email, part)
		}}
}

func qAvg(org string) *complexQuery {
	return &complexQuery{name: fmt.Sprintf("avg=%q", org), avg: true,
		q:     (&query.Info{And: true, Avg: true, FromEnd: len(org)}).ToAvgClientFSS(org),
		match: func(k keyRec) bool { return strings.HasSuffix(k.email, org) }}
}

// fssScheme is the authenticated or the unauthenticated scheme.
type fssScheme struct {
	name    string
	client  func(rnd io.Reader, in *database.Info) fssClient
	servers func(db *database.DB) [2]fssServer
}

type fssClient interface {
	QueryBytes(in []byte, n int) ([][]byte, error)
	Query(q *query.ClientFSS, n int) []*query.FSS
	ReconstructBytes(a [][]byte) (interface{}, error)
	Reconstruct(a [][]uint32) (uint32, error)
}

type fssServer interface {
	AnswerBytes(q []byte) ([]byte, error)
	Answer(q *query.FSS) []uint32
}

var fssSchemes = []fssScheme{
	{"complexVPIR", func(rnd io.Reader, in *database.Info) fssClient { return client.NewPredicateAPIR(rnd, in) },
		func(db *database.DB) [2]fssServer {
			return [2]fssServer{server.NewPredicateAPIR(db, 0), server.NewPredicateAPIR(db, 1, 3)}
		}},
	{"complexPIR", func(rnd io.Reader, in *database.Info) fssClient { return client.NewPredicatePIR(rnd, in) },
		func(db *database.DB) [2]fssServer {
			return [2]fssServer{server.NewPredicatePIR(db, 0), server.NewPredicatePIR(db, 1, 1)}
		}},
}

func gobOf(v interface{}) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// honest runs the query on the client and the servers, by the byte or by the
// direct interface.
func honest(c fssClient, s [2]fssServer, q *complexQuery, viaBytes bool) (uint32, error) {
	if !viaBytes {
		qs := c.Query(q.q, 2)
		if len(qs) != 2 {
			return 0, fmt.Errorf("%d queries", len(qs))
		}
		return c.Reconstruct([][]uint32{s[0].Answer(qs[0]), s[1].Answer(qs[1])})
	}
	as, err := honestBytes(c, s, q)
	if err != nil {
		return 0, err
	}
	v, err := c.ReconstructBytes(as)
	if err != nil {
		return 0, err
	}
	u, ok := v.(uint32)
	if !ok {
		return 0, fmt.Errorf("result %T", v)
	}
	return u, nil
}

func honestBytes(c fssClient, s [2]fssServer, q *complexQuery) ([][]byte, error) {
	in, err := q.q.Encode()
	if err != nil {
		return nil, fmt.Errorf("encode: %v", err)
	}
	qs, err := c.QueryBytes(in, 2)
	if err != nil {
		return nil, fmt.Errorf("query: %v", err)
	}
	if len(qs) != 2 {
		return nil, fmt.Errorf("%d queries", len(qs))
	}
	as := make([][]byte, 2)
	for i := range as {
		as[i], err = s[i].AnswerBytes(qs[i])
		if err != nil {
			return nil, fmt.Errorf("answer: %v", err)
		}
	}
	return as, nil
}

var thisYear = time.Now().UTC().Year()

var longMail = strings.Repeat("abcdefgh", 5) + "@epfl.ch"

// nearHashes are different emails whose BLAKE2b hashes have the same first 48
// bits.
var nearHashes = [][2]string{
	{"u7076757@e.ch", "u53561809@e.ch"},
	{"u31989313@e.ch", "u48760776@e.ch"},
	{"u49808869@e.ch", "u54902956@e.ch"},
}

// recAlphabet is the alphabet of records.
func recAlphabet() []keyRec {
	zone := time.FixedZone("z", 5*3600+1800)
	nov := time.Date(2019, 0, 0, 0, 0, 0, 0, time.UTC) // 30 November 2018
	return []keyRec{
		{"alice@epfl.ch", packet.PubKeyAlgoRSA, nov},
		{"alice@epfl.com", packet.PubKeyAlgoElGamal, time.Date(2018, 1, 1, 0, 0, 0, 0, time.UTC)},
		{"Alice@epfl.ch", packet.PubKeyAlgoDSA, time.Date(2017, 12, 31, 23, 59, 59, 999999999, time.UTC)},
		{"é@epfl.ch", packet.PubKeyAlgoECDH, nov.In(zone)},
		{longMail, packet.PubKeyAlgoECDSA, nov.Add(time.Nanosecond)},
		{longMail[:36] + "X" + longMail[37:], packet.PubKeyAlgoRSA, time.Date(2106, 2, 7, 0, 0, 0, 0, time.UTC)},
		{"", packet.PublicKeyAlgorithm(22), time.Unix(0, 0)},
		{"ch", packet.PubKeyAlgoRSAEncryptOnly, nov.Add(-time.Second)},
		{"bob@mit.edu", packet.PubKeyAlgoRSA, time.Date(2018, 12, 31, 20, 0, 0, 0, time.FixedZone("w", -5*3600))},
		// around the current year
		{"carol@epfl.ch", packet.PubKeyAlgoRSA, time.Date(thisYear, 1, 1, 0, 0, 0, 0, time.UTC)},
		{"dan@mit.edu", packet.PubKeyAlgoDSA, time.Date(thisYear, 12, 31, 23, 59, 59, 0, time.UTC).AddDate(-1, 0, 0)},
		{"eve@epfl.com", packet.PubKeyAlgoECDSA, time.Date(thisYear+1, 1, 1, 0, 0, 0, 0, time.UTC)},
	}
}

func queryAlphabet(thorough bool) []*complexQuery {
	var qs []*complexQuery
	recs := recAlphabet()
	for _, k := range recs {
		qs = append(qs, qEmail(k.email))
	}
	qs = append(qs, qEmail("bob@mit.ed"), qEmail("alice@epfl.chx"), qEmail("ALICE@EPFL.CH"))
	add := map[string]bool{}
	for _, k := range recs {
		n := len(k.email)
		for _, l := range []int{1, 2, 5, 31, 32, 33, 36, 37, n - 1, n} {
			if l < 1 || l > n {
				continue
			}
			if s := k.email[:l]; !add["s"+s] {
				add["s"+s] = true
				qs = append(qs, qStarts(s))
			}
			if s := k.email[n-l:]; !add["e"+s] {
				add["e"+s] = true
				qs = append(qs, qEnds(s))
			}
		}
	}
	qs = append(qs, qStarts("alicf"), qStarts("@"), qStarts(longMail+"x"), qEnds("x"+longMail), qEnds("@epfl.cH"), qEnds("@epfl.ch "))
	for _, n := range []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"} {
		qs = append(qs, qAlgo(n))
	}
	for _, y := range []int{1970, 2018, 2019, 2020} {
		qs = append(qs, qTime(y))
	}
	for _, o := range []string{"@epfl.ch", "ch", "epfl.com", "edu", longMail[1:]} {
		qs = append(qs, qAnd(o), qAvg(o), qYear(2018, o, false), qYear(2017, o, false), qYear(1970, o, false), qYear(2106, o, false), qYear(thisYear, o, false))
	}
	qs = append(qs, qYear(2018, "alice", true), qYear(2018, longMail[:34], true), qYear(2019, "bob", true), qAvg("zz"))
	return qs
}
