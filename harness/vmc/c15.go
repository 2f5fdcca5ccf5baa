package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:     "C15",
		Bounds: "all subsets of up to 3 (thorough 4) of 10 keys (several identities, shared secondary addresses, other algorithms, endings in 0x00, 0x80 and 0x80 00, long) in all orders and all splits into up to 3 files, empty files included; sets of 9 to 110 keys hashed into one bucket, all but one bucket, evenly or by chance, in 6 orders and all two-file splits; emails with long common parts; keys of 3000 to 8192 bytes, up to 19 (thorough 30) of them; classical and Merkle databases, one row and square; 2 to 4 servers; all stored emails; per bucket one absent email, and absent emails close to stored ones",
		Run:    runC15,
	})
}

// the creation times make the packets end as wanted (verified by endings)
var endings = []struct {
	t   int64
	end []byte
}{{194, []byte{0}}, {28, []byte{0x80}}, {36664, []byte{0x80, 0}}, {39449, []byte{0, 0}}}

func keysC15() []certSpec {
	u := func(name, email string, t int64) uidSpec { return uidSpec{name: name, email: email, t: tBase + t} }
	p := u("Pam", "pam@a.org", 1)
	p.primary = true
	f := u("Fay", "fay@a.org", 1)
	f.foreign = true
	return []certSpec{
		simple("alice@a.org", 0),
		simple("alice@a.orgx", 7),
		simple("lice@a.org", 9),
		{t: tBase + 3, uids: []uidSpec{u("Bob", "BoB@A.org", 0)}},
		{t: tBase + 4, uids: []uidSpec{u("Carol", "carol@a.org", 9), u("Alice", "mallory@a.org", 1), u("Old", "alice@a.org", 0)}},
		{t: tBase + 5, key: 1, uids: []uidSpec{u("New", "zoe@a.org", 9), p}},
		{t: tBase + 6, uids: []uidSpec{u("No address", "", 9), u("Y", "yan@a.org", 1), u("X", "xia@a.org", 2)}},
		{t: tBase + 7, sub: false, pad: 3000, uids: []uidSpec{f}},
		{raw: dsaCert},
		{raw: ecdsaCert},
	}
}

func algoOf(c certSpec) (packet.PublicKeyAlgorithm, int64) {
	switch c.raw {
	case dsaCert:
		return packet.PubKeyAlgoDSA, tBase
	case ecdsaCert:
		return packet.PubKeyAlgoECDSA, tBase
	}
	return packet.PubKeyAlgoRSA, c.t
}

type keySet struct {
	name  string
	certs []certSpec
}

func (s keySet) keys() []pgp.Key {
	out := make([]pgp.Key, len(s.certs))
	for i, c := range s.certs {
		out[i] = pgp.Key{ID: c.email(), Packet: c.bytes()}
	}
	return out
}

func bucketsFor(n int, rebalanced bool) int {
	dir, done := scratch()
	defer done()
	keys := make([]pgp.Key, n)
	for i := range keys {
		keys[i] = pgp.Key{ID: fmt.Sprint(i), Packet: []byte{1}}
	}
	db, err := database.GenerateRealKeyBytes(writeSplit(dir, keys, []int{n}), rebalanced)
	must(err)
	return db.NumRows * db.NumColumns
}

type builtDBs struct {
	bytes [4]*database.Bytes // classical, Merkle; the second two square
	kdb   *database.DB
}

func buildAll(files []string) (*builtDBs, error) {
	b := &builtDBs{}
	for i := range b.bytes {
		gen := database.GenerateRealKeyBytes
		if i%2 == 1 {
			gen = database.GenerateRealKeyMerkle
		}
		var err error
		if b.bytes[i], err = gen(files, i >= 2); err != nil {
			return nil, err
		}
	}
	var err error
	b.kdb, err = database.GenerateRealKeyDB(files)
	return b, err
}

func runC15(r *eng.R) {
	check := func(set keySet, orders [][]int, splits [][]int) {
		r.Case("keys "+set.name, func() {
			dir, done := scratch()
			defer done()
			keys := set.keys()
			stored := map[string][]byte{}
			for _, k := range keys {
				stored[k.ID] = k.Packet
			}
			var first *builtDBs
			for _, o := range orders {
				perm := make([]pgp.Key, len(keys))
				for i, j := range o {
					perm[i] = keys[j]
				}
				for _, sizes := range splits {
					b, err := buildAll(writeSplit(dir, perm, sizes))
					if err != nil {
						r.Failf("order %v in files of %v keys: %v", o, sizes, err)
					}
					r.State(set.name, o, sizes)
					r.Trans(5)
					if first == nil {
						first = b
					} else if !reflect.DeepEqual(first, b) {
						for i := range b.bytes {
							if !reflect.DeepEqual(first.bytes[i], b.bytes[i]) {
								r.Failf("order %v in files of %v keys: database %d differs from the one of order %v in files of %v keys", o, sizes, i, orders[0], splits[0])
							}
						}
						r.Failf("order %v in files of %v keys: the list of keys differs from the one of order %v in files of %v keys", o, sizes, orders[0], splits[0])
					}
				}
			}
			c15Info(r, set, first.kdb)
			for i, db := range first.bytes {
				c15Retrieve(r, keys, db, i%2 == 1, stored)
			}
			r.Trace()
		})
	}

	// small sets
	all := keysC15()
	if r.Thorough {
		for i, e := range endings {
			all = append(all, ending(i))
			if b := ending(i).bytes(); !bytes.HasSuffix(b, e.end) {
				panic("the ending of a fixture is wrong")
			}
		}
	} else {
		for i := range endings[:3] {
			all = append(all, ending(i))
		}
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		var cs []certSpec
		for _, i := range cur {
			cs = append(cs, all[i])
		}
		check(keySet{fmt.Sprint(cur), cs}, permutations(len(cs)), compositions(len(cs), 3, true))
		if len(cur) == max {
			return
		}
		for i := from; i < len(all); i++ {
			rec(i+1, append(append([]int{}, cur...), i))
		}
	}
	rec(0, nil)

	// emails with long common parts, long keys
	similar := func(i int) string {
		return fmt.Sprintf("somebody.with.a.very.long.name.indeed%d@department.of.a.university.example.org", i)
	}
	var group []certSpec
	for i := 0; i < 4; i++ {
		group = append(group, simple(similar(i), int64(i)))
	}
	check(keySet{"similar emails", group}, permutations(4), compositions(4, 3, true))
	group = nil
	for i := 0; i < 4; i++ {
		group = append(group, simple(similar(0)[:20+9*i], int64(i)))
	}
	check(keySet{"emails that are the beginnings of others", group}, permutations(4), compositions(4, 3, true))
	for _, n := range []int{3, 9, 19, 24, 30} {
		if n > 20 && !r.Thorough {
			continue
		}
		var big []certSpec
		id, rev := make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			id[i], rev[i] = i, n-1-i
			big = append(big, sizedCert(similar(i), int64(i), 8192-i%3))
		}
		check(keySet{fmt.Sprint(n, " keys of about 8192 bytes"), big}, [][]int{id, rev}, [][]int{{n}, {1, n - 1}})
	}
	for _, sz := range []int{3000, 4096, 5000, 6000, 7000, 7500, 8000} {
		check(keySet{fmt.Sprint("keys of ", sz, " bytes"), []certSpec{sizedCert("a@b.org", 1, sz), simple("b@b.org", 1), sizedCert("c@b.org", 2, sz+1)}}, [][]int{{0, 1, 2}, {2, 0, 1}}, [][]int{{3}, {1, 2}})
	}

	// larger sets
	sizes := []int{9, 10, 11, 19, 20, 21, 40, 45}
	if r.Thorough {
		sizes = append(sizes, 30, 50, 90, 100, 110)
	}
	for _, n := range sizes {
		for _, rebalanced := range []bool{false, true} {
			m := bucketsFor(n, rebalanced)
			for _, dist := range []string{"chance", "one", "but one", "even"} {
				if dist != "chance" && m == 1 {
					continue
				}
				targets := []int{0}
				if dist == "one" || dist == "but one" {
					targets = []int{0, m / 2, m - 1}
				}
				for ti, target := range targets {
					if ti > 0 && target == targets[ti-1] {
						continue
					}
					set := keySet{name: fmt.Sprintf("%d rebalanced=%v %s %d", n, rebalanced, dist, target)}
					for i, j := 0, 0; i < n; j++ {
						email := fmt.Sprintf("user%d@a.org", j)
						h := int(database.HashToIndex(email, m))
						if dist == "one" && h != target || dist == "but one" && h == target || dist == "even" && h != i%m {
							continue
						}
						set.certs = append(set.certs, simple(email, int64(j)))
						i++
					}
					id, rev, rot, shuf := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
					step := 7
					for n%step == 0 {
						step++
					}
					for i := range id {
						id[i], rev[i], rot[i], shuf[i] = i, n-1-i, (i+n/2)%n, (i*step)%n
					}
					if gcd(step, n) != 1 {
						shuf = rot
					}
					splits := [][]int{{n}}
					for k := 1; k < n; k += 1 + n/10 {
						splits = append(splits, []int{k, n - k})
					}
					orders := [][]int{id, rev, rot, shuf}
					if !r.Thorough {
						orders = [][]int{id, shuf}
						splits = [][]int{{n}, {1, n - 1}, {n / 2, 0, n - n/2}}
					}
					check(set, orders, splits)
				}
			}
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func ending(i int) certSpec { return simple(fmt.Sprintf("end%d@a.org", i), endings[i].t) }

func c15Info(r *eng.R, set keySet, db *database.DB) {
	if len(db.KeysInfo) != len(set.certs) || db.NumColumns != len(set.certs) {
		r.Failf("%d keys, %d in the directory (%d columns)", len(set.certs), len(db.KeysInfo), db.NumColumns)
	}
	seen := map[string]bool{}
	for _, c := range set.certs {
		algo, t := algoOf(c)
		email := c.email()
		for _, k := range db.KeysInfo {
			ki := strings.ToLower(k.UserId.Email)
			if ki != email && !(ki == "" && c.t == tBase+6) {
				continue
			}
			if seen[email] {
				r.Failf("%s is in the directory twice", email)
			}
			seen[email] = true
			if k.PubKeyAlgo != algo || !k.CreationTime.Equal(time.Unix(t, 0)) {
				r.Failf("%s is in the directory with algorithm %d and creation time %v; it has %d and %v", email, k.PubKeyAlgo, k.CreationTime, algo, time.Unix(t, 0))
			}
		}
		if !seen[email] {
			r.Failf("%s is missing in the directory", email)
		}
	}
}

func c15Retrieve(r *eng.R, keys []pgp.Key, db *database.Bytes, merkle bool, stored map[string][]byte) {
	n := db.NumRows * db.NumColumns
	get := func(email string, ns int) ([]byte, error) {
		c := client.NewPIR(detrand.New(r.Seed), &db.Info)
		qs, err := c.QueryBytes(be32(int(database.HashToIndex(email, n))), ns)
		if err != nil {
			return nil, err
		}
		as, err := answersOf(pirServers(db, ns), qs)
		if err != nil {
			r.Failf("%s: answer: %v", email, err)
		}
		res, err := c.ReconstructBytes(as)
		if err != nil {
			r.Failf("%s: honest servers were rejected: %v", email, err)
		}
		r.Trans(ns + 2)
		e, err := pgp.RecoverKeyFromBlock(database.UnPadBlock(res.([]byte)), email)
		if err != nil {
			return nil, err
		}
		if e == nil {
			r.Failf("%s: no key and no error", email)
		}
		return []byte(canonEntity(e)), nil
	}
	kind := fmt.Sprintf("%dx%d merkle=%v", db.NumRows, db.NumColumns, merkle)
	for ns := 2; ns <= 4; ns++ {
		if ns == 4 && len(stored) > 3 {
			break
		}
		for _, key := range keys {
			email, p := key.ID, key.Packet
			want, err := canonBytes(p)
			must(err)
			got, err := get(email, ns)
			if err != nil {
				r.Failf("%s, %d servers: %s is stored, got error %v", kind, ns, email, err)
			}
			if string(got) != want {
				r.Failf("%s, %d servers: %s: got another key than the stored one", kind, ns, email)
			}
			r.Outcome("found")
		}
	}
	// absent ones
	absent := []string{"", "a", "alice@a.or", "Alice@a.org", "mallory@a.org", "zoe@a.org", "yan@a.org", "alice@a.org", "N <alice@a.org>", "alice@a.org\x00", " alice@a.org"}
	for b, left, j := map[int]bool{}, n, 0; left > 0; j++ {
		e := fmt.Sprintf("absent%d@none.org", j)
		if h := int(database.HashToIndex(e, n)); !b[h] {
			b[h] = true
			left--
			absent = append(absent, e)
		}
	}
	for _, k := range keys[:minInt(3, len(keys))] {
		absent = append(absent, k.ID[1:], k.ID[:len(k.ID)-1], k.ID+"m", strings.ToUpper(k.ID))
	}
	for _, email := range absent {
		if stored[email] != nil {
			continue
		}
		for ns := 2; ns <= 3; ns++ {
			got, err := get(email, ns)
			if err == nil {
				// spelled differently
				if p := stored[strings.ToLower(email)]; p != nil {
					if want, _ := canonBytes(p); want == string(got) {
						continue
					}
				}
				r.Failf("%s, %d servers: %q is not stored, but a key was found", kind, ns, email)
			}
			r.Outcome("absent")
		}
	}
}
