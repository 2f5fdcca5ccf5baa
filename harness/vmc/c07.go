package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"reflect"

	"github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

func init() {
	register(&eng.Check{
		ID:          "C07",
		HangSec:     420,
		Bounds:      "everything that a server receives (all fields of the decoded message), over (bits+64) tapes: equal affine hulls over GF(2) for all special inputs of length 1..5 and all 256 (quick: 57) of length 8, output vectors of length 1..9 over an alphabet, both servers, both schemes, pairs of successive queries; windows of the message for inputs of 128 to 400 bits; equal affine hulls over the field of the last correction word with the server's own evaluations; full dimension of the seeds of both servers; the seed of the other server and the MAC keys change when all randomness but one server's seed does, for all values of the first 48 bytes of the randomness",
		Assumptions: []string{"what distinguishes two distributions is looked for among affine relations over GF(2) and over the field; AES is a pseudorandom generator"},
		Run:         runC07,
	})
}

// flatten writes everything in v.
func flatten(b *bytes.Buffer, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteByte(0)
			return
		}
		b.WriteByte(1)
		flatten(b, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flatten(b, v.Field(i))
		}
	case reflect.Slice, reflect.Array, reflect.String:
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(v.Len()))
		b.Write(l[:])
		for i := 0; i < v.Len(); i++ {
			flatten(b, v.Index(i))
		}
	case reflect.Bool:
		if v.Bool() {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	case reflect.Uint8:
		b.WriteByte(byte(v.Uint()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(v.Int()))
		b.Write(l[:])
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], v.Uint())
		b.Write(l[:])
	case reflect.Map:
		fmt.Fprint(b, v.Len())
	default:
		fmt.Fprint(b, v.Kind())
	}
}

func flat(x interface{}) []byte {
	var b bytes.Buffer
	flatten(&b, reflect.ValueOf(x))
	return b.Bytes()
}

func runC07(r *eng.R) {
	// hulls computes, for every secret, the hull of what either server sees
	hulls := func(what string, secrets []string, gen func(secret int, tape *detrand.Tape) [2][]byte) {
		var ref [2]string
		for si := range secrets {
			var hs [2]hull
			n := 0
			for t := 0; n == 0 || t < n+64; t++ {
				seed := uint64(si)<<24 + uint64(t) + 3 + r.Seed<<48
				v := gen(si, detrand.Seed(seed))
				r.Trans(1)
				if t < 2 {
					w := gen(si, detrand.Seed(seed))
					if !eq(w[0], v[0]) || !eq(w[1], v[1]) {
						r.Failf("%s, secret %s: the message is not a function of the secure randomness", what, secrets[si])
					}
				}
				if n == 0 {
					n = 8 * len(v[0])
				}
				for l := range hs {
					if !hs[l].add(v[l]) {
						r.Failf("%s, secret %s: messages of different lengths", what, secrets[si])
					}
				}
			}
			for l := range hs {
				// stop early was not needed: compare
				k := hs[l].key()
				if si == 0 {
					ref[l] = k
				}
				if k != ref[l] {
					r.Failf("%s: server %d sees a difference between %s (%s) and %s (%s)", what, l, secrets[0], ref[l], secrets[si], k)
				}
				r.State(what, secrets[si], l)
			}
			r.Outcome(fmt.Sprintf("dim%d", hs[0].dim()/100*100))
			r.Trace()
		}
	}
	p := field.ModP
	vectors := func(n int) [][]uint32 {
		var vs [][]uint32
		for k := 0; k < 6; k++ {
			v := make([]uint32, n)
			for i := range v {
				switch k {
				case 0:
					v[i] = 0
				case 1:
					v[i] = 1
				case 2:
					v[i] = p - 1
				case 3:
					v[i] = uint32(i*i*77 + 5)
				case 4:
					v[i] = uint32(uint64(i+1) * 0x51234567 % uint64(p))
				case 5:
					if i == n-1 {
						v[i] = 1 << 30
					}
				}
			}
			vs = append(vs, v)
		}
		return vs
	}
	genKeys := func(a []bool, b []uint32) []fss.FssKeyEq2P {
		return fss.ClientInitialize(len(b)).GenerateTreePF(a, b)
	}
	// the primitive: all special inputs and output vectors
	for n := 1; n <= 5; n++ {
		for bl := 1; bl <= 9; bl++ {
			n, bl := n, bl
			if bl > 5 && n > 2 && !r.Thorough {
				continue
			}
			r.Case(fmt.Sprintf("keys inputs=%d vector=%d", n, bl), func() {
				type sec struct {
					a []bool
					b []uint32
				}
				var ss []sec
				var names []string
				vs := vectors(bl)
				for a := 0; a < 1<<uint(n); a++ {
					for bi := range vs {
						if bi > 0 && a != 0 && a != 1<<uint(n)-1 {
							continue
						}
						ss = append(ss, sec{bitsOf(uint64(a), n), vs[bi]})
						names = append(names, fmt.Sprintf("%0*b->%v", n, a, vs[bi]))
					}
				}
				hulls(r.Cur(), names, func(si int, tape *detrand.Tape) [2][]byte {
					ks := genKeys(ss[si].a, ss[si].b)
					return [2][]byte{flat(ks[0]), flat(ks[1])}
				})
			})
		}
	}
	// over the field: the last correction word and the server's own evaluations
	for n := 1; n <= 4; n++ {
		for bl := 1; bl <= 9; bl++ {
			n, bl := n, bl
			r.Case(fmt.Sprintf("field inputs=%d vector=%d", n, bl), func() {
				for l := 0; l < 2; l++ {
					ref := ""
					first := ""
					for a := 0; a < 1<<uint(n); a++ {
						for _, b := range vectors(bl) {
							h := &hullP{p: uint64(p)}
							dim := bl * (1 + 1<<uint(n))
							for t := 0; t < dim+6; t++ {
								detrand.Seed(uint64(a*1000+t) + uint64(len(b))<<30 + uint64(b[bl-1])<<32)
								in := bitsOf(uint64(a), n)
								k := genKeys(in, b)[l]
								var v []uint64
								for _, x := range k.FinalCW {
									v = append(v, uint64(x))
								}
								s := fss.ServerInitialize(bl)
								for x := 0; x < 1<<uint(n); x++ {
									out := make([]uint32, bl)
									s.EvaluatePF(byte(l), k, bitsOf(uint64(x), n), out)
									for _, y := range out {
										v = append(v, uint64(y))
									}
								}
								h.add(v)
								r.Trans(2)
							}
							key := h.key()
							me := fmt.Sprintf("%0*b->%v", n, a, b)
							if ref == "" {
								ref, first = key, me
							}
							if key != ref {
								r.Failf("server %d sees a linear difference between %s and %s: rank %d of %d", l, first, me, len(h.rows), dim)
							}
							r.State("field", n, bl, l, me)
						}
					}
					r.Trace()
				}
			})
		}
	}
	// the seeds of both servers in successive keys are independent
	for n := 0; n <= 9; n += 3 {
		n := n
		bl := []int{5, 1, 2, 3}[n/3]
		r.Case(fmt.Sprintf("seeds inputs=%d vector=%d", n, bl), func() {
			var h hull
			want := 0
			f := fss.ClientInitialize(bl)
			for t := 0; t < 64*8+80; t++ {
				detrand.Seed(uint64(t) + 99)
				var v []byte
				for k := 0; k < 2; k++ {
					ks := f.GenerateTreePF(bitsOf(uint64(t%(1<<uint(n))), n), vectors(bl)[t%5])
					v = append(append(v, ks[0].SInit...), ks[1].SInit...)
				}
				want = 8 * len(v)
				h.add(v)
				r.Trans(2)
				r.State("seeds", n, v)
			}
			if h.dim() != want {
				r.Failf("the seeds of two successive pairs of keys span %d dimensions of %d", h.dim(), want)
			}
			if want < 4*8*16 {
				r.Failf("seeds of %d bits", want/4)
			}
			r.Trace()
		})
	}
	// what one server knows does not determine the seed of the other one nor the
	// MAC keys: with the randomness that shows in its seed fixed and all the rest
	// changed, they change, whatever single byte of the randomness is
	for pos := 0; pos < 48; pos += 4 {
		pos := pos
		r.Case(fmt.Sprintf("other seed and MAC keys, bytes %d..", pos), func() {
			const size = 160
			run := func(a, b []byte) ([]fss.FssKeyEq2P, []uint32) {
				detrand.Set(detrand.Prefix(b, 5))
				c := fssSchemes[0].client(detrand.Prefix(a, 6), &keysDB(nil).Info)
				q := qAlgo("RSA").q
				fs := c.Query(q, 2)
				r.Trans(1)
				return []fss.FssKeyEq2P{fs[0].FssKey, fs[1].FssKey}, macKeys(fs, q.Input, 5)
			}
			for p := pos; p < pos+4; p++ {
				for x := 0; x < 256; x++ {
					for which := 0; which < 2; which++ {
						t := [2][]byte{make([]byte, size), make([]byte, size)}
						for i := range t {
							detrand.New(uint64(1000*p+x) + 77 + uint64(i)<<20 + r.Seed<<40).Read(t[i])
						}
						t[which][p] = byte(x)
						ks, mac := run(t[0], t[1])
						for l := 0; l < 2; l++ {
							u := [2][]byte{make([]byte, size), make([]byte, size)}
							found := false
							for i := range u {
								for j := range u[i] {
									u[i][j] = ^t[i][j] - byte(j)
								}
								if o := bytes.Index(t[i], ks[l].SInit); o >= 0 {
									copy(u[i][o:], ks[l].SInit)
									found = true
								}
							}
							if !found {
								r.Outcome("seed not read as it is")
								continue
							}
							k2, mac2 := run(u[0], u[1])
							if !eq(k2[l].SInit, ks[l].SInit) {
								r.Outcome("seed does not follow from what it shows")
								continue
							}
							r.Outcome("rest changed")
							if eq(k2[1-l].SInit, ks[1-l].SInit) {
								r.Failf("the seed of server %d follows from the one of server %d (byte %d of the randomness: %d)", 1-l, l, p, x)
							}
							for i := 1; i < len(mac); i++ {
								if mac[i] == mac2[i] && mac[i] != 0 {
									// by chance, once in 2^31
									u[0][size-1]++
									u[1][size-1]++
									for i, v := range u {
										for j := range v {
											if o := bytes.Index(t[i], ks[l].SInit); o < 0 || j < o || j >= o+16 {
												v[j] = v[j]*5 + 3
											}
										}
									}
									if _, mac3 := run(u[0], u[1]); mac3[i] == mac[i] {
										r.Failf("MAC key %d follows from the seed of server %d (byte %d of the randomness: %d)", i, l, p, x)
									}
								}
							}
							r.State("other", p, x, which, l)
						}
					}
				}
			}
			r.Trace()
		})
	}
	// the clients
	messages := func(sch fssScheme, seq []*query.ClientFSS, viaBytes bool) func(tape *detrand.Tape) [2][]byte {
		return func(tape *detrand.Tape) [2][]byte {
			var v [2][]byte
			c := sch.client(tape, &keysDB(nil).Info)
			for _, q := range seq {
				if viaBytes {
					in, err := q.Encode()
					if err != nil {
						r.Failf("encode: %v", err)
					}
					qs, err := c.QueryBytes(in, 2)
					if err != nil {
						r.Failf("query: %v", err)
					}
					for l := range v {
						var d *query.FSS
						if err := gob.NewDecoder(bytes.NewReader(qs[l])).Decode(&d); err != nil {
							r.Failf("decode: %v", err)
						}
						v[l] = append(v[l], flat(d)...)
					}
					continue
				}
				qs := c.Query(q, 2)
				for l := range v {
					v[l] = append(v[l], flat(qs[l])...)
				}
			}
			return v
		}
	}
	pka := func(x int) *query.ClientFSS {
		return &query.ClientFSS{Info: &query.Info{Target: query.PubKeyAlgo}, Input: bitsOf(uint64(x), 8)}
	}
	for _, sch := range fssSchemes {
		sch := sch
		step := 16
		for base := 0; base < 256; base += step {
			base := base
			r.Case(fmt.Sprintf("%s algorithms %d..", sch.name, base), func() {
				secs := []*query.ClientFSS{qAlgo("RSA").q}
				names := []string{"RSA"}
				for i := base; i < base+step; i++ {
					if i%5 != 0 && i&(i-1) != 0 && !r.Thorough {
						continue
					}
					secs = append(secs, pka(i))
					names = append(names, fmt.Sprint("algo ", i))
				}
				hulls(r.Cur(), names, func(si int, tape *detrand.Tape) [2][]byte {
					return messages(sch, secs[si:si+1], si%2 == 0)(tape)
				})
			})
		}
		for _, kind := range []string{"starts", "ends", "and", "avg"} {
			kind := kind
			r.Case(fmt.Sprintf("%s %s", sch.name, kind), func() {
				var secs []*query.ClientFSS
				var names []string
				for _, s := range []string{"a", "b", "\x00", "\xff", "@", "z"} {
					var q *complexQuery
					switch kind {
					case "starts":
						q = qStarts(s)
					case "ends":
						q = qEnds(s)
					case "and":
						q = qAnd(s)
						if s > "a" && !r.Thorough {
							continue
						}
					case "avg":
						q = qAvg(s)
					}
					secs = append(secs, q.q)
					names = append(names, q.name)
				}
				hulls(r.Cur(), names, func(si int, tape *detrand.Tape) [2][]byte {
					return messages(sch, secs[si:si+1], si%2 == 0)(tape)
				})
			})
		}
		// two successive queries of one client
		r.Case(sch.name+" pairs", func() {
			var seqs [][]*query.ClientFSS
			var names []string
			for _, i := range []int{0, 3, 4} {
				for _, j := range []int{0, 3, 4} {
					in := &query.Info{Target: query.PubKeyAlgo}
					seqs = append(seqs, []*query.ClientFSS{{Info: in, Input: bitsOf(uint64(i), 3)}, {Info: in, Input: bitsOf(uint64(j), 3)}})
					names = append(names, fmt.Sprint("inputs ", i, " ", j))
				}
			}
			hulls(r.Cur(), names, func(si int, tape *detrand.Tape) [2][]byte { return messages(sch, seqs[si], si%2 == 1)(tape) })
		})
		// long inputs, by windows
		for _, kind := range []string{"email", "time", "and", "starts33", "ends50"} {
			kind := kind
			r.Case(fmt.Sprintf("%s long %s", sch.name, kind), func() {
				var qs []*complexQuery
				switch kind {
				case "email":
					qs = []*complexQuery{qEmail("a"), qEmail("alice@epfl.ch"), qEmail("")}
				case "time":
					qs = []*complexQuery{qTime(1970), qTime(2019), qTime(2106)}
				case "and":
					qs = []*complexQuery{qAnd("abcd"), qAnd("\x00\x00\x00\x00"), qYear(1999, "\xff\xff\xff\xff", false)}
					qs[2].q.Info = qs[0].q.Info
				case "starts33":
					qs = []*complexQuery{qStarts(longMail[:33]), qStarts(string(make([]byte, 33))), qStarts(string(bytes.Repeat([]byte{0xff}, 33)))}
				case "ends50":
					qs = []*complexQuery{qEnds(longMail + "123"), qEnds(string(make([]byte, len(longMail)+3))), qEnds(string(bytes.Repeat([]byte{0xff}, len(longMail)+3)))}
				}
				var ref [2][]string
				for si, q := range qs {
					var hs [2][]hull
					tapes := 700
					for t := 0; t < tapes; t++ {
						tape := detrand.Seed(uint64(si)<<24 + uint64(t) + r.Seed<<48)
						fs := sch.client(tape, &keysDB(nil).Info).Query(q.q, 2)
						r.Trans(1)
						for l := range hs {
							k := fs[l].FssKey
							for w := 0; w < len(k.CW); w++ {
								v := append([]byte{}, k.SInit...)
								v = append(v, k.TInit)
								v = append(v, k.CW[w]...)
								v = append(v, k.CW[(w+1)%len(k.CW)]...)
								v = append(v, fromU32(k.FinalCW)...)
								if len(hs[l]) <= w {
									hs[l] = append(hs[l], hull{})
								}
								if hs[l][w].n+64 > tapes {
									r.Failf("message too long for the bound")
								}
								if !hs[l][w].add(v) {
									r.Failf("%s: messages of different lengths", q.name)
								}
							}
						}
					}
					for l := range hs {
						if si == 0 {
							ref[l] = make([]string, len(hs[l]))
						}
						if len(ref[l]) != len(hs[l]) {
							r.Failf("%s: %d levels, %s has %d", q.name, len(hs[l]), qs[0].name, len(ref[l]))
						}
						for w := range hs[l] {
							k := hs[l][w].key()
							if si == 0 {
								ref[l][w] = k
							}
							if k != ref[l][w] {
								r.Failf("server %d sees a difference between %s and %s at level %d", l, qs[0].name, q.name, w)
							}
							r.State("long", sch.name, kind, si, l, w)
						}
					}
					r.Trace()
				}
			})
		}
	}
	macCases(r)
}
