package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

func init() {
	families["arith"] = runArith
	families["dlog"] = runDlog
}

type arOp struct {
	Op  string  `json:"op"`
	D   int     `json:"d"`
	A   int     `json:"a"`
	B   int     `json:"b"`
	K   int64   `json:"k"`
	Vs  []int64 `json:"vs"`
	How int     `json:"how"`
}

// runArith executes a program over registers of encrypted vectors with the real operations and
// reports all registers (decrypted by the harness) after every step.
func runArith(id string, raw json.RawMessage) Obs {
	var c struct {
		N   int    `json:"n"`
		L   int    `json:"l"`
		Ops []arOp `json:"ops"`
	}
	check(json.Unmarshal(raw, &c))
	priv, pub := keypair()
	regs := make([]libunlynx.CipherVector, c.N)
	for i := range regs {
		regs[i] = encVec(pub, make([]int64, c.L))
	}
	last := make([]string, c.N)
	vals := make([][]int64, c.N)
	type step struct {
		Op   string    `json:"op"`
		D    int       `json:"d"`
		A    int       `json:"a"`
		B    int       `json:"b"`
		K    int64     `json:"k"`
		Vs   []int64   `json:"vs"`
		Regs [][]int64 `json:"regs"`
		Flag bool      `json:"flag"`
		Got  []int64   `json:"got"`
		KA   []string  `json:"ka"` // the vectors compared, by the points of their elements
		KB   []string  `json:"kb"`
	}
	steps := []step{}
	for _, o := range c.Ops {
		s := step{Op: o.Op, D: o.D, A: o.A, B: o.B, K: o.K, Vs: o.Vs, Got: []int64{}, Flag: true, KA: []string{}, KB: []string{}}
		if s.Vs == nil {
			s.Vs = []int64{}
		}
		d, a, b := o.D-1, o.A-1, o.B-1
		switch o.Op {
		case "enc":
			switch o.How {
			case 0:
				regs[d] = *libunlynx.EncryptIntVector(pub, o.Vs)
			case 1:
				cv, rs := libunlynx.EncryptIntVectorGetRs(pub, o.Vs)
				regs[d] = *cv
				for i, x := range *cv { // the randomness returned is the one used
					s.Flag = s.Flag && len(rs) == len(*cv) && x.K.Equal(libunlynx.SuiTe.Point().Mul(rs[i], nil))
				}
			case 2:
				scs := make([]kyber.Scalar, len(o.Vs))
				for i, v := range o.Vs {
					scs[i] = sc(v)
				}
				regs[d] = *libunlynx.EncryptScalarVector(pub, scs)
			case 3:
				regs[d] = libunlynx.IntArrayToCipherVector(o.Vs)
			case 4:
				cv := make(libunlynx.CipherVector, len(o.Vs))
				for i, v := range o.Vs {
					cv[i] = *libunlynx.EncryptInt(pub, v)
				}
				regs[d] = cv
			}
			if o.How != 3 { // fresh randomness for every element
				seen := map[string]bool{}
				for _, x := range regs[d] {
					s.Flag = s.Flag && !seen[pkey(x.K)] && !x.K.Equal(libunlynx.SuiTe.Point().Null())
					seen[pkey(x.K)] = true
				}
			}
		case "null":
			regs[d] = *libunlynx.NullCipherVector(c.L, pub)
		case "zero":
			regs[d] = *libunlynx.NewCipherVector(c.L)
		case "copy":
			cp := make(libunlynx.CipherVector, len(regs[a]))
			copy(cp, regs[a])
			regs[d] = cp
		case "add", "sub":
			if d != a && d != b {
				regs[d] = *libunlynx.NewCipherVector(len(regs[a]))
			}
			if o.Op == "add" {
				regs[d].Add(regs[a], regs[b])
			} else {
				regs[d].Sub(regs[a], regs[b])
			}
		case "addc", "subc", "mulc":
			if d != a && (d != b || o.Op == "mulc") {
				regs[d] = make(libunlynx.CipherVector, len(regs[a]))
			}
			for i := range regs[a] {
				switch o.Op {
				case "addc":
					regs[d][i].Add(regs[a][i], regs[b][i])
				case "subc":
					regs[d][i].Sub(regs[a][i], regs[b][i])
				case "mulc":
					regs[d][i].MulCipherTextbyScalar(regs[a][i], sc(o.K))
				}
			}
		case "acum":
			s.Got = []int64{dec(priv, regs[a].Acum())}
		case "eq":
			eqVariant(regs[a], regs[b], o, &s.Flag, &s.KA, &s.KB)
		case "dec":
			switch o.How {
			case 0:
				s.Got = libunlynx.DecryptIntVectorWithNeg(priv, &regs[a])
			case 1:
				s.Got = libunlynx.DecryptCheckZeroVector(priv, &regs[a])
			}
		case "split":
			x := sc(o.K)
			parts := libunlynx.SplitScalar(x, o.How)
			sum := libunlynx.SuiTe.Scalar().Zero()
			for _, p := range parts {
				sum = libunlynx.SuiTe.Scalar().Add(sum, p)
			}
			s.Flag = len(parts) == o.How+1 && sum.Equal(sc(o.K)) && x.Equal(sc(o.K))
		}
		// only what changed is decrypted again
		for i := range regs {
			k := ""
			for _, x := range cvKeys(regs[i]) {
				k += x
			}
			if k != last[i] || vals[i] == nil {
				last[i] = k
				vals[i] = decVec(priv, regs[i])
			}
		}
		s.Regs = append([][]int64{}, vals...)
		steps = append(steps, s)
	}
	return Obs{"n": c.N, "l": c.L, "steps": steps}
}

// eqVariant compares x with y, or with something made of both (a copy decoded from bytes, one point of one element
// replaced, a shorter vector, exchanged elements, deterministic ciphertexts), with the real comparison.
func eqVariant(x, y libunlynx.CipherVector, o arOp, flag *bool, ka, kb *[]string) {
	w := libunlynx.CipherVector{}
	for _, e := range x {
		w = append(w, libunlynx.CipherText{K: reread(e.K), C: reread(e.C)})
	}
	e := 0
	if len(w) > 0 {
		e = int(o.K) % len(w)
	}
	names := func(cv libunlynx.CipherVector) []string {
		r := []string{}
		for _, t := range cv {
			r = append(r, fmt.Sprintf("%x", sha256.Sum256([]byte(pkey(t.K)+pkey(t.C))))[:12])
		}
		return r
	}
	switch o.How {
	case 0:
		w = y
	case 2:
		w[e].K = y[e].K
	case 3:
		w[e].C = y[e].C
	case 4:
		w = w[:e]
	case 5:
		w[0], w[e] = w[e], w[0]
	case 6, 7: // deterministic ciphertexts
		d1, d2 := libunlynx.DeterministCipherVector{}, libunlynx.DeterministCipherVector{}
		for i := range x {
			d1 = append(d1, libunlynx.DeterministCipherText{Point: x[i].C})
			d2 = append(d2, libunlynx.DeterministCipherText{Point: w[i].C})
			w[i].K = x[i].K
		}
		if o.How == 7 {
			d2[e].Point, w[e].C = y[e].C, y[e].C
		}
		*ka, *kb, *flag = names(x), names(w), d1.Equal(&d2)
		return
	}
	*ka, *kb, *flag = names(x), names(w), x.Equal(&w)
	if o.How == 2 || o.How == 3 { // single ciphertexts
		*ka, *kb, *flag = (*ka)[e:e+1], (*kb)[e:e+1], x[e].Equal(&w[e])
	}
}

func reread(p kyber.Point) kyber.Point {
	b, err := p.MarshalBinary()
	check(err)
	q := libunlynx.SuiTe.Point()
	check(q.UnmarshalBinary(b))
	return q
}

// runDlog decrypts with the real code in the order given, each case in a process of its own.
func runDlog(id string, raw json.RawMessage) Obs {
	var c struct {
		Threads [][]struct {
			V   int64 `json:"v"`
			Neg bool  `json:"neg"`
			Vec bool  `json:"vec"`
		} `json:"threads"`
		Table int64 `json:"table"`
	}
	check(json.Unmarshal(raw, &c))
	priv, pub := keypair()
	type res struct {
		V   int64 `json:"v"`
		Neg bool  `json:"neg"`
		Got int64 `json:"got"`
	}
	if c.Table > 0 {
		libunlynx.CreateDecryptionTable(c.Table, pub, priv)
	}
	out := make([][]res, len(c.Threads))
	var wg sync.WaitGroup
	for i := range c.Threads {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for _, o := range c.Threads[i] {
				r := res{V: o.V, Neg: o.Neg}
				ct := enc(pub, o.V)
				switch {
				case o.Vec && o.Neg:
					r.Got = libunlynx.DecryptIntVectorWithNeg(priv, &libunlynx.CipherVector{ct})[0]
				case o.Vec:
					r.Got = libunlynx.DecryptIntVector(priv, &libunlynx.CipherVector{ct})[0]
				case o.Neg:
					r.Got = libunlynx.DecryptIntWithNeg(priv, ct)
				default:
					r.Got = libunlynx.DecryptInt(priv, ct)
				}
				out[i] = append(out[i], r)
			}
		}(i)
	}
	wg.Wait()
	all := []res{}
	for _, o := range out {
		all = append(all, o...)
	}
	return Obs{"decs": all}
}
