package main

import (
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/random"
)

// The harness's own ElGamal and discrete logarithm (baby-step table), independent of the code under test.

const dlogRange = 4096 // table covers -dlogRange..dlogRange; giant steps extend it
const giant = 64

var (
	dlogOnce  sync.Once
	dlogTable map[string]int64
)

func pkey(p kyber.Point) string {
	b, err := p.MarshalBinary()
	check(err)
	return string(b)
}

func initDlog() {
	dlogTable = make(map[string]int64, 2*dlogRange+1)
	base := libunlynx.SuiTe.Point().Base()
	up := libunlynx.SuiTe.Point().Null()
	for i := int64(0); i <= dlogRange; i++ {
		dlogTable[pkey(up)] = i
		dlogTable[pkey(libunlynx.SuiTe.Point().Neg(up))] = -i
		up = libunlynx.SuiTe.Point().Add(up, base)
	}
}

// NoValue is reported for a point that encodes no integer in the searched range.
const NoValue = int64(-999999999)

// dlog returns the integer encoded by p, or NoValue.
func dlog(p kyber.Point) int64 {
	dlogOnce.Do(initDlog)
	if p == nil {
		return NoValue
	}
	if v, ok := dlogTable[pkey(p)]; ok {
		return v
	}
	step := libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(2*dlogRange), nil)
	dn := p.Clone()
	up := p.Clone()
	for k := int64(1); k <= giant; k++ {
		dn = libunlynx.SuiTe.Point().Sub(dn, step)
		if v, ok := dlogTable[pkey(dn)]; ok {
			return v + 2*k*dlogRange
		}
		up = libunlynx.SuiTe.Point().Add(up, step)
		if v, ok := dlogTable[pkey(up)]; ok {
			return v - 2*k*dlogRange
		}
	}
	return NoValue
}

func sc(v int64) kyber.Scalar { return libunlynx.SuiTe.Scalar().SetInt64(v) }
func pt(v int64) kyber.Point  { return libunlynx.SuiTe.Point().Mul(sc(v), nil) }
func rndScalar() kyber.Scalar { return libunlynx.SuiTe.Scalar().Pick(random.New()) }
func rndPoint() kyber.Point   { return libunlynx.SuiTe.Point().Mul(rndScalar(), nil) }

func keypair() (kyber.Scalar, kyber.Point) {
	s := rndScalar()
	return s, libunlynx.SuiTe.Point().Mul(s, nil)
}

func enc(pub kyber.Point, v int64) libunlynx.CipherText {
	r := rndScalar()
	K := libunlynx.SuiTe.Point().Mul(r, nil)
	C := libunlynx.SuiTe.Point().Mul(r, pub)
	C = libunlynx.SuiTe.Point().Add(C, pt(v))
	return libunlynx.CipherText{K: K, C: C}
}

func encVec(pub kyber.Point, vs []int64) libunlynx.CipherVector {
	cv := make(libunlynx.CipherVector, len(vs))
	for i, v := range vs {
		cv[i] = enc(pub, v)
	}
	return cv
}

func decPoint(priv kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	s := libunlynx.SuiTe.Point().Mul(priv, c.K)
	return libunlynx.SuiTe.Point().Sub(c.C, s)
}

func dec(priv kyber.Scalar, c libunlynx.CipherText) int64 {
	if c.K == nil || c.C == nil {
		return NoValue
	}
	return dlog(decPoint(priv, c))
}

func decVec(priv kyber.Scalar, cv libunlynx.CipherVector) []int64 {
	res := make([]int64, len(cv))
	for i, c := range cv {
		res[i] = dec(priv, c)
	}
	return res
}

func ctKey(c libunlynx.CipherText) string {
	if c.K == nil || c.C == nil {
		return "nil"
	}
	return pkey(c.K) + pkey(c.C)
}

func cvKeys(cv libunlynx.CipherVector) []string {
	r := make([]string, len(cv))
	for i, c := range cv {
		r[i] = ctKey(c)
	}
	return r
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprint(err)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// formVec encrypts in different forms: "" freshly, "clear" with a neutral ephemeral key (as values uploaded in clear
// are), "mix" both of these, ciphertexts with shared randomness and one ciphertext used several times.
func formVec(pub kyber.Point, vals []int64, form string) libunlynx.CipherVector {
	if form == "" {
		return encVec(pub, vals)
	}
	out := make(libunlynx.CipherVector, len(vals))
	r := rndScalar()
	same := map[int64]libunlynx.CipherText{}
	for i, v := range vals {
		k := 1
		if form == "mix" {
			k = (i + len(vals)) % 4
		}
		switch k {
		case 0:
			out[i] = enc(pub, v)
		case 1:
			out[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: pt(v)}
		case 2:
			out[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Mul(r, nil), C: libunlynx.SuiTe.Point().Add(libunlynx.SuiTe.Point().Mul(r, pub), pt(v))}
		case 3:
			if _, ok := same[v]; !ok {
				same[v] = enc(pub, v)
			}
			out[i] = same[v]
		}
	}
	return out
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
