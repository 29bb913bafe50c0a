package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/network"
)

// Values are rows of parts of numbers; a number stands for a ciphertext, a point, a scalar, a
// character or itself, depending on the format. A wire is what is written: byte strings and lengths.

type cVal [][][]int64

type wire struct {
	B [][]byte
	L []int
}

type codec struct {
	enc func(v cVal) (wire, error)
	dec func(w wire, orig cVal) (cVal, error)
	// what the announced lengths say: "any", "row" (every row has this shape) or "rows"
	ann func(w wire) (string, [][]int64)
}

const poolStep = 1000003

var (
	ptOf = map[int64]kyber.Point{}
	idOf = map[string]int64{}
)

// poolPt is the point of number k; 0 is the neutral element.
func poolPt(k int64) kyber.Point {
	if p, ok := ptOf[k]; ok {
		return p.Clone()
	}
	p := pt(k * poolStep)
	ptOf[k] = p
	idOf[pkey(p)] = k
	return p.Clone()
}
func ptID(p kyber.Point) int64 {
	if p == nil {
		return -2
	}
	if k, ok := idOf[pkey(p)]; ok {
		return k
	}
	return -1
}

// the ciphertext of number k has two different points
func poolCT(k int64) libunlynx.CipherText {
	if k == 0 {
		return libunlynx.CipherText{K: poolPt(0), C: poolPt(0)}
	}
	return libunlynx.CipherText{K: poolPt(2*k - 1), C: poolPt(2 * k)}
}
func ctID(c libunlynx.CipherText) int64 {
	a, b := ptID(c.K), ptID(c.C)
	if a == 0 && b == 0 {
		return 0
	}
	if a > 0 && a%2 == 1 && b == a+1 {
		return b / 2
	}
	return -1
}
func poolSc(k int64) kyber.Scalar { return sc(k * poolStep) }
func scID(s kyber.Scalar, near []int64) int64 {
	for _, k := range near {
		if s.Equal(poolSc(k)) {
			return k
		}
	}
	return -1
}
func cvOf(ids []int64) libunlynx.CipherVector {
	r := make(libunlynx.CipherVector, len(ids))
	for i, k := range ids {
		r[i] = poolCT(k)
	}
	return r
}
func cvIDs(cv libunlynx.CipherVector) []int64 {
	r := make([]int64, len(cv))
	for i := range cv {
		r[i] = ctID(cv[i])
	}
	return r
}
func ptsOf(ids []int64) []kyber.Point {
	r := make([]kyber.Point, len(ids))
	for i, k := range ids {
		r[i] = poolPt(k)
	}
	return r
}
func ptIDs(ps []kyber.Point) []int64 {
	r := make([]int64, len(ps))
	for i := range ps {
		r[i] = ptID(ps[i])
	}
	return r
}
func txt(ids []int64) string {
	b := make([]byte, len(ids))
	for i, k := range ids {
		b[i] = byte(k)
	}
	return string(b)
}
func txtIDs(s string) []int64 {
	r := make([]int64, len(s))
	for i := range r {
		r[i] = int64(s[i])
	}
	return r
}
func matOf(v cVal) []libunlynx.CipherVector {
	r := make([]libunlynx.CipherVector, len(v))
	for i := range v {
		r[i] = cvOf(v[i][0])
	}
	return r
}
func matIDs(m []libunlynx.CipherVector) cVal {
	r := cVal{}
	for _, x := range m {
		r = append(r, [][]int64{cvIDs(x)})
	}
	return r
}
func anyAnn(wire) (string, [][]int64) { return "any", nil }

// keyAnn: a text with something else than numbers in it is not a grouping key
func keyAnn(w wire) (string, [][]int64) {
	for _, b := range w.B[0] {
		if !strings.ContainsRune("0123456789+-, \t\n", rune(b)) {
			return "none", nil
		}
	}
	return "any", nil
}
func rowAnn(l ...int) (string, [][]int64) {
	r := make([]int64, len(l))
	for i, x := range l {
		r[i] = int64(x)
	}
	return "row", [][]int64{r}
}
func lensAnn(b []byte) (string, [][]int64) {
	if len(b)%4 != 0 {
		return "any", nil
	}
	r := [][]int64{}
	for i := 0; i < len(b); i += 4 {
		r = append(r, []int64{int64(b[i])<<24 | int64(b[i+1])<<16 | int64(b[i+2])<<8 | int64(b[i+3])})
	}
	for _, x := range r {
		if x[0] > 1<<30 {
			return "none", nil // no value has that shape
		}
	}
	return "rows", r
}

func frdOf(v [][]int64) libunlynx.FilteredResponseDet {
	return libunlynx.FilteredResponseDet{Fr: libunlynx.FilteredResponse{GroupByEnc: cvOf(v[0]), AggregatingAttributes: cvOf(v[1])}, DetTagGroupBy: libunlynx.GroupingKey(txt(v[2]))}
}
func frdIDs(f libunlynx.FilteredResponseDet) [][]int64 {
	return [][]int64{cvIDs(f.Fr.GroupByEnc), cvIDs(f.Fr.AggregatingAttributes), txtIDs(string(f.DetTagGroupBy))}
}
func prOf(v [][]int64) libunlynx.ProcessResponse {
	return libunlynx.ProcessResponse{GroupByEnc: cvOf(v[0]), AggregatingAttributes: cvOf(v[1]), WhereEnc: cvOf(v[2])}
}
func prIDs(p libunlynx.ProcessResponse) [][]int64 {
	return [][]int64{cvIDs(p.GroupByEnc), cvIDs(p.AggregatingAttributes), cvIDs(p.WhereEnc)}
}

func names(first string, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = first + strconv.Itoa(i)
	}
	return r
}
func clearMap(ids []int64) map[string]int64 {
	m := map[string]int64{}
	for i, n := range names("a", len(ids)) {
		m[n] = ids[i]
	}
	return m
}
func clearIDs(m map[string]int64) []int64 {
	r := make([]int64, len(m))
	for i, n := range names("a", len(m)) {
		x, ok := m[n]
		if !ok {
			return make([]int64, len(m)+1) // an attribute is missing
		}
		r[i] = x
	}
	return r
}
func encIDs(m map[string]libunlynx.CipherText) []int64 {
	r := make([]int64, len(m))
	for i, n := range names("a", len(m)) {
		x, ok := m[n]
		if !ok {
			return make([]int64, len(m)+1) // an attribute is missing
		}
		r[i] = ctID(x)
	}
	return r
}
func encMap(ids []int64) map[string][]byte {
	m := map[string][]byte{}
	for i, n := range names("a", len(ids)) {
		ct := poolCT(ids[i])
		b, err := ct.ToBytes()
		check(err)
		m[n] = b
	}
	return m
}
func sortedKeys(m map[string][]byte) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// viaNet sends the message through onet's encoding.
func viaNet(msg interface{}) (interface{}, error) {
	b, err := network.Marshal(msg)
	if err != nil {
		return nil, err
	}
	_, out, err := network.Unmarshal(b, libunlynx.SuiTe)
	return out, err
}

var dptsShape [3]map[string][]byte

func aggProofs(v cVal) libunlynxaggr.PublishedAggregationListProof {
	p := libunlynxaggr.PublishedAggregationListProof{List: []libunlynxaggr.PublishedAggregationProof{}}
	for _, r := range v {
		p.List = append(p.List, libunlynxaggr.PublishedAggregationProof{Data: cvOf(r[0]), AggregationResult: poolCT(r[1][0])})
	}
	return p
}

var codecs map[string]codec

func init() {
	families["codec"] = runCodec
	network.RegisterMessage(libunlynx.DpResponseToSend{})
	codecs = map[string]codec{
		"ct": {func(v cVal) (wire, error) {
			c := poolCT(v[0][0][0])
			b, err := c.ToBytes()
			return wire{B: [][]byte{b}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			c := libunlynx.CipherText{}
			if err := c.FromBytes(w.B[0]); err != nil {
				return nil, err
			}
			return cVal{{{ctID(c)}}}, nil
		}, func(wire) (string, [][]int64) { return rowAnn(1) }},
		"ct64": {func(v cVal) (wire, error) {
			c := poolCT(v[0][0][0])
			s, err := c.Serialize()
			return wire{B: [][]byte{[]byte(s)}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			c, err := libunlynx.NewCipherTextFromBase64(string(w.B[0]))
			d := libunlynx.CipherText{}
			err2 := d.Deserialize(string(w.B[0]))
			if (err == nil) != (err2 == nil) {
				return cVal{{{-5}}}, nil
			}
			if err != nil {
				return nil, err
			}
			if ctID(*c) != ctID(d) {
				return cVal{{{-6}}}, nil
			}
			return cVal{{{ctID(d)}}}, nil
		}, func(wire) (string, [][]int64) { return rowAnn(1) }},
		"cv": {func(v cVal) (wire, error) {
			c := cvOf(v[0][0])
			b, n, err := c.ToBytes()
			return wire{B: [][]byte{b}, L: []int{n}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			c := libunlynx.CipherVector{}
			if err := c.FromBytes(w.B[0], w.L[0]); err != nil {
				return nil, err
			}
			return cVal{{cvIDs(c)}}, nil
		}, func(w wire) (string, [][]int64) { return rowAnn(w.L...) }},
		"points": {func(v cVal) (wire, error) {
			b, err := libunlynx.AbstractPointsToBytes(ptsOf(v[0][0]))
			return wire{B: [][]byte{b}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			p, err := libunlynx.FromBytesToAbstractPoints(w.B[0])
			if err != nil {
				return nil, err
			}
			return cVal{{ptIDs(p)}}, nil
		}, anyAnn},
		"point64": {func(v cVal) (wire, error) {
			s, err := libunlynx.SerializePoint(poolPt(v[0][0][0]))
			return wire{B: [][]byte{[]byte(s)}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			p, err := libunlynx.DeserializePoint(string(w.B[0]))
			if err != nil {
				return nil, err
			}
			return cVal{{{ptID(p)}}}, nil
		}, func(wire) (string, [][]int64) { return rowAnn(1) }},
		"scalar64": {func(v cVal) (wire, error) {
			s, err := libunlynx.SerializeScalar(poolSc(v[0][0][0]))
			return wire{B: [][]byte{[]byte(s)}}, err
		}, func(w wire, o cVal) (cVal, error) {
			s, err := libunlynx.DeserializeScalar(string(w.B[0]))
			if err != nil {
				return nil, err
			}
			return cVal{{{scID(s, o[0][0])}}}, nil
		}, func(wire) (string, [][]int64) { return rowAnn(1) }},
		"matrix": {func(v cVal) (wire, error) {
			b, l, err := libunlynx.ArrayCipherVectorToBytes(matOf(v))
			return wire{B: [][]byte{b, l}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			m, err := libunlynx.FromBytesToArrayCipherVector(w.B[0], w.B[1])
			if err != nil {
				return nil, err
			}
			return matIDs(m), nil
		}, func(w wire) (string, [][]int64) { return lensAnn(w.B[1]) }},
		"shufmsg": {func(v cVal) (wire, error) {
			b, l, err := (&protocolsunlynx.ShufflingMessage{Data: matOf(v)}).ToBytes()
			return wire{B: [][]byte{b, l}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			m := protocolsunlynx.ShufflingMessage{}
			if err := m.FromBytes(w.B[0], w.B[1]); err != nil {
				return nil, err
			}
			return matIDs(m.Data), nil
		}, func(w wire) (string, [][]int64) { return lensAnn(w.B[1]) }},
		// the first row is the shuffle key
		"sddtmsg": {func(v cVal) (wire, error) {
			b, l, err := (&protocolsunlynx.ShufflingPlusDDTMessage{Data: matOf(v[1:])}).ToBytes()
			if err != nil {
				return wire{}, err
			}
			k, err := libunlynx.AbstractPointsToBytes(ptsOf(v[0][0]))
			return wire{B: [][]byte{b, l, k}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			m := protocolsunlynx.ShufflingPlusDDTMessage{}
			if err := m.FromBytes(w.B[0], w.B[2], w.B[1]); err != nil {
				return nil, err
			}
			return append(cVal{{{ptID(m.ShuffKey)}}}, matIDs(m.Data)...), nil
		}, func(w wire) (string, [][]int64) {
			k, a := lensAnn(w.B[1])
			if k == "rows" {
				a = append([][]int64{{1}}, a...)
			}
			return k, a
		}},
		"fr": {func(v cVal) (wire, error) {
			f := libunlynx.FilteredResponse{GroupByEnc: cvOf(v[0][0]), AggregatingAttributes: cvOf(v[0][1])}
			b, g, a, err := f.ToBytes()
			return wire{B: [][]byte{b}, L: []int{g, a}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			f := libunlynx.FilteredResponse{}
			if err := f.FromBytes(w.B[0], w.L[1], w.L[0]); err != nil {
				return nil, err
			}
			return cVal{{cvIDs(f.GroupByEnc), cvIDs(f.AggregatingAttributes)}}, nil
		}, func(w wire) (string, [][]int64) { return rowAnn(w.L...) }},
		"frd": {func(v cVal) (wire, error) {
			f := frdOf(v[0])
			b, g, a, t, err := f.ToBytes()
			return wire{B: [][]byte{b}, L: []int{g, a, t}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			f := libunlynx.FilteredResponseDet{}
			if err := f.FromBytes(w.B[0], w.L[0], w.L[1], w.L[2]); err != nil {
				return nil, err
			}
			return cVal{frdIDs(f)}, nil
		}, func(w wire) (string, [][]int64) { return rowAnn(w.L...) }},
		"pr": {func(v cVal) (wire, error) {
			p := prOf(v[0])
			b, g, a, wl, err := p.ToBytes()
			return wire{B: [][]byte{b}, L: []int{g, a, wl}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			p := libunlynx.ProcessResponse{}
			if err := p.FromBytes(w.B[0], w.L[0], w.L[1], w.L[2]); err != nil {
				return nil, err
			}
			return cVal{prIDs(p)}, nil
		}, func(w wire) (string, [][]int64) { return rowAnn(w.L...) }},
		// group, aggregate, where, group tag, where tags
		"prd": {func(v cVal) (wire, error) {
			p := libunlynx.ProcessResponseDet{PR: prOf(v[0]), DetTagGroupBy: libunlynx.GroupingKey(txt(v[0][3]))}
			for _, t := range v[0][4:] {
				p.DetTagWhere = append(p.DetTagWhere, libunlynx.GroupingKey(txt(t)))
			}
			b, g, a, wl, t, tw, err := p.ToBytes()
			return wire{B: [][]byte{b}, L: []int{g, a, wl, t, tw}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			p := libunlynx.ProcessResponseDet{}
			if err := p.FromBytes(w.B[0], w.L[0], w.L[1], w.L[2], w.L[3], w.L[4]); err != nil {
				return nil, err
			}
			r := append(prIDs(p.PR), txtIDs(string(p.DetTagGroupBy)))
			for _, t := range p.DetTagWhere {
				r = append(r, txtIDs(string(t)))
			}
			return cVal{r}, nil
		}, func(w wire) (string, [][]int64) {
			_, a := rowAnn(w.L[:4]...)
			return "prefix", a
		}},
		"card": {func(v cVal) (wire, error) {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			for _, r := range v {
				m.ChildData = append(m.ChildData, frdOf(r))
			}
			b, g, a, t, err := m.ToBytes()
			return wire{B: [][]byte{b}, L: []int{g, a, t}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			if err := m.FromBytes(w.B[0], w.L[0], w.L[1], w.L[2]); err != nil {
				return nil, err
			}
			r := cVal{}
			for _, x := range m.ChildData {
				r = append(r, frdIDs(x))
			}
			return r, nil
		}, func(w wire) (string, [][]int64) { return rowAnn(w.L...) }},
		"dtm": {func(v cVal) (wire, error) {
			b, err := (&protocolsunlynx.DeterministicTaggingMessage{Data: cvOf(v[0][0])}).ToBytes()
			return wire{B: [][]byte{b}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			m := protocolsunlynx.DeterministicTaggingMessage{}
			if err := m.FromBytes(w.B[0]); err != nil {
				return nil, err
			}
			return cVal{{cvIDs(m.Data)}}, nil
		}, anyAnn},
		// where clear, where enc, group clear, group enc, aggregates clear, aggregates enc
		"dpr": {func(v cVal) (wire, error) {
			d := libunlynx.DpResponseToSend{WhereClear: clearMap(v[0][0]), WhereEnc: encMap(v[0][1]), GroupByClear: clearMap(v[0][2]),
				GroupByEnc: encMap(v[0][3]), AggregatingAttributesClear: clearMap(v[0][4]), AggregatingAttributesEnc: encMap(v[0][5])}
			o, err := viaNet(&d)
			if err != nil {
				return wire{}, err
			}
			e := o.(*libunlynx.DpResponseToSend)
			w := wire{}
			for _, m := range []map[string][]byte{e.WhereEnc, e.GroupByEnc, e.AggregatingAttributesEnc} {
				for _, k := range sortedKeys(m) {
					w.B = append(w.B, m[k])
				}
			}
			return w, nil
		}, func(w wire, o cVal) (cVal, error) {
			v := o[0]
			d := libunlynx.DpResponseToSend{WhereClear: clearMap(v[0]), GroupByClear: clearMap(v[2]), AggregatingAttributesClear: clearMap(v[4]),
				WhereEnc: map[string][]byte{}, GroupByEnc: map[string][]byte{}, AggregatingAttributesEnc: map[string][]byte{}}
			at := 0
			for i, m := range []map[string][]byte{d.WhereEnc, d.GroupByEnc, d.AggregatingAttributesEnc} {
				ks := names("a", len(v[2*i+1]))
				sort.Strings(ks)
				for _, k := range ks {
					if at >= len(w.B) {
						return cVal{{{-8}}}, nil
					}
					m[k] = w.B[at]
					at++
				}
			}
			x, err := viaNet(&d)
			if err != nil {
				return nil, err
			}
			r := libunlynx.DpResponse{}
			if err := r.FromDpResponseToSend(*x.(*libunlynx.DpResponseToSend)); err != nil {
				return nil, err
			}
			return cVal{{clearIDs(r.WhereClear), encIDs(r.WhereEnc), clearIDs(r.GroupByClear), encIDs(r.GroupByEnc),
				clearIDs(r.AggregatingAttributesClear), encIDs(r.AggregatingAttributesEnc)}}, nil
		}, anyAnn},
		"key": {func(v cVal) (wire, error) {
			return wire{B: [][]byte{[]byte(libunlynx.Key(v[0][0]))}}, nil
		}, func(w wire, _ cVal) (cVal, error) {
			k, err := libunlynx.UnKey(libunlynx.GroupingKey(w.B[0]))
			if err != nil {
				return nil, err
			}
			return cVal{{k}}, nil
		}, keyAnn},
		"ints": {func(v cVal) (wire, error) {
			l := make([]int, len(v[0][0]))
			for i, x := range v[0][0] {
				l[i] = int(x)
			}
			return wire{B: [][]byte{libunlynxtools.UnsafeCastIntsToBytes(l)}}, nil
		}, func(w wire, _ cVal) (cVal, error) {
			r := []int64{}
			for _, x := range libunlynxtools.UnsafeCastBytesToInts(w.B[0]) {
				r = append(r, int64(x))
			}
			return cVal{{r}}, nil
		}, anyAnn},
		"i64text": {func(v cVal) (wire, error) {
			return wire{B: [][]byte{[]byte(libunlynxtools.Int64ArrayToString(v[0][0]))}}, nil
		}, func(w wire, _ cVal) (cVal, error) {
			return cVal{{libunlynxtools.StringToInt64Array(string(w.B[0]))}}, nil
		}, anyAnn},
		"datamap": {func(v cVal) (wire, error) { return wire{}, nil }, func(w wire, o cVal) (cVal, error) {
			m := libunlynxtools.ConvertDataToMap(o[0][0], "x", int(o[0][1][0]))
			return cVal{{libunlynxtools.ConvertMapToData(m, "x", int(o[0][1][0])), o[0][1]}}, nil
		}, anyAnn},
		// rows of ciphertexts and scalars, through a file
		"precomp": {func(v cVal) (wire, error) {
			l := []libunlynxshuffle.CipherVectorScalar{}
			for _, r := range v {
				x := libunlynxshuffle.CipherVectorScalar{CipherV: cvOf(r[0])}
				for _, k := range r[1] {
					x.S = append(x.S, poolSc(k))
				}
				l = append(l, x)
			}
			e, err := libunlynxshuffle.EncodeCipherVectorScalar(l)
			if err != nil {
				return wire{}, err
			}
			f := filepath.Join(runDir, "c.gob")
			if err := libunlynxtools.WriteToGobFile(f, e); err != nil {
				return wire{}, err
			}
			b, err := os.ReadFile(f)
			return wire{B: [][]byte{b}}, err
		}, func(w wire, o cVal) (cVal, error) {
			f := filepath.Join(runDir, "d.gob")
			check(os.WriteFile(f, w.B[0], 0600))
			var e []libunlynxshuffle.CipherVectorScalarBytes
			if err := libunlynxtools.ReadFromGobFile(f, &e); err != nil {
				return nil, err
			}
			l, err := libunlynxshuffle.DecodeCipherVectorScalar(e)
			if err != nil {
				return nil, err
			}
			near := []int64{}
			for _, r := range o {
				near = append(near, r[1]...)
			}
			out := cVal{}
			for _, x := range l {
				s := []int64{}
				for i, y := range x.S {
					k := int64(-1)
					if len(out) < len(o) && i < len(o[len(out)][1]) {
						k = scID(y, o[len(out)][1][i:i+1])
					}
					if k < 0 && len(near) < 200 {
						k = scID(y, near)
					}
					s = append(s, k)
				}
				out = append(out, [][]int64{cvIDs(x.CipherV), s})
			}
			return out, nil
		}, anyAnn},
		// rows of data and one result
		"aggproof": {func(v cVal) (wire, error) {
			p := aggProofs(v)
			b, err := p.ToBytes()
			w := wire{}
			for _, x := range b.List {
				w.B = append(w.B, x.Data, x.AggregationResult)
				w.L = append(w.L, int(x.DataLen))
			}
			return w, err
		}, func(w wire, _ cVal) (cVal, error) {
			b := libunlynxaggr.PublishedAggregationListProofBytes{}
			for i := range w.L {
				b.List = append(b.List, libunlynxaggr.PublishedAggregationProofBytes{Data: w.B[2*i], DataLen: int64(w.L[i]), AggregationResult: w.B[2*i+1]})
			}
			p := libunlynxaggr.PublishedAggregationListProof{}
			if err := p.FromBytes(b); err != nil {
				return nil, err
			}
			r := cVal{}
			for _, x := range p.List {
				r = append(r, [][]int64{cvIDs(x.Data), {ctID(x.AggregationResult)}})
			}
			return r, nil
		}, func(w wire) (string, [][]int64) {
			a := [][]int64{}
			for _, n := range w.L {
				if n < 0 || n > 1<<30 {
					return "none", nil
				}
				a = append(a, []int64{int64(n), 1})
			}
			return "rows", a
		}},
		// rows of five points and a proof
		"ksproof": {func(v cVal) (wire, error) {
			p := libunlynxkeyswitch.PublishedKSListProof{}
			for _, r := range v {
				q := ptsOf(r[0])
				p.List = append(p.List, libunlynxkeyswitch.PublishedKSProof{Proof: []byte(txt(r[1])), K: q[0], ViB: q[1], Ks2: q[2], RbNeg: q[3], Q: q[4]})
			}
			b, err := p.ToBytes()
			w := wire{}
			for _, x := range b.List {
				w.B = append(w.B, x.KVibKs2RbNegQ, x.Proof)
			}
			return w, err
		}, func(w wire, _ cVal) (cVal, error) {
			b := libunlynxkeyswitch.PublishedKSListProofBytes{}
			for i := 0; i+1 < len(w.B); i += 2 {
				b.List = append(b.List, libunlynxkeyswitch.PublishedKSProofBytes{KVibKs2RbNegQ: w.B[i], Proof: w.B[i+1]})
			}
			p := libunlynxkeyswitch.PublishedKSListProof{}
			if err := p.FromBytes(b); err != nil {
				return nil, err
			}
			r := cVal{}
			for _, x := range p.List {
				r = append(r, [][]int64{ptIDs([]kyber.Point{x.K, x.ViB, x.Ks2, x.RbNeg, x.Q}), txtIDs(string(x.Proof))})
			}
			return r, nil
		}, anyAnn},
		// a row {G},{H},hash; rows of the original list; rows of the shuffled list, each with 0 or 1 in front
		"shufproof": {func(v cVal) (wire, error) {
			p := libunlynxshuffle.PublishedShufflingProof{G: poolPt(v[0][0][0]), H: poolPt(v[0][1][0]), HashProof: []byte(txt(v[0][2])),
				OriginalList: []libunlynx.CipherVector{}, ShuffledList: []libunlynx.CipherVector{}}
			for _, r := range v[1:] {
				if r[0][0] == 0 {
					p.OriginalList = append(p.OriginalList, cvOf(r[1]))
				} else {
					p.ShuffledList = append(p.ShuffledList, cvOf(r[1]))
				}
			}
			b, err := p.ToBytes()
			if err != nil {
				return wire{}, err
			}
			return wire{B: [][]byte{*b.OriginalList, *b.OriginalListLength, *b.ShuffledList, *b.ShuffledListLength, *b.G, *b.H, b.HashProof}}, nil
		}, func(w wire, _ cVal) (cVal, error) {
			b := libunlynxshuffle.PublishedShufflingProofBytes{OriginalList: &w.B[0], OriginalListLength: &w.B[1], ShuffledList: &w.B[2], ShuffledListLength: &w.B[3], G: &w.B[4], H: &w.B[5], HashProof: w.B[6]}
			for i, f := range []**[]byte{&b.OriginalList, &b.OriginalListLength, &b.ShuffledList, &b.ShuffledListLength, &b.G, &b.H} {
				if w.B[i] == nil {
					*f = nil
				}
			}
			p := libunlynxshuffle.PublishedShufflingProof{}
			if err := p.FromBytes(b); err != nil {
				return nil, err
			}
			r := cVal{{{ptID(p.G)}, {ptID(p.H)}, txtIDs(string(p.HashProof))}}
			for _, x := range p.OriginalList {
				r = append(r, [][]int64{{0}, cvIDs(x)})
			}
			for _, x := range p.ShuffledList {
				r = append(r, [][]int64{{1}, cvIDs(x)})
			}
			return r, nil
		}, anyAnn},
		// what the querier receives: rows of group and aggregates
		"result": {func(v cVal) (wire, error) {
			m := servicesunlynx.ServiceResult{}
			for _, r := range v {
				m.Results = append(m.Results, libunlynx.FilteredResponse{GroupByEnc: cvOf(r[0]), AggregatingAttributes: cvOf(r[1])})
			}
			network.RegisterMessage(m)
			b, err := network.Marshal(&m)
			return wire{B: [][]byte{b}}, err
		}, func(w wire, _ cVal) (cVal, error) {
			_, o, err := network.Unmarshal(w.B[0], libunlynx.SuiTe)
			if err != nil {
				return nil, err
			}
			m, ok := o.(*servicesunlynx.ServiceResult)
			if !ok {
				return nil, fmt.Errorf("another message")
			}
			r := cVal{}
			for _, x := range m.Results {
				r = append(r, [][]int64{cvIDs(x.GroupByEnc), cvIDs(x.AggregatingAttributes)})
			}
			return r, nil
		}, anyAnn},
	}
}

type damage struct {
	Op string `json:"op"`
	I  int    `json:"i"`  // which byte string or length
	At int    `json:"at"` // position, in thousandths
	N  int64  `json:"n"`
}

func (d damage) apply(w *wire) {
	if d.Op == "len" || d.Op == "setlen" {
		if len(w.L) == 0 {
			return
		}
		i := d.I % len(w.L)
		if d.Op == "len" {
			w.L[i] += int(d.N)
		} else {
			w.L[i] = int(d.N)
		}
		return
	}
	if len(w.B) == 0 {
		return
	}
	i := d.I % len(w.B)
	b := append([]byte{}, w.B[i]...)
	pos := len(b) * d.At / 1000
	switch d.Op {
	case "cut": // the bytes end here
		b = b[:pos:pos]
	case "view": // the bytes end here, in a larger buffer
		b = append(b, b...)[:pos]
	case "drop":
		n := int(d.N)
		if n > len(b) {
			n = len(b)
		}
		b = b[: len(b)-n : len(b)-n]
	case "extend":
		for k := int64(0); k < d.N; k++ {
			b = append(b, byte(k*7+int64(d.At)))
		}
	case "flip":
		if len(b) > 0 {
			b[pos%len(b)] ^= byte(1 << uint(d.N%8))
		}
	case "set":
		if len(b) > 0 {
			b[pos%len(b)] = byte(d.N)
		}
	case "bad": // no point has this encoding
		if c := pos / 32 * 32; c+32 <= len(b) {
			copy(b[c:], badPoint())
		}
	case "remove": // a piece is missing in the middle
		n := int(d.N)
		if pos+n <= len(b) {
			b = append(b[:pos:pos], b[pos+n:]...)
		}
	case "nil":
		b = nil
	case "word": // a 4 byte word
		if c := pos / 4 * 4; c+4 <= len(b) {
			x := uint32(d.N)
			b[c], b[c+1], b[c+2], b[c+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
		}
	}
	w.B[i] = b
}

var theBad []byte

func badPoint() []byte {
	for k := byte(2); theBad == nil; k++ {
		b := make([]byte, 32)
		b[0] = k
		b[7] = 9
		if libunlynx.SuiTe.Point().UnmarshalBinary(b) != nil {
			theBad = b
		}
	}
	return theBad
}

func runCodec(id string, raw json.RawMessage) Obs {
	var c struct {
		Fmt    string   `json:"fmt"`
		Value  cVal     `json:"value"`
		Damage []damage `json:"damage"`
	}
	check(json.Unmarshal(raw, &c))
	o := Obs{"enc": "", "dec": "", "got": cVal{}, "annkind": "any", "ann": [][]int64{}, "touched": false, "shorter": false, "stable": true}
	cd, ok := codecs[c.Fmt]
	if !ok {
		panic("unknown format " + c.Fmt)
	}
	w, err := cd.enc(c.Value)
	if err != nil {
		o["enc"] = "error"
		return o
	}
	orig := wire{L: append([]int{}, w.L...)}
	n := 0
	for _, b := range w.B {
		var copied []byte
		if b != nil {
			copied = append([]byte{}, b...)
		}
		orig.B = append(orig.B, copied)
		n += len(b)
	}
	for _, d := range c.Damage {
		d.apply(&w)
	}
	m := 0
	for _, b := range w.B {
		m += len(b)
	}
	touched := fmt.Sprint(w.L) != fmt.Sprint(orig.L)
	for i := range w.B {
		touched = touched || string(w.B[i]) != string(orig.B[i]) || (w.B[i] == nil) != (orig.B[i] == nil)
	}
	o["touched"], o["shorter"] = touched, m < n
	if touched {
		o["annkind"], o["ann"] = nn(cd.ann(w))
		if c.Fmt == "dpr" { // the names of the attributes are not damaged
			o["annkind"], o["ann"] = nn(rowAnn(len(c.Value[0][0]), len(c.Value[0][1]), len(c.Value[0][2]), len(c.Value[0][3]), len(c.Value[0][4]), len(c.Value[0][5])))
		}
	}
	before := fmt.Sprint(w.B, w.L)
	v, err := cd.dec(w, c.Value)
	o["stable"] = fmt.Sprint(w.B, w.L) == before // reading does not change what is read
	if err != nil {
		o["dec"] = "error"
		return o
	}
	for i := range v {
		for j := range v[i] {
			if v[i][j] == nil {
				v[i][j] = []int64{}
			}
			for k, x := range v[i][j] {
				v[i][j][k] = clip(x)
			}
		}
	}
	if v == nil {
		v = cVal{}
	}
	o["got"] = v
	return o
}

// clip keeps numbers within what TLC reads; large ones stay different from each other.
func clip(x int64) int64 {
	if x > 1<<30 || x < -(1<<30) {
		return (x%1000003+1000003)%1000003 + 1<<29
	}
	return x
}
func nn(k string, a [][]int64) (string, [][]int64) {
	for _, r := range a {
		for _, x := range r {
			if x < 0 || x > 1<<30 {
				return "none", [][]int64{}
			}
		}
	}
	if a == nil {
		a = [][]int64{}
	}
	return k, a
}

var _ = strings.Join
