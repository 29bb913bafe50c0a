package main

import (
	"encoding/json"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
)

func init() { families["conv"] = runConv }

type convRow struct {
	G []int `json:"g"`
	W []int `json:"w"`
	A []int `json:"a"`
}

// runConv converts a list of responses (the beginning of a longer one) to what a protocol works on and back.
func runConv(id string, raw json.RawMessage) Obs {
	var c struct {
		Kind string   `json:"kind"`
		Rows [][3]int `json:"rows"` // numbers of attributes: grouping, WHERE, aggregating
		Rest [][3]int `json:"rest"`
		Perm []int    `json:"perm"`
	}
	check(json.Unmarshal(raw, &c))
	priv, pub := keypair()
	ids, last := map[string]int{}, 0
	vec := func(n int) libunlynx.CipherVector {
		cv := make(libunlynx.CipherVector, n)
		for i := range cv {
			last++
			cv[i] = enc(pub, int64(last%7))
			ids[ctKey(cv[i])] = last
		}
		return cv
	}
	name := func(cv libunlynx.CipherVector) []int {
		r := make([]int, len(cv))
		for i, v := range cv {
			n, ok := ids[ctKey(v)]
			if !ok {
				n = -1
				if v.K != nil && v.C != nil && decPoint(priv, v).Equal(libunlynx.SuiTe.Point().Null()) {
					n = 0
				}
			}
			r[i] = n
		}
		return r
	}
	all := append(append([][3]int{}, c.Rows...), c.Rest...)
	if c.Kind == "matrix" {
		list := make([]libunlynx.ProcessResponse, len(all))
		for i, s := range all {
			list[i] = libunlynx.ProcessResponse{GroupByEnc: vec(s[0]), WhereEnc: vec(s[1]), AggregatingAttributes: vec(s[2])}
		}
		rows := func(l []libunlynx.ProcessResponse) []convRow {
			r := make([]convRow, len(l))
			for i, v := range l {
				r[i] = convRow{name(v.GroupByEnc), name(v.WhereEnc), name(v.AggregatingAttributes)}
			}
			return r
		}
		n := len(c.Rows)
		before, rest := rows(list[:n]), rows(list[n:])
		matrix, lengths := protocolsunlynx.ProcessResponseToMatrixCipherText(list[:n])
		// the rows in another order, as new ciphertexts with the same contents
		shuffled := make([]libunlynx.CipherVector, len(matrix))
		for i := range matrix {
			j := i
			if len(c.Perm) == len(matrix) {
				j = c.Perm[i]
			}
			shuffled[i] = append(libunlynx.CipherVector{}, matrix[j]...)
		}
		back := protocolsunlynx.MatrixCipherTextToProcessResponse(shuffled, lengths)
		return Obs{"kind": c.Kind, "rows": before, "rest": rest, "back": rows(back), "after": rows(list[:n]), "beyond": rows(list[n:]), "size": len(matrix)}
	}
	list := make([]libunlynx.FilteredResponse, len(all))
	for i, s := range all {
		list[i] = libunlynx.FilteredResponse{GroupByEnc: vec(s[0]), AggregatingAttributes: vec(s[2])}
	}
	rows := func(l []libunlynx.FilteredResponse) []convRow {
		r := make([]convRow, len(l))
		for i, v := range l {
			r[i] = convRow{name(v.GroupByEnc), []int{}, name(v.AggregatingAttributes)}
		}
		return r
	}
	n := len(c.Rows)
	before, rest := rows(list[:n]), rows(list[n:])
	cv, lengths := protocolsunlynx.FilteredResponseToCipherVector(list[:n])
	back := protocolsunlynx.CipherVectorToFilteredResponse(append(libunlynx.CipherVector{}, cv...), lengths)
	return Obs{"kind": c.Kind, "rows": before, "rest": rest, "back": rows(back), "after": rows(list[:n]), "beyond": rows(list[n:]), "size": len(cv)}
}
