package main

import (
	"encoding/json"
	"fmt"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

// Family twin: the same work, first thing in several processes. Whatever is chosen at random must not come back.

func init() {
	families["twin"] = runTwin
}

func runTwin(id string, raw json.RawMessage) Obs {
	var c struct {
		What string `json:"what"`
		Rows int    `json:"rows"`
	}
	check(json.Unmarshal(raw, &c))
	prints := []string{}
	B := libunlynx.SuiTe.Point().Base()
	switch c.What {
	case "shuffle":
		s, S := keypair()
		rows := make([][]int64, c.Rows)
		for i := range rows {
			rows[i] = []int64{int64(i), int64(-i)}
		}
		in := encMatrix(S, rows, "")
		for k := 0; k < 3; k++ {
			out, _, _ := libunlynxshuffle.ShuffleSequence(in, B, S, nil)
			res := make([][]int64, len(out))
			for i := range out {
				res[i] = decVec(s, out[i])
			}
			perm, _, ok := matchRows(rows, res, in, out)
			if !ok {
				return Obs{"prints": prints, "valid": false}
			}
			prints = append(prints, fmt.Sprint("order ", perm))
			for i := range out {
				for j := range out[i] {
					prints = append(prints, "blinding "+pkey(libunlynx.SuiTe.Point().Sub(out[i][j].K, in[perm[i]-1][j].K)))
				}
			}
		}
	case "switch":
		s, S := keypair()
		_, T := keypair()
		rbs := make([]kyber.Point, c.Rows)
		for i := range rbs {
			rbs[i] = B
		}
		_ = S
		for k := 0; k < 3; k++ {
			cv, _, _, _ := libunlynxkeyswitch.KeySwitchSequence(T, rbs, s)
			for i := range cv {
				prints = append(prints, "switch "+pkey(cv[i].K))
			}
		}
	}
	return Obs{"prints": prints, "valid": true}
}
