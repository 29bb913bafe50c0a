package main

import (
	"encoding/json"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
)

// Family tagkey: the steps of tagging without the protocol, one server after the other, and the grouping keys made from
// what the last one gets.

func init() {
	families["tagkey"] = runTagKey
}

func runTagKey(id string, raw json.RawMessage) Obs {
	var c struct {
		N    int    `json:"n"`
		Form string `json:"form"`
		Runs []struct {
			Data   []int64 `json:"data"`
			Other  int     `json:"other"`
			How    string  `json:"how"`
			Proofs bool    `json:"proofs"`
		} `json:"runs"`
	}
	check(json.Unmarshal(raw, &c))
	priv, secrets, others := make([]kyber.Scalar, c.N), make([]kyber.Scalar, c.N+1), make([]kyber.Scalar, c.N+1)
	K := libunlynx.SuiTe.Point().Null()
	for i := range secrets {
		secrets[i], others[i] = rndScalar(), rndScalar()
		if i < c.N {
			var P kyber.Point
			priv[i], P = keypair()
			K.Add(K, P)
		}
	}
	ids, keyIDs, out := tagIDs{}, map[string]int{}, make([]Obs, 0)
	for _, run := range c.Runs {
		in := formVec(K, run.Data, c.Form)
		inKeys := cvKeys(in)
		cv := append(libunlynx.CipherVector{}, in...)
		secret := func(i int) kyber.Scalar {
			if run.Other == i+1 {
				return others[i]
			}
			return secrets[i]
		}
		for i := 0; i < c.N-1; i++ {
			check(protocolsunlynx.TaggingDet(&cv, priv[i], secret(i), K, run.Proofs))
		}
		n := c.N - 1
		last := append(libunlynx.CipherVector{}, cv...)
		lastKeys := cvKeys(last)
		var key libunlynx.GroupingKey
		var err error
		if run.How == "protocol" {
			key, err = protocolsunlynx.CipherVectorToDeterministicTag(cv, priv[n], secret(n), K, run.Proofs)
		} else {
			key, _, err = libunlynxdetertag.CipherVectorToDeterministicTag(cv, priv[n], secret(n), K, run.Proofs)
		}
		check(err)
		un := true
		for i, x := range cvKeys(in) {
			un = un && x == inKeys[i]
		}
		for i, x := range cvKeys(cv) {
			un = un && x == lastKeys[i]
		}
		tags := make([]int, 0)
		for _, x := range libunlynxdetertag.DeterministicTagSequence(last, priv[n], secret(n)) {
			tags = append(tags, ids.id(x.C))
		}
		k := string(key)
		if _, ok := keyIDs[k]; !ok {
			keyIDs[k] = len(keyIDs) + 1
		}
		out = append(out, Obs{"data": run.Data, "other": run.Other, "tags": tags, "key": keyIDs[k], "delivered": true, "results": 1, "untouched": un})
	}
	return Obs{"runs": out, "fault": false}
}
