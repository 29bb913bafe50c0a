package main

import (
	"encoding/json"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/onet/v3"
)

// Family perm: where the rows go over many shuffles of the same rows.

const permProto = "VerifPerm"

type permCase struct {
	Mode string `json:"mode"` // lib: the permutation itself, seq: shuffle of a server, proto: protocol
	Rows int    `json:"rows"`
	Runs int    `json:"runs"`
	N    int    `json:"n"`
	Pre  int    `json:"pre"` // lines of precomputed randomness
}

func init() {
	families["perm"] = runPerm
	regProto(permProto)
}

func runPerm(id string, raw json.RawMessage) Obs {
	var c permCase
	check(json.Unmarshal(raw, &c))
	count := make([][]int, c.Rows)
	for i := range count {
		count[i] = make([]int, c.Rows)
	}
	valid := true
	add := func(perm []int) {
		seen := make([]bool, c.Rows)
		if len(perm) != c.Rows {
			valid = false
			return
		}
		for i, p := range perm {
			if p < 0 || p >= c.Rows || seen[p] {
				valid = false
				return
			}
			seen[p] = true
			count[i][p]++
		}
	}
	rows := make([][]int64, c.Rows)
	for i := range rows {
		rows[i] = []int64{int64(i)}
	}
	from := func(priv []int64) []int {
		perm := make([]int, len(priv))
		for i, v := range priv {
			perm[i] = int(v)
		}
		return perm
	}
	switch c.Mode {
	case "lib":
		for i := 0; i < c.Runs; i++ {
			add(libunlynx.RandomPermutation(c.Rows))
		}
	case "seq":
		s, S := keypair()
		in := encMatrix(S, rows, "")
		for i := 0; i < c.Runs; i++ {
			var pre []libunlynxshuffle.CipherVectorScalar
			if c.Pre > 0 {
				pre = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), S, libunlynx.SuiTe.RandomStream(), 2, c.Pre)
			}
			out, _, _ := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), S, pre)
			d := make([]int64, len(out))
			for j := range out {
				d[j] = decVec(s, out[j])[0]
			}
			add(from(d))
		}
	case "proto":
		nt := getNet(maxi(c.N, 4))
		ro, tree := nt.Tree(seq(c.N), star(c.N))
		in := encMatrix(ro.Aggregate, rows, "")
		setProto(permProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
			pi, err := protocolsunlynx.NewShufflingProtocol(tni)
			if err == nil && tni.IsRoot() {
				pi.(*protocolsunlynx.ShufflingProtocol).ShuffleTarget = &in
			}
			return pi, err
		})
		for i := 0; i < c.Runs; i++ {
			nt.Reset(false)
			pi, err := nt.Local.CreateProtocol(permProto, tree)
			check(err)
			p := under(pi).(*protocolsunlynx.ShufflingProtocol)
			go func() { check(p.Start()) }()
			r := <-p.FeedbackChannel
			d := make([]int64, len(r))
			for j := range r {
				d[j] = decVec(nt.SumPriv(seq(c.N)), r[j])[0]
			}
			add(from(d))
		}
	}
	return Obs{"count": count, "runs": c.Runs, "valid": valid}
}
