package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/onet/v3"
)

type aggEntry struct {
	G  int     `json:"g"`
	By []int64 `json:"by"`
	V  []int64 `json:"v"`
}

type aggCase struct {
	Parent []int        `json:"parent"`
	Local  [][]aggEntry `json:"local"`
	Sched  [][2]int     `json:"sched"`
	Simple bool         `json:"simple"`
	Proofs bool         `json:"proofs"`
	KeyLen int          `json:"keylen"`
	Shared string       `json:"shared"` // "array": the vectors of a server are parts of one array; "vector", "points": groups with equal values share the vector, or the points in it
	Form   string       `json:"form"`
	Hold   bool         `json:"hold"`
	faultSpec
}

const aggProto = "VerifAgg"

func init() {
	families["agg"] = runAgg
	regProto(aggProto)
}

func groupKey(g, l int) libunlynx.GroupingKey {
	if g == 0 {
		return protocolsunlynx.EMPTYKEY
	}
	if l == 0 {
		l = 6
	}
	return libunlynx.GroupingKey(fmt.Sprintf("%0*d", l, g))
}

func groupOf(k libunlynx.GroupingKey) int {
	if k == protocolsunlynx.EMPTYKEY {
		return 0
	}
	v, err := strconv.Atoi(string(k))
	if err != nil {
		return -1
	}
	return v
}

func runAgg(id string, raw json.RawMessage) Obs {
	var c aggCase
	check(json.Unmarshal(raw, &c))
	n := len(c.Parent)
	nt := getNet(maxi(n, 4))
	nt.Reset(c.Hold)
	ro, tree := nt.Tree(seq(n), c.Parent)
	priv := nt.SumPriv(seq(n))

	var mu sync.Mutex
	proofs, badProofs := 0, 0
	setProto(aggProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewCollectiveAggregationProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		loc := c.Local[nt.Who(tni.ServerIdentity().ID)-1]
		if c.Simple {
			var d []libunlynx.CipherText
			for _, e := range loc {
				d = append(d, formVec(ro.Aggregate, e.V, c.Form)...)
			}
			if d == nil {
				d = []libunlynx.CipherText{}
			}
			p.SimpleData = &d
		} else {
			m := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
			for _, e := range loc {
				m[groupKey(e.G, c.KeyLen)] = libunlynx.FilteredResponse{GroupByEnc: encVec(ro.Aggregate, e.By), AggregatingAttributes: formVec(ro.Aggregate, e.V, c.Form)}
			}
			switch c.Shared {
			case "array":
				m = oneArray(m)
			case "vector", "points":
				m = oneVector(m, loc, c.KeyLen, c.Shared == "points")
			}
			p.GroupedData = &m
		}
		p.Proofs = c.Proofs
		p.ProofFunc = func(data []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
			if len(data) != len(res) {
				mu.Lock()
				proofs++
				badProofs++
				mu.Unlock()
				return nil
			}
			pr := libunlynxaggr.AggregationListProofCreation(data, res)
			ok := libunlynxaggr.AggregationListProofVerification(pr, 1.0)
			mu.Lock()
			proofs++
			if !ok {
				badProofs++
			}
			mu.Unlock()
			return &pr
		}
		return p, nil
	})
	defer faultMode(c.Timeout)()
	gone := allEnded(c.Timeout > 0)
	pi, err := nt.Local.CreateProtocol(aggProto, tree)
	check(err)
	p := under(pi).(*protocolsunlynx.CollectiveAggregationProtocol)
	c.install(nt)
	stop := make(chan struct{})
	resCh := make(chan Obs, 1)
	results := 0
	go func() {
		defer close(stop)
		var r protocolsunlynx.CothorityAggregatedData
		select {
		case r = <-p.FeedbackChannel:
		case <-gone:
			resCh <- Obs{"delivered": false, "res": []aggEntry{}}
			return
		}
		results++
		out := make([]aggEntry, 0)
		for k, v := range r.GroupedData {
			out = append(out, aggEntry{groupOf(k), decVec(priv, v.GroupByEnc), decVec(priv, v.AggregatingAttributes)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].G < out[j].G })
		select {
		case <-p.FeedbackChannel:
			results++
		case <-time.After(secondWait):
		}
		resCh <- Obs{"delivered": true, "res": out}
	}()
	go c.start(p.Start)
	used := 0
	if c.Hold {
		used = nt.Run(c.Sched, stop, 2*time.Second)
	}
	o := <-resCh
	o["results"] = results
	o["used"] = used
	o["order"] = nt.Log()
	mu.Lock()
	o["proofs"] = proofs
	o["badproofs"] = badProofs
	mu.Unlock()
	o["local"] = c.Local
	c.conclude(o)
	return o
}

// oneArray gives the same data, all vectors being (adjacent) parts of one array
// oneVector lets the groups with the same values share the vector that holds them, or the points in it.
func oneVector(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse, loc []aggEntry, keyLen int, points bool) map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
	known := map[string]libunlynx.CipherVector{}
	for _, e := range loc {
		k := groupKey(e.G, keyLen)
		fr := m[k]
		v, ok := known[fmt.Sprint(e.V)]
		if !ok {
			v = fr.AggregatingAttributes
			known[fmt.Sprint(e.V)] = v
		} else if points {
			v = append(libunlynx.CipherVector{}, v...)
		}
		fr.AggregatingAttributes = v
		m[k] = fr
	}
	return m
}
func oneArray(m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
	n := 0
	for _, v := range m {
		n += len(v.AggregatingAttributes) + len(v.GroupByEnc)
	}
	all := make(libunlynx.CipherVector, n)
	part := func(v libunlynx.CipherVector) libunlynx.CipherVector {
		p := all[:copy(all, v)]
		all = all[len(v):]
		return p
	}
	out := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	for k, v := range m {
		fr := libunlynx.FilteredResponse{AggregatingAttributes: part(v.AggregatingAttributes)}
		fr.GroupByEnc = part(v.GroupByEnc)
		out[k] = fr
	}
	return out
}
