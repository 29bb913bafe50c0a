package main

import (
	"encoding/json"
	"strconv"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"go.dedis.ch/kyber/v3"
)

type stRow struct {
	T int     `json:"t"`
	G []int64 `json:"g"`
	W []int64 `json:"w"`
	A []int64 `json:"a"`
}

type stOp struct {
	Op     string  `json:"op"`
	Genc   []int   `json:"genc"`
	Wenc   []int   `json:"wenc"`
	Aenc   []int   `json:"aenc"`
	Rows   []stRow `json:"rows"`
	Proofs bool    `json:"proofs"`
	DP     bool    `json:"dp"`
	Noise  int64   `json:"noise"`
}

type stCase struct {
	Threads [][]stOp `json:"threads"`
	Final   []stOp   `json:"final"`
	Wide    []wideV  `json:"wide"` // what some of the grouping and filter values stand for
}

// wideV: the value V of a case stands for the integer Is (beyond what the model checker can compute with).
type wideV struct {
	V  int64 `json:"v"`
	Is int64 `json:"is,string"`
}

func wideTo(ws []wideV, vs []int64) []int64 {
	r := make([]int64, len(vs))
	for i, v := range vs {
		r[i] = v
		for _, w := range ws {
			if w.V == v {
				r[i] = w.Is
			}
		}
	}
	return r
}

func wideFrom(ws []wideV, priv kyber.Scalar, cv libunlynx.CipherVector) []int64 {
	if len(ws) == 0 {
		return decVec(priv, cv)
	}
	r := make([]int64, len(cv))
next:
	for i, c := range cv {
		k := pkey(decPoint(priv, c))
		for _, w := range ws {
			if k == pkey(pt(w.Is)) {
				r[i] = w.V
				continue next
			}
		}
		r[i] = dec(priv, c)
		for _, w := range ws {
			if r[i] == w.V {
				r[i] = NoValue
			}
		}
	}
	return r
}

func init() { families["store"] = runStore }

func splitAttr(pub kyber.Point, first string, vs []int64, encd []int) (map[string]int64, map[string]libunlynx.CipherText) {
	var e map[string]libunlynx.CipherText
	c := map[string]int64{}
	for i, v := range vs {
		n := first + strconv.Itoa(i)
		if i < len(encd) && encd[i] == 1 {
			if e == nil {
				e = map[string]libunlynx.CipherText{}
			}
			e[n] = enc(pub, v)
		} else {
			c[n] = v
		}
	}
	return c, e
}

func nameList(first string, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = first + strconv.Itoa(i)
	}
	return r
}

type stPulled struct {
	op   stOp
	rows func() []stRow
}

func runStore(id string, raw json.RawMessage) Obs {
	var c stCase
	check(json.Unmarshal(raw, &c))
	priv, pub := keypair()
	st := libunlynxstore.NewStore()
	do := func(o stOp) *stPulled {
		switch o.Op {
		case "ins":
			held := []libunlynx.DpResponse{}
			for _, r := range o.Rows {
				var dr libunlynx.DpResponse
				dr.GroupByClear, dr.GroupByEnc = splitAttr(pub, "g", wideTo(c.Wide, r.G), o.Genc)
				dr.WhereClear, dr.WhereEnc = splitAttr(pub, "w", wideTo(c.Wide, r.W), o.Wenc)
				dr.AggregatingAttributesClear, dr.AggregatingAttributesEnc = splitAttr(pub, "s", r.A, o.Aenc)
				var wh []libunlynx.WhereQueryAttribute
				for i := range r.W {
					wh = append(wh, libunlynx.WhereQueryAttribute{Name: "w" + strconv.Itoa(i)})
				}
				held = append(held, dr)
				st.InsertDpResponse(dr, o.Proofs, nameList("g", len(r.G)), nameList("s", len(r.A)), wh)
			}
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				join := func(first string, n int, c map[string]int64, e map[string]libunlynx.CipherText) libunlynx.CipherVector {
					v := libunlynx.CipherVector{}
					for _, k := range nameList(first, n) {
						if x, ok := e[k]; ok {
							v = append(v, x)
						} else if x, ok := c[k]; ok {
							v = append(v, libunlynx.IntToCipherText(x))
						}
					}
					return v
				}
				for i, r := range o.Rows {
					h := held[i]
					res = append(res, stRow{G: wideFrom(c.Wide, priv, join("g", len(r.G), h.GroupByClear, h.GroupByEnc)),
						W: wideFrom(c.Wide, priv, join("w", len(r.W), h.WhereClear, h.WhereEnc)),
						A: decVec(priv, join("s", len(r.A), h.AggregatingAttributesClear, h.AggregatingAttributesEnc))})
				}
				return res
			}}
		case "pushsh":
			var prs []libunlynx.ProcessResponse
			for _, r := range o.Rows {
				prs = append(prs, libunlynx.ProcessResponse{GroupByEnc: encVec(pub, wideTo(c.Wide, r.G)), WhereEnc: encVec(pub, wideTo(c.Wide, r.W)), AggregatingAttributes: encVec(pub, r.A)})
			}
			st.PushShuffledProcessResponses(prs)
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for _, r := range prs {
					res = append(res, stRow{G: wideFrom(c.Wide, priv, r.GroupByEnc), W: wideFrom(c.Wide, priv, r.WhereEnc), A: decVec(priv, r.AggregatingAttributes)})
				}
				return res
			}}
		case "pushdet":
			var fr []libunlynx.FilteredResponseDet
			for _, r := range o.Rows {
				fr = append(fr, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey("t" + strconv.Itoa(r.T)), Fr: libunlynx.FilteredResponse{GroupByEnc: encVec(pub, wideTo(c.Wide, r.G)), AggregatingAttributes: encVec(pub, r.A)}})
			}
			st.PushDeterministicFilteredResponses(fr, "verif", o.Proofs)
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for i, r := range fr {
					res = append(res, stRow{T: o.Rows[i].T, G: wideFrom(c.Wide, priv, r.Fr.GroupByEnc), W: []int64{}, A: decVec(priv, r.Fr.AggregatingAttributes)})
				}
				return res
			}}
		case "pushgr":
			m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for _, r := range o.Rows {
				m[libunlynx.GroupingKey("t"+strconv.Itoa(r.T))] = libunlynx.FilteredResponse{GroupByEnc: encVec(pub, wideTo(c.Wide, r.G)), AggregatingAttributes: encVec(pub, r.A)}
			}
			st.PushCothorityAggregatedFilteredResponses(m)
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for _, r := range o.Rows {
					x := m[libunlynx.GroupingKey("t"+strconv.Itoa(r.T))]
					res = append(res, stRow{T: r.T, G: wideFrom(c.Wide, priv, x.GroupByEnc), W: []int64{}, A: decVec(priv, x.AggregatingAttributes)})
				}
				return res
			}}
		case "pushres":
			var fr []libunlynx.FilteredResponse
			for _, r := range o.Rows {
				fr = append(fr, libunlynx.FilteredResponse{GroupByEnc: encVec(pub, wideTo(c.Wide, r.G)), AggregatingAttributes: encVec(pub, r.A)})
			}
			st.PushQuerierKeyEncryptedResponses(fr)
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for _, r := range fr {
					res = append(res, stRow{G: wideFrom(c.Wide, priv, r.GroupByEnc), W: []int64{}, A: decVec(priv, r.AggregatingAttributes)})
				}
				return res
			}}
		case "pulldp", "pullsh":
			var v []libunlynx.ProcessResponse
			if o.Op == "pulldp" {
				v = st.PullDpResponses()
			} else {
				v = st.PullShuffledProcessResponses()
			}
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for _, r := range v {
					res = append(res, stRow{G: wideFrom(c.Wide, priv, r.GroupByEnc), W: wideFrom(c.Wide, priv, r.WhereEnc), A: decVec(priv, r.AggregatingAttributes)})
				}
				return res
			}}
		case "pullloc":
			v := st.PullLocallyAggregatedResponses()
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for k, r := range v {
					t, err := strconv.Atoi(string(k)[1:])
					check(err)
					res = append(res, stRow{T: t, G: wideFrom(c.Wide, priv, r.GroupByEnc), W: []int64{}, A: decVec(priv, r.AggregatingAttributes)})
				}
				return res
			}}
		case "pullgr", "pullres":
			var v []libunlynx.FilteredResponse
			noise := libunlynx.CipherText{}
			if o.DP {
				noise = enc(pub, o.Noise)
			}
			if o.Op == "pullgr" {
				v = st.PullCothorityAggregatedFilteredResponses(o.DP, noise)
			} else {
				v = st.PullDeliverableResults(o.DP, noise)
			}
			return &stPulled{o, func() []stRow {
				res := []stRow{}
				for _, r := range v {
					res = append(res, stRow{G: wideFrom(c.Wide, priv, r.GroupByEnc), W: []int64{}, A: decVec(priv, r.AggregatingAttributes)})
				}
				return res
			}}
		default:
			panic("unknown op " + o.Op)
		}
	}
	type ev struct {
		Op   string  `json:"op"`
		Enc  bool    `json:"enc"`
		In   []stRow `json:"in"`
		Out  []stRow `json:"out"`
		Lat  []stRow `json:"later"`
		DP   int     `json:"noise"`
		pull *stPulled
	}
	var mu sync.Mutex
	evs := []*ev{}
	run := func(ops []stOp) {
		for _, o := range ops {
			p := do(o)
			e := &ev{Op: o.Op, In: o.Rows, Out: []stRow{}, Lat: []stRow{}, pull: p}
			if o.DP {
				e.DP = int(o.Noise)
			}
			if e.In == nil {
				e.In = []stRow{}
			}
			for _, x := range append(append([]int{}, o.Genc...), o.Wenc...) {
				e.Enc = e.Enc || x == 1
			}
			if p != nil && strings.HasPrefix(o.Op, "pull") {
				e.Out = p.rows()
			}
			mu.Lock()
			evs = append(evs, e)
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, ops := range c.Threads {
		wg.Add(1)
		go func(ops []stOp) {
			defer wg.Done()
			<-start
			run(ops)
		}(ops)
	}
	close(start)
	wg.Wait()
	run(c.Final)
	for _, e := range evs {
		if e.pull != nil {
			e.Lat = e.pull.rows()
		}
	}
	return Obs{"evs": evs, "seq": len(c.Threads) <= 1}
}
