package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// Computations that run on one server only: adding/removing servers, aggregations, verifications.

func init() {
	families["addrm"] = runAddRm
	families["local"] = runLocal
}

// ------------------------------------------------------------------------------------------ versions of a data set
type addrmCase struct {
	Vals []int64 `json:"vals"`
	Form string  `json:"form"`
	Ops  []struct {
		Base   int  `json:"base"`
		S      int  `json:"s"`
		Add    bool `json:"add"`
		Proofs bool `json:"proofs"`
	} `json:"ops"`
}

type addrmVersion struct {
	Key     map[string]int `json:"key"`
	Vals    []int64        `json:"vals"`
	Fp      string         `json:"fp"`
	Then    string         `json:"fpthen"`
	Results int            `json:"results"`
	data    []libunlynx.CipherText
	priv    kyber.Scalar
}

func fingerprint(cv libunlynx.CipherVector) string {
	return fmt.Sprintf("%d %x", len(cv), sha256.Sum256([]byte(strings.Join(cvKeys(cv), "|"))))
}

func patience() time.Duration {
	if impatient {
		return time.Second
	}
	return 25 * time.Second
}

var impatient bool // a result did not come: do not wait that long any more

func runAddRm(id string, raw json.RawMessage) Obs {
	var c addrmCase
	check(json.Unmarshal(raw, &c))
	nt := getNet(1)
	nt.Reset(false)
	_, tree := nt.Tree(seq(1), []int{0})
	priv, pub := keypair()
	srv := map[int]kyber.Scalar{}
	first := formVec(pub, c.Vals, c.Form)
	vers := []*addrmVersion{{Key: map[string]int{"s1": 0, "s2": 0, "s3": 0}, data: first, priv: priv, Then: fingerprint(first), Results: 1}}
	errs := []string{}
	for _, op := range c.Ops {
		base := vers[op.Base-1]
		k, ok := srv[op.S]
		if !ok {
			k = rndScalar()
			srv[op.S] = k
		}
		v := &addrmVersion{Key: map[string]int{}}
		for s, n := range base.Key {
			v.Key[s] = n
		}
		name := fmt.Sprint("s", op.S)
		if op.Add {
			v.priv = libunlynx.SuiTe.Scalar().Add(base.priv, k)
			v.Key[name]++
		} else {
			v.priv = libunlynx.SuiTe.Scalar().Sub(base.priv, k)
			v.Key[name]--
		}
		pi, err := nt.Local.CreateProtocol(protocolsunlynxutils.AddRmServerProtocolName, tree)
		check(err)
		p := pi.(*protocolsunlynxutils.AddRmServerProtocol)
		p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = base.data, k, op.Add, op.Proofs
		failed := make(chan string, 1)
		go func() {
			if err := p.Start(); err != nil {
				failed <- err.Error()
			}
		}()
		var e string
		select {
		case v.data = <-p.FeedbackChannel:
			v.Results++
			select {
			case <-p.FeedbackChannel:
				v.Results++
			case <-time.After(secondWait):
			}
		case e = <-failed:
		case <-time.After(patience()):
			e, impatient = "nothing came", true
		}
		errs = append(errs, e)
		if e != "" {
			break
		}
		v.Then = fingerprint(v.data)
		vers = append(vers, v)
	}
	for _, v := range vers {
		v.Vals = decVec(v.priv, v.data)
		v.Fp = fingerprint(v.data)
	}
	return Obs{"errs": errs, "vers": vers, "vals": c.Vals}
}

// -------------------------------------------------------------------------------------------------- side by side
type clearRow struct {
	G  []int64 `json:"g"`
	Ge []int64 `json:"ge"`
	W  []int64 `json:"w"`
	We []int64 `json:"we"`
	A  []int64 `json:"a"`
	Ae []int64 `json:"ae"`
}

func toClear(r clearRow) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{
		GroupByClear: libunlynxtools.ConvertDataToMap(r.G, "g", 0), GroupByEnc: libunlynxtools.ConvertDataToMap(r.Ge, "g", len(r.G)),
		WhereClear: libunlynxtools.ConvertDataToMap(r.W, "w", 0), WhereEnc: libunlynxtools.ConvertDataToMap(r.We, "w", len(r.W)),
		AggregatingAttributesClear: libunlynxtools.ConvertDataToMap(r.A, "s", 0), AggregatingAttributesEnc: libunlynxtools.ConvertDataToMap(r.Ae, "s", len(r.A)),
	}
}

func toClears(rs []clearRow) []libunlynx.DpClearResponse {
	out := make([]libunlynx.DpClearResponse, len(rs))
	for i, r := range rs {
		out[i] = toClear(r)
	}
	return out
}

// attrs reads the attributes first+start... of a map; anything else in it makes the result useless
func attrs(m map[string]int64, first string, start int) []int64 {
	out := []int64{}
	for i := 0; i < len(m); i++ {
		v, ok := m[fmt.Sprint(first, start+i)]
		if !ok {
			return []int64{NoValue, NoValue}
		}
		out = append(out, v)
	}
	return out
}

func fromClear(r libunlynx.DpClearResponse) clearRow {
	return clearRow{G: attrs(r.GroupByClear, "g", 0), Ge: attrs(r.GroupByEnc, "g", len(r.GroupByClear)),
		W: attrs(r.WhereClear, "w", 0), We: attrs(r.WhereEnc, "w", len(r.WhereClear)),
		A: attrs(r.AggregatingAttributesClear, "s", 0), Ae: attrs(r.AggregatingAttributesEnc, "s", len(r.AggregatingAttributesClear))}
}

func fromClears(rs []libunlynx.DpClearResponse) []clearRow {
	out := make([]clearRow, len(rs))
	for i, r := range rs {
		out[i] = fromClear(r)
	}
	return out
}

type localInst struct {
	Kind    string            `json:"kind"`
	Rows    []json.RawMessage `json:"rows"`
	Vals    []int64           `json:"vals"`
	Form    string            `json:"form"`
	Add     bool              `json:"add"`
	Proofs  bool              `json:"proofs"`
	Good    [][]bool          `json:"good"`
	F       int               `json:"f"`
	prepare func(pi onet.ProtocolInstance)
	start   func() error
	read    func(stop <-chan struct{}) (func() interface{}, bool)
	input   func() string
}

type localCase struct {
	Insts []*localInst `json:"insts"`
	Hist  []struct {
		Op  string `json:"op"`
		I   int    `json:"i"`
		Gap int    `json:"gap"`
	} `json:"hist"`
}

func (x *localInst) name() string {
	switch x.Kind {
	case "aggr":
		return protocolsunlynxutils.LocalAggregationProtocolName
	case "clear":
		return protocolsunlynxutils.LocalClearAggregationProtocolName
	case "addrm":
		return protocolsunlynxutils.AddRmServerProtocolName
	}
	return protocolsunlynxutils.ProofsVerificationProtocolName
}

// spoil makes element i of the published proofs state something else
func spoil(o operation, good []bool, f int) {
	for i, g := range good {
		if !g {
			alterSlots(proofAlt{F: f, How: "plusB"}, []slotMap{o.out(i)}, nil)
		}
	}
}

func (x *localInst) setup(nt *Net, agg kyber.Point) {
	switch x.Kind {
	case "aggr":
		priv, pub := keypair()
		var in []libunlynx.FilteredResponseDet
		for _, raw := range x.Rows {
			var r stRow
			check(json.Unmarshal(raw, &r))
			in = append(in, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprint("t", r.T)), Fr: libunlynx.FilteredResponse{GroupByEnc: encVec(pub, r.G), AggregatingAttributes: formVec(pub, r.A, x.Form)}})
		}
		x.input = func() string {
			s := ""
			for _, r := range in {
				s += string(r.DetTagGroupBy) + fingerprint(r.Fr.GroupByEnc) + fingerprint(r.Fr.AggregatingAttributes)
			}
			return s
		}
		x.prepare = func(pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynxutils.LocalAggregationProtocol)
			p.TargetOfAggregation, p.Proofs = in, x.Proofs
			x.start = p.Start
			x.read = func(stop <-chan struct{}) (func() interface{}, bool) {
				select {
				case m := <-p.FeedbackChannel:
					return func() interface{} {
						out := []stRow{}
						for k, v := range m {
							t := -1
							fmt.Sscanf(string(k), "t%d", &t)
							out = append(out, stRow{T: t, G: decVec(priv, v.GroupByEnc), A: decVec(priv, v.AggregatingAttributes), W: []int64{}})
						}
						sort.Slice(out, func(i, j int) bool { return out[i].T < out[j].T })
						return out
					}, true
				case <-stop:
					return nil, false
				}
			}
		}
	case "clear":
		var rows []clearRow
		for _, raw := range x.Rows {
			var r clearRow
			check(json.Unmarshal(raw, &r))
			rows = append(rows, r)
		}
		in := toClears(rows)
		x.input = func() string { return fmt.Sprint(fromClears(in)) }
		x.prepare = func(pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynxutils.LocalClearAggregationProtocol)
			p.TargetOfAggregation = in
			x.start = p.Start
			x.read = func(stop <-chan struct{}) (func() interface{}, bool) {
				select {
				case m := <-p.FeedbackChannel:
					return func() interface{} { return fromClears(m) }, true
				case <-stop:
					return nil, false
				}
			}
		}
	case "addrm":
		priv, pub := keypair()
		k := rndScalar()
		in := formVec(pub, x.Vals, x.Form)
		after := libunlynx.SuiTe.Scalar().Sub(priv, k)
		if x.Add {
			after = libunlynx.SuiTe.Scalar().Add(priv, k)
		}
		x.input = func() string { return fingerprint(in) }
		x.prepare = func(pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynxutils.AddRmServerProtocol)
			p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = in, k, x.Add, x.Proofs
			x.start = p.Start
			x.read = func(stop <-chan struct{}) (func() interface{}, bool) {
				select {
				case m := <-p.FeedbackChannel:
					return func() interface{} { return decVec(after, m) }, true
				case <-stop:
					return nil, false
				}
			}
		}
	case "proofs":
		vals := func(n int) []int64 {
			r := make([]int64, n)
			for i := range r {
				r[i] = int64(i + 1)
			}
			return r
		}
		ks, ddt, add := newKS(vals(len(x.Good[0])), ""), newDDT(vals(len(x.Good[1])), "", false), newAdd(vals(len(x.Good[2])), "", false)
		ag, co := newAgg(len(x.Good[3]), 2, []int64{1, 2, 3}, ""), newAgg(len(x.Good[5]), 1, []int64{4, 5}, "")
		sh := newShufFor(agg, len(x.Good[4]), 2, 1+x.F%2, []int64{1, 2, 3, 4, 5}, "", false, false)
		for i, o := range []operation{ks, ddt, add, ag, sh, co} {
			check(o.create())
			spoil(o, x.Good[i], x.F)
		}
		x.input = func() string { return "" }
		x.prepare = func(pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynxutils.ProofsVerificationProtocol)
			p.TargetOfVerification = protocolsunlynxutils.ProofsToVerify{KeySwitchingProofs: ks.pub, DetTagCreationProofs: ddt.pub, DetTagAdditionProofs: add.pub,
				AggregationProofs: ag.pub, ShufflingProofs: sh.pub, CollectiveAggregationProofs: co.pub}
			x.start = p.Start
			x.read = func(stop <-chan struct{}) (func() interface{}, bool) {
				select {
				case m := <-p.FeedbackChannel:
					return func() interface{} { return append([]bool{}, m...) }, true
				case <-stop:
					return nil, false
				}
			}
		}
	}
}

func runLocal(id string, raw json.RawMessage) Obs {
	var c localCase
	check(json.Unmarshal(raw, &c))
	nt := getNet(1)
	nt.Reset(false)
	ro, tree := nt.Tree(seq(1), []int{0})
	n := len(c.Insts)
	before := make([]string, n)
	for i, x := range c.Insts {
		x.setup(nt, ro.Aggregate)
		before[i] = x.input()
	}
	var mu sync.Mutex
	errs := make([]string, n)
	results := make([]int, n)
	outs := make([]func() interface{}, n)
	asked := make([]bool, n)
	created := make([]bool, n)
	giveUp := make(chan struct{})
	var readers sync.WaitGroup
	for _, h := range c.Hist {
		i, x := h.I-1, c.Insts[h.I-1]
		time.Sleep(time.Duration(h.Gap) * time.Microsecond)
		switch h.Op {
		case "create":
			pi, err := nt.Local.CreateProtocol(x.name(), tree)
			check(err)
			x.prepare(pi)
			created[i] = true
		case "start":
			go func() {
				if err := x.start(); err != nil {
					mu.Lock()
					errs[i] = err.Error()
					mu.Unlock()
				}
			}()
		case "read":
			asked[i] = true
			readers.Add(1)
			go func() {
				defer readers.Done()
				if f, ok := x.read(giveUp); ok {
					mu.Lock()
					results[i]++
					outs[i] = f
					mu.Unlock()
				}
			}()
		}
	}
	all := make(chan struct{})
	go func() { readers.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(patience()):
		impatient = true
	}
	close(giveUp)
	<-all
	// is there anything more?
	more := make(chan struct{})
	go func() { time.Sleep(secondWait); close(more) }()
	var again sync.WaitGroup
	for i := range c.Insts {
		if created[i] {
			again.Add(1)
			go func(i int) {
				defer again.Done()
				if _, ok := c.Insts[i].read(more); ok {
					mu.Lock()
					results[i]++
					mu.Unlock()
				}
			}(i)
		}
	}
	again.Wait()
	mu.Lock()
	defer mu.Unlock()
	touched := false
	insts := []Obs{}
	for i, x := range c.Insts {
		o := Obs{"kind": x.Kind, "asked": asked[i], "err": errs[i], "results": results[i]}
		if x.Rows != nil {
			o["rows"] = x.Rows
		}
		switch x.Kind {
		case "addrm":
			o["vals"] = x.Vals
		case "proofs":
			o["good"] = x.Good
		}
		if outs[i] != nil {
			o["out"] = outs[i]()
		}
		touched = touched || before[i] != x.input()
		insts = append(insts, o)
	}
	return Obs{"insts": insts, "touched": touched}
}
