package main

import (
	"fmt"
	"sort"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// What servers see of the data of others: the tags of the groups they aggregate for each other.
type tagWatch struct {
	mu      sync.Mutex
	on      bool
	current int
	lengths map[string]protocolsunlynx.CADBLengthMessage
	datas   map[string][]byte
	tags    map[int]map[string]bool
	odd     string
}

func newTagWatch() *tagWatch {
	return &tagWatch{lengths: map[string]protocolsunlynx.CADBLengthMessage{}, datas: map[string][]byte{}, tags: map[int]map[string]bool{}}
}

func (t *tagWatch) survey(i int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.current = i
	t.tags[i] = map[string]bool{}
}

func (t *tagWatch) see(from int, env *network.Envelope) {
	pm, ok := env.Msg.(*onet.ProtocolMsg)
	if t == nil || !t.on || !ok || pm.To == nil {
		return
	}
	_, msg, err := network.Unmarshal(pm.MsgSlice, libunlynx.SuiTe)
	if err != nil {
		return
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	k := fmt.Sprintf("%v/%d", pm.To.RoundID, from)
	switch m := msg.(type) {
	case *protocolsunlynx.CADBLengthMessage:
		t.lengths[k] = *m
	case *protocolsunlynx.ChildAggregatedDataBytesMessage:
		t.datas[k] = m.Data
	default:
		return
	}
	l, okl := t.lengths[k]
	d, okd := t.datas[k]
	if !okl || !okd {
		return
	}
	c := protocolsunlynx.ChildAggregatedDataMessage{}
	if err := c.FromBytes(d, l.GacbLength, l.AabLength, l.DtbLength); err != nil {
		t.odd = err.Error()
		return
	}
	for _, x := range c.ChildData {
		t.tags[t.current][string(x.DetTagGroupBy)] = true
	}
}

func (t *tagWatch) report(o Obs, n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	all := [][]string{}
	for i := 1; i <= n; i++ {
		x := []string{}
		for k := range t.tags[i] {
			x = append(x, k)
		}
		sort.Strings(x)
		all = append(all, x)
	}
	o["tags"], o["odd"] = all, t.odd
}
