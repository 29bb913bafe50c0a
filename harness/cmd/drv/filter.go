package main

import (
	"encoding/json"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
)

func init() { families["filter"] = runFilter }

// runFilter filters rows of tags with the real code and reports which were kept.
func runFilter(id string, raw json.RawMessage) Obs {
	var c struct {
		Pred  string    `json:"pred"`
		Where []int64   `json:"where"`
		Rows  [][]int64 `json:"rows"`
		Group [][]int64 `json:"group"`
		Tags  string    `json:"tags"`
	}
	check(json.Unmarshal(raw, &c))
	mask := rndPoint()
	point := func(v int64) libunlynx.DeterministCipherText {
		return libunlynx.DeterministCipherText{Point: libunlynx.SuiTe.Point().Add(mask, pt(v))}
	}
	tag := func(v int64) libunlynx.GroupingKey {
		if c.Tags == "short" {
			return libunlynx.GroupingKey([]string{"0", "1", "27", "true", "", "v0", "1.0"}[v%7])
		}
		x := point(v)
		return libunlynx.GroupingKey(x.String())
	}
	_, pub := keypair()
	dup := func(v libunlynx.CipherVector) []string { return cvKeys(v) }
	// the tags of a run, given back to their responses
	prs := make([]libunlynx.ProcessResponse, len(c.Rows))
	det := libunlynx.DeterministCipherVector{}
	for i := range c.Rows {
		prs[i] = libunlynx.ProcessResponse{WhereEnc: encVec(pub, c.Rows[i]), GroupByEnc: encVec(pub, c.Group[i]), AggregatingAttributes: encVec(pub, []int64{int64(i)})}
		for _, v := range c.Rows[i] {
			det = append(det, point(v))
		}
		for _, v := range c.Group[i] {
			det = append(det, point(v))
		}
	}
	mapped := len(protocolsunlynx.ProcessResponseToCipherVector(prs)) == len(det)
	rows := protocolsunlynx.DeterCipherVectorToProcessResponseDet(det, prs)
	for i, r := range rows {
		mapped = mapped && len(r.DetTagWhere) == len(c.Rows[i])
		for j := range c.Rows[i] {
			x := point(c.Rows[i][j])
			mapped = mapped && j < len(r.DetTagWhere) && string(r.DetTagWhere[j]) == x.String()
		}
		g := make(libunlynx.DeterministCipherVector, len(c.Group[i]))
		for j, v := range c.Group[i] {
			g[j] = point(v)
		}
		mapped = mapped && r.DetTagGroupBy == g.Key()
		if c.Tags == "short" {
			for j, v := range c.Rows[i] {
				rows[i].DetTagWhere[j] = tag(v)
			}
		}
	}
	where := make([]libunlynx.WhereQueryAttributeTagged, len(c.Where))
	for i, v := range c.Where {
		where[i] = libunlynx.WhereQueryAttributeTagged{Name: "w", Value: tag(v)}
	}
	index := map[string]int{}
	type image struct {
		g, a []string
		tag  libunlynx.GroupingKey
	}
	imgs := []image{}
	for i, r := range rows {
		imgs = append(imgs, image{dup(r.PR.GroupByEnc), dup(r.PR.AggregatingAttributes), r.DetTagGroupBy})
		index[ctKey(r.PR.AggregatingAttributes[0])] = i
	}
	same := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	intact := true
	look := func(out []libunlynx.FilteredResponseDet) []int {
		kept := []int{}
		for _, f := range out {
			if len(f.Fr.AggregatingAttributes) != 1 {
				intact = false
				continue
			}
			i, ok := index[ctKey(f.Fr.AggregatingAttributes[0])]
			if !ok || f.DetTagGroupBy != imgs[i].tag || !same(dup(f.Fr.GroupByEnc), imgs[i].g) || !same(dup(f.Fr.AggregatingAttributes), imgs[i].a) {
				intact = false
				continue
			}
			kept = append(kept, i+1)
		}
		return kept
	}
	kept := look(servicesunlynx.FilterResponses(c.Pred, where, rows))
	none := look(servicesunlynx.FilterNone(rows))
	all := len(none) == len(rows)
	for i, k := range none {
		all = all && k == i+1
	}
	return Obs{"kept": kept, "intact": intact, "mapped": mapped, "all": all}
}
