package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
)

// Data in clear: generated, written to files, summed and compared.

func init() {
	families["gen"] = runGen
	families["file"] = runFile
	families["expect"] = runExpect
	families["compare"] = runCompare
}

type genParams struct {
	Dps      int64   `json:"dps"`
	Entries  int64   `json:"entries"`
	Filtered int64   `json:"filtered"`
	GC       int64   `json:"gc"`
	GE       int64   `json:"ge"`
	WC       int64   `json:"wc"`
	WE       int64   `json:"we"`
	AC       int64   `json:"ac"`
	AE       int64   `json:"ae"`
	Types    []int64 `json:"types"`
	Random   bool    `json:"random"`
	Size     int64   `json:"size"`
	Min      int64   `json:"min"`
	Max      int64   `json:"max"`
}

type dpRows struct {
	ID   string     `json:"id"`
	Rows []clearRow `json:"rows"`
}

func clearDps(m map[string][]libunlynx.DpClearResponse) []dpRows {
	out := []dpRows{}
	for k, v := range m {
		out = append(out, dpRows{k, fromClears(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func runGen(id string, raw json.RawMessage) Obs {
	var c struct {
		P genParams `json:"p"`
	}
	check(json.Unmarshal(raw, &c))
	p := c.P
	data, err := dataunlynx.GenerateData(p.Dps, p.Entries, p.Filtered, p.GC, p.GE, p.WC, p.WE, p.AC, p.AE, p.Types, p.Random)
	o := Obs{"p": p, "err": errStr(err), "dps": clearDps(data)}
	if err != nil {
		return o
	}
	f := "gen_" + id + ".txt"
	defer os.Remove(f)
	same := false
	if err := dataunlynx.WriteDataToFile(f, data); err == nil {
		if back, err := dataunlynx.ReadDataFromFile(f); err == nil {
			same = reflect.DeepEqual(clearDps(back), clearDps(data))
		}
	}
	o["same"] = same
	all := make([][]int64, 0)
	dataunlynx.AllPossibleGroups(p.Types, []int64{}, 0, &all)
	o["all"] = all
	o["slice"] = dataunlynx.CreateInt64Slice(p.Size, p.Min, p.Max)
	if p.Size > 0 {
		s := make([]int64, p.Size)
		dataunlynx.FillInt64Slice(s, p.Min)
		for _, v := range s {
			if v != p.Min {
				o["slice"] = []int64{}
			}
		}
	}
	return o
}

// rows whose numbers TLC cannot hold are given as text
type textRow [6][]string

type textDp struct {
	ID   string    `json:"id"`
	Rows []textRow `json:"rows"`
}

func ints(s []string) []int64 {
	out := make([]int64, len(s))
	for i, x := range s {
		v, err := strconv.ParseInt(x, 10, 64)
		check(err)
		out[i] = v
	}
	return out
}

func texts(s []int64) []string {
	out := make([]string, len(s))
	for i, x := range s {
		out[i] = strconv.FormatInt(x, 10)
	}
	return out
}

func runFile(id string, raw json.RawMessage) Obs {
	var c struct {
		Files [][]textDp `json:"files"`
		Wide  int        `json:"wide"`
	}
	check(json.Unmarshal(raw, &c))
	f := "file_" + id + ".txt"
	defer os.Remove(f)
	ins, outs := [][]textDp{}, [][]textDp{}
	e := ""
	for _, dps := range c.Files {
		data := map[string][]libunlynx.DpClearResponse{}
		for _, d := range dps {
			rows := []clearRow{}
			for _, r := range d.Rows {
				rows = append(rows, clearRow{G: ints(r[0]), Ge: ints(r[1]), W: ints(r[2]), We: ints(r[3]), A: ints(r[4]), Ae: ints(r[5])})
			}
			data[d.ID] = toClears(rows)
		}
		in := dps
		if c.Wide > 0 { // a response with very many attributes
			w := clearRow{A: make([]int64, c.Wide)}
			for i := range w.A {
				w.A[i] = int64(i * 7)
			}
			data["wide"] = toClears([]clearRow{w})
			in = append(append([]textDp{}, in...), textDp{"wide", []textRow{{{}, {}, {}, {}, {fingerText(w.A)}, {}}}})
		}
		if err := dataunlynx.WriteDataToFile(f, data); err != nil {
			e = err.Error()
			break
		}
		back, err := dataunlynx.ReadDataFromFile(f)
		if err != nil {
			e = err.Error()
			break
		}
		out := []textDp{}
		for k, v := range back {
			rows := []textRow{}
			for _, x := range fromClears(v) {
				if k == "wide" {
					x0 := textRow{texts(x.G), texts(x.Ge), texts(x.W), texts(x.We), {fingerText(x.A)}, texts(x.Ae)}
					rows = append(rows, x0)
					continue
				}
				rows = append(rows, textRow{texts(x.G), texts(x.Ge), texts(x.W), texts(x.We), texts(x.A), texts(x.Ae)})
			}
			out = append(out, textDp{k, rows})
		}
		sort.Slice(in, func(i, j int) bool { return in[i].ID < in[j].ID })
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
		ins, outs = append(ins, in), append(outs, out)
	}
	return Obs{"in": ins, "out": outs, "err": e}
}

func fingerText(v []int64) string {
	h := int64(len(v))
	for i, x := range v {
		h = (h*31 + x*int64(i+1)) % 1000000007
	}
	return fmt.Sprint(len(v), ":", h)
}

func runExpect(id string, raw json.RawMessage) Obs {
	var c struct {
		Dps   [][]clearRow `json:"dps"`
		Calls []struct {
			Rep   int  `json:"rep"`
			Clear bool `json:"clear"`
		} `json:"calls"`
	}
	check(json.Unmarshal(raw, &c))
	data := map[string][]libunlynx.DpClearResponse{}
	for i, d := range c.Dps {
		data[fmt.Sprint(i)] = toClears(d)
	}
	before := fmt.Sprint(clearDps(data))
	calls := []Obs{}
	for _, k := range c.Calls {
		r := dataunlynx.ComputeExpectedResult(data, k.Rep, k.Clear)
		calls = append(calls, Obs{"rep": k.Rep, "clear": k.Clear, "res": fromClears(r)})
	}
	return Obs{"dps": c.Dps, "calls": calls, "touched": before != fmt.Sprint(clearDps(data))}
}

func runCompare(id string, raw json.RawMessage) Obs {
	var c struct {
		Pairs []struct {
			X []clearRow `json:"x"`
			Y []clearRow `json:"y"`
		} `json:"pairs"`
		Nil bool `json:"nil"`
	}
	check(json.Unmarshal(raw, &c))
	v := []bool{}
	maps := func(rs []clearRow, none bool) []libunlynx.DpClearResponse {
		out := toClears(rs)
		for i := range out {
			if none { // no map instead of an empty one
				for _, m := range []*map[string]int64{&out[i].GroupByClear, &out[i].GroupByEnc, &out[i].WhereClear, &out[i].WhereEnc, &out[i].AggregatingAttributesClear, &out[i].AggregatingAttributesEnc} {
					if len(*m) == 0 {
						*m = nil
					}
				}
			}
		}
		return out
	}
	for _, p := range c.Pairs {
		x, y := maps(p.X, c.Nil), maps(p.Y, false)
		v = append(v, dataunlynx.CompareClearResponses(x, y))
	}
	return Obs{"pairs": c.Pairs, "verdicts": v}
}
