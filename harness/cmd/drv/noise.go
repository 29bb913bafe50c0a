package main

import (
	"encoding/json"
	"math"

	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"
)

func init() { families["noise"] = runNoise }

// runNoise reports the noise list as runs of equal magnitude: [k, positives, negatives] in order.
func runNoise(id string, raw json.RawMessage) Obs {
	var c struct {
		N                     int64
		B, Quanta, Scale, Lim float64
		Unscaled              bool
	}
	check(json.Unmarshal(raw, &c))
	var v []float64
	if c.Unscaled {
		v = libunlynxdiffprivacy.GenerateNoiseValues(c.N, 0, c.B, c.Quanta, c.Lim)
	} else {
		v = libunlynxdiffprivacy.GenerateNoiseValuesScale(c.N, 0, c.B, c.Quanta, c.Scale, c.Lim)
	}
	vals := make([]int64, 0, len(v))
	exact := true
	for _, x := range v {
		step := x // the values are multiples of one unit
		k := math.Round(step)
		if math.Abs(step-k) > 1e-6*math.Max(1, math.Abs(k)) {
			exact = false
		}
		vals = append(vals, int64(k))
	}
	// run-length: consecutive values of one magnitude, alternating signs
	type run struct {
		K   int64 `json:"k"`
		Cnt int   `json:"cnt"`
		Alt bool  `json:"alt"`
	}
	runs := []run{}
	for i, k := range vals {
		m := k
		if m < 0 {
			m = -m
		}
		if len(runs) == 0 || runs[len(runs)-1].K != m {
			runs = append(runs, run{m, 0, true})
		}
		r := &runs[len(runs)-1]
		// +m, -m, +m, -m ...
		if m != 0 && (k > 0) != (r.Cnt%2 == 0) {
			r.Alt = false
		}
		r.Cnt++
		_ = i
	}
	return Obs{"n": c.N, "len": len(v), "runs": runs, "integral": exact}
}
