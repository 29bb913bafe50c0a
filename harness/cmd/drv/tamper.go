package main

import (
	"encoding/binary"
	"math/rand"
	"reflect"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// A protocol message that arrives damaged: whoever sent it sent other bytes or other lengths.

type tamperSpec struct {
	TOp   string `json:"top"`  // what is done to the message ("" nothing)
	TSeed int64  `json:"tsd"`  // where exactly
	TNth  int    `json:"tnth"` // to the n-th message that can be damaged (0 all)
	TFrom int    `json:"tfrom"`
	TTo   int    `json:"tto"`
}

type tamperer struct {
	s   tamperSpec
	mu  sync.Mutex
	cnt int
	hit string // "", "malformed" (no receiver may take it for a message) or "other"
	typ string
}

func (s tamperSpec) tamperer() *tamperer { return &tamperer{s: s} }

// apply damages the message if it is the one to be damaged.
func (t *tamperer) apply(from, to int, env *network.Envelope) {
	if t == nil || t.s.TOp == "" || (t.s.TFrom != 0 && from != t.s.TFrom) || (t.s.TTo != 0 && to != t.s.TTo) {
		return
	}
	pm, ok := env.Msg.(*onet.ProtocolMsg)
	if !ok {
		return
	}
	_, msg, err := network.Unmarshal(pm.MsgSlice, libunlynx.SuiTe)
	if err != nil {
		return
	}
	v := reflect.ValueOf(msg).Elem()
	if v.Kind() != reflect.Struct || v.NumField() == 0 {
		return
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cnt++
	if t.s.TNth != 0 && t.cnt != t.s.TNth {
		return
	}
	r := rand.New(rand.NewSource(t.s.TSeed + int64(t.cnt)))
	f := r.Intn(v.NumField())
	fd, name := v.Field(f), v.Type().Field(f).Name
	mal := false
	switch {
	case fd.Kind() == reflect.Slice && fd.Type().Elem().Kind() == reflect.Uint8:
		b := append([]byte{}, fd.Bytes()...)
		points := name == "Data" || name == "ShuffKey"
		if !points && r.Intn(2) == 0 && len(b) >= 8 {
			i := r.Intn(len(b) / 8)
			old := binary.LittleEndian.Uint64(b[8*i:])
			binary.LittleEndian.PutUint64(b[8*i:], uint64(badInt(r, int64(old))))
		} else {
			b, mal = badBytes(r, t.s.TOp, b, points)
			if v.Type().Name() == "ChildAggregatedDataBytesMessage" && t.s.TOp == "point" {
				mal = false // may have hit the text of a grouping key
			}
		}
		fd.SetBytes(b)
	case fd.Kind() == reflect.Int:
		fd.SetInt(badInt(r, fd.Int()))
	default:
		return
	}
	buf, err := network.Marshal(msg)
	if err != nil {
		return
	}
	pm.MsgSlice = buf
	t.typ = v.Type().Name() + "." + name
	if mal && t.hit == "" {
		t.hit = "malformed"
	} else if !mal {
		t.hit = "other"
	}
}

func (t *tamperer) report(o Obs) {
	t.mu.Lock()
	defer t.mu.Unlock()
	o["tampered"], o["tamperedtype"] = t.hit, t.typ
}

func badInt(r *rand.Rand, old int64) int64 {
	c := []int64{-1, 0, old + 1, old - 1, 2 * old, 1 << 40, -1 << 62, 1<<63 - 1, 1 << 31, 64, r.Int63n(1000)}
	return c[r.Intn(len(c))]
}

// badBytes returns the damaged bytes and whether, as ciphertexts or points, they cannot be anything right.
func badBytes(r *rand.Rand, op string, b []byte, points bool) ([]byte, bool) {
	n := len(b)
	switch op {
	case "cut":
		if n > 0 {
			return b[:n-1-r.Intn(mini(n, 31))], true
		}
	case "cutfront":
		if n > 0 {
			return b[1+r.Intn(mini(n, 31)):], true
		}
	case "add":
		x := make([]byte, 1+r.Intn(31))
		r.Read(x)
		return append(b, x...), true
	case "empty":
		return []byte{}, false
	case "less":
		k := 64 * (1 + r.Intn(2))
		if n >= k {
			return b[:n-k], false
		}
	case "more":
		k := mini(n, 64*(1+r.Intn(2)))
		return append(b, b[:k]...), false
	case "half":
		return b[:n/2], false
	case "point":
		if n >= 32 {
			i := r.Intn(n / 32)
			p := libunlynx.SuiTe.Point()
			for {
				r.Read(b[32*i : 32*i+32])
				if p.UnmarshalBinary(b[32*i:32*i+32]) != nil {
					return b, points
				}
			}
		}
	case "flip":
		if n > 0 {
			b[r.Intn(n)] ^= 1 << uint(r.Intn(8))
			return b, false
		}
	case "noise":
		r.Read(b)
		return b, false
	case "zero":
		return make([]byte, n), false
	}
	return append(b, 7), true
}
