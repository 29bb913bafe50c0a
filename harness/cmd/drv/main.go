// Command drv runs the real unlynx code on cases produced by the TLA+ specifications and
// writes what it observed, one JSON line per case, for TLC to validate.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/onet/v3/log"
)

// Obs is what was observed for one case.
type Obs map[string]interface{}

type family func(id string, raw json.RawMessage) Obs

var families = map[string]family{}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

var runDir string

func main() {
	log.SetDebugVisible(0)
	fam, in, out := os.Args[1], os.Args[2], os.Args[3]
	fn, ok := families[fam]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", fam)
		os.Exit(9)
	}
	runDir, _ = os.Getwd()
	perCase := 30
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASE_TIMEOUT")); err == nil {
		perCase = v
	}
	fi, err := os.Open(in)
	check(err)
	fo, err := os.Create(out)
	check(err)
	w := func(o Obs) {
		b, err := json.Marshal(o)
		check(err)
		_, err = fo.Write(append(b, '\n'))
		check(err)
	}
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		raw := append([]byte{}, sc.Bytes()...)
		var hdr struct {
			ID string `json:"id"`
		}
		check(json.Unmarshal(raw, &hdr))
		w(Obs{"begin": true, "id": hdr.ID})
		done := make(chan Obs, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- Obs{"crash": true, "why": fmt.Sprint(r), "stderr": string(debug.Stack())}
				}
			}()
			done <- fn(hdr.ID, raw)
		}()
		select {
		case o := <-done:
			o["id"] = hdr.ID
			w(o)
		case <-time.After(time.Duration(perCase) * time.Second):
			buf := make([]byte, 1<<20)
			w(Obs{"id": hdr.ID, "hang": true, "stderr": string(buf[:runtime.Stack(buf, true)])})
			check(fo.Close())
			os.Exit(7)
		}
	}
	check(fo.Close())
	os.Exit(0)
}

var _ = libunlynx.SuiTe
