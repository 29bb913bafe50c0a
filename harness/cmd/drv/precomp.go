package main

import (
	"encoding/gob"
	"encoding/json"
	"io/ioutil"
	"math/rand"
	"os"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

func init() { families["precomp"] = runPrecomp }

type pcOp struct {
	Op   string `json:"op"`
	K    int    `json:"k"`
	W    int    `json:"w"`
	At   int    `json:"at"` // position, in thousandths
	N    int    `json:"n"`
	App  bool   `json:"app"`
	Seed int64  `json:"seed"`
}

// gobOp changes the precomputation file as an earlier survey, an interrupted write or damage would.
func gobOp(path string, o pcOp, keys func(int) kyber.Point) {
	rd := rand.New(rand.NewSource(o.Seed))
	b, err := ioutil.ReadFile(path)
	put := func(x []byte) { check(ioutil.WriteFile(path, x, 0644)) }
	edit := func(f func(l []libunlynxshuffle.CipherVectorScalarBytes) []libunlynxshuffle.CipherVectorScalarBytes) {
		fi, err := os.Open(path)
		if err != nil {
			return
		}
		var l []libunlynxshuffle.CipherVectorScalarBytes
		err = gob.NewDecoder(fi).Decode(&l)
		check(fi.Close())
		if err != nil || len(l) == 0 {
			return
		}
		for _, x := range l {
			if len(x.S) < 2 || len(x.CipherV) < 2 {
				return
			}
		}
		l = f(l)
		fo, err := os.Create(path)
		check(err)
		check(gob.NewEncoder(fo).Encode(l))
		check(fo.Close())
	}
	switch o.Op {
	case "cut":
		if err == nil && len(b) > 0 {
			put(b[:len(b)*o.At/1000])
		}
	case "interrupt": // the beginning of what a survey with this key and width writes
		_, err := libunlynxshuffle.PrecomputeForShuffling("other", path, rndScalar(), keys(o.K), o.W)
		check(err)
		b, err = ioutil.ReadFile(path)
		check(err)
		put(b[:len(b)*o.At/1000])
	case "flip":
		if err == nil && len(b) > 0 {
			for i := 0; i < o.N; i++ {
				p := rd.Intn(len(b))
				if o.At > 0 {
					p = (len(b) - 1) * o.At / 1000
				}
				b[p] ^= byte(1 << uint(rd.Intn(8)))
			}
			put(b)
		}
	case "garbage":
		x := make([]byte, o.N)
		rd.Read(x)
		put(x)
	case "tail":
		put(append(b, make([]byte, o.N)...))
	case "delete":
		_ = os.Remove(path)
	case "swap", "onekey", "shortS", "shortC", "shortline", "one", "nolines", "turned", "otherscalar", "norandom", "emptypoint", "droplines", "rotate":
		edit(func(l []libunlynxshuffle.CipherVectorScalarBytes) []libunlynxshuffle.CipherVectorScalarBytes {
			i := rd.Intn(len(l))
			j := rd.Intn(len(l[i].CipherV))
			k := (j + 1) % len(l[i].CipherV)
			switch o.Op {
			case "swap":
				l[i].CipherV[j], l[i].CipherV[k] = l[i].CipherV[k], l[i].CipherV[j]
			case "onekey":
				s := rndScalar()
				sb, _ := s.MarshalBinary()
				kb, _ := libunlynx.SuiTe.Point().Mul(s, nil).MarshalBinary()
				cb, _ := libunlynx.SuiTe.Point().Mul(s, keys(99)).MarshalBinary()
				l[i].S[j], l[i].CipherV[j] = sb, [][]byte{kb, cb}
			case "shortS":
				l[i].S = l[i].S[:1]
			case "shortC":
				l[i].CipherV = l[i].CipherV[:1]
			case "shortline":
				l[i].S, l[i].CipherV = l[i].S[:1], l[i].CipherV[:1]
			case "one":
				l[i].CipherV[j] = l[i].CipherV[j][:1]
			case "nolines":
				return nil
			case "droplines":
				return l[:1]
			case "turned":
				l[i].CipherV[j][0], l[i].CipherV[j][1] = l[i].CipherV[j][1], l[i].CipherV[j][0]
			case "otherscalar":
				sb, _ := rndScalar().MarshalBinary()
				l[i].S[j] = sb
			case "norandom":
				p, _ := libunlynx.SuiTe.Point().Null().MarshalBinary()
				l[i].CipherV[j] = [][]byte{p, p}
			case "emptypoint":
				l[i].CipherV[j] = [][]byte{{}, {}}
			case "rotate":
				x := l[i].CipherV
				l[i].CipherV = append(append([][][]byte{}, x[1:]...), x[0])
			}
			return l
		})
	default:
		panic("unknown file operation " + o.Op)
	}
}

// runPrecomp creates surveys' precomputed randomness with whatever the file holds at that moment.
func runPrecomp(id string, raw json.RawMessage) Obs {
	var c struct {
		Ops []pcOp `json:"ops"`
	}
	check(json.Unmarshal(raw, &c))
	dir, err := ioutil.TempDir("", "pc")
	check(err)
	defer os.RemoveAll(dir)
	path := dir + "/pre_compute_multiplications.gob"
	privs := map[int]kyber.Scalar{}
	keys := func(i int) kyber.Point {
		if privs[i] == nil {
			privs[i] = rndScalar()
		}
		return libunlynx.SuiTe.Point().Mul(privs[i], nil)
	}
	type res struct {
		K        int    `json:"k"`
		W        int    `json:"w"`
		Err      string `json:"err"`
		Lines    int    `json:"lines"`
		Width    int    `json:"width"`
		Zero     bool   `json:"zero"`
		Shuffled bool   `json:"shuffled"`
	}
	got := []res{}
	for _, o := range c.Ops {
		if o.Op != "create" {
			gobOp(path, o, keys)
			continue
		}
		key := keys(o.K)
		n := o.N
		if n < 1 {
			n = 1
		}
		outs := make([]res, n)
		crash := make([]interface{}, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { crash[i] = recover() }()
				r := res{K: o.K, W: o.W, Zero: true, Shuffled: true}
				pre, err := libunlynxshuffle.PrecomputationWritingForShuffling(o.App, path, "srv", rndScalar(), key, o.W)
				r.Err = errStr(err)
				if err == nil {
					r.Lines, r.Width = len(pre), 1<<20
					for _, l := range pre {
						if len(l.S) < r.Width {
							r.Width = len(l.S)
						}
						if len(l.CipherV) < r.Width {
							r.Width = len(l.CipherV)
						}
						for j, x := range l.CipherV {
							if j >= len(l.S) {
								break
							}
							r.Zero = r.Zero && x.K != nil && x.C != nil && x.K.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], nil)) &&
								x.C.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], key))
						}
					}
					if r.Lines > 0 && r.Width >= o.W {
						in := []libunlynx.CipherVector{}
						for k := 0; k < 3; k++ {
							row := make([]int64, o.W)
							for j := range row {
								row[j] = int64(k*100 + j)
							}
							in = append(in, encVec(key, row))
						}
						out, pi, _ := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), key, pre)
						for k, row := range out {
							for j, x := range row {
								r.Shuffled = r.Shuffled && len(row) == o.W && decPoint(privs[o.K], x).Equal(pt(int64(pi[k]*100+j)))
							}
						}
					}
				}
				outs[i] = r
			}(i)
		}
		wg.Wait()
		for i := range outs {
			if crash[i] != nil {
				panic(crash[i])
			}
			got = append(got, outs[i])
		}
	}
	return Obs{"got": got}
}
