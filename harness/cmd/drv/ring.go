package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// Families of the protocols on one vector or matrix of ciphertexts: key switching, shuffling,
// deterministic tagging, shuffling + tagging.

const (
	ksProto   = "VerifKS"
	shufProto = "VerifShuffle"
	ddtProto  = "VerifDDT"
	sddtProto = "VerifSDDT"
)

func init() {
	families["ks"] = runKS
	families["shuffle"] = runShuffle
	families["ddt"] = runDDT
	families["sddt"] = runSDDT
	for _, n := range []string{ksProto, shufProto, ddtProto, sddtProto} {
		regProto(n)
	}
}

type faultSpec struct {
	Drop    int `json:"drop"`    // server whose messages to others are lost (0 none)
	DropN   int `json:"dropn"`   // only the n-th message of that server (0 all)
	DropT   int `json:"dropt"`   // only towards this server (0 all)
	Timeout int `json:"timeout"` // the protocols' time-out for a run with faults, in ms (0: no faults)
	tamperSpec
}

func (f faultSpec) install(nt *Net) {
	if f.TOp != "" {
		nt.mu.Lock()
		nt.tamper = f.tamperer()
		nt.mu.Unlock()
	}
	if f.Drop == 0 {
		return
	}
	var mu sync.Mutex
	cnt := 0
	nt.mu.Lock()
	nt.dropMsg = func(from, to, nth int) bool {
		if from != f.Drop || (f.DropT != 0 && to != f.DropT) {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		cnt++
		return f.DropN == 0 || cnt == f.DropN
	}
	nt.mu.Unlock()
}

// conclude reports, for a run with faults, how many Dispatches did not end.
func (f faultSpec) conclude(o Obs) {
	o["fault"] = f.Timeout > 0
	o["tampered"] = ""
	theNet.mu.Lock()
	t := theNet.tamper
	theNet.mu.Unlock()
	if t != nil {
		t.report(o)
	}
	if f.Timeout > 0 {
		<-allEnded(true)
		o["unended"] = unended()
	}
}

func (f faultSpec) start(start func() error) {
	if err := start(); f.Timeout == 0 {
		check(err)
	}
}

// ---------------------------------------------------------------- key switching

type ksCase struct {
	Parent []int    `json:"parent"`
	Data   []int64  `json:"data"`
	Sched  [][2]int `json:"sched"`
	Hold   bool     `json:"hold"`
	Proofs bool     `json:"proofs"`
	Form   string   `json:"form"`
	Target int      `json:"target"` // whose key is switched to: a stranger's (0), a server's or all servers' (-1)
	faultSpec
}

func runKS(id string, raw json.RawMessage) Obs {
	var c ksCase
	check(json.Unmarshal(raw, &c))
	n := len(c.Parent)
	nt := getNet(maxi(n, 4))
	nt.Reset(c.Hold)
	ro, tree := nt.Tree(seq(n), c.Parent)
	tpriv, tpub := keypair()
	opriv, _ := keypair()
	if c.Target > 0 {
		tpriv = nt.Priv(c.Target)
	} else if c.Target < 0 {
		tpriv = nt.SumPriv(seq(n))
	}
	tpub = libunlynx.SuiTe.Point().Mul(tpriv, nil)
	others := []kyber.Scalar{libunlynx.SuiTe.Scalar().Zero(), opriv, nt.SumPriv(seq(n))}
	for i := range c.Parent {
		others = append(others, nt.Priv(i+1))
	}
	in := formVec(ro.Aggregate, c.Data, c.Form)
	inKeys := cvKeys(in)
	var mu sync.Mutex
	proofs, bad := 0, 0
	setProto(ksProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewKeySwitchingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.Proofs = c.Proofs
		p.ProofFunc = func(pub, target kyber.Point, sec kyber.Scalar, ks2s, rbn []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
			pr, err := libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, sec, ks2s, rbn, vis)
			ok := err == nil && libunlynxkeyswitch.KeySwitchListProofVerification(pr, 1.0) && len(pr.List) == len(c.Data)
			mu.Lock()
			proofs++
			if !ok {
				bad++
			}
			mu.Unlock()
			return &pr
		}
		if tni.IsRoot() {
			p.TargetOfSwitch = &in
			p.TargetPublicKey = &tpub
		}
		return p, nil
	})
	defer faultMode(c.Timeout)()
	gone := allEnded(c.Timeout > 0)
	pi, err := nt.Local.CreateProtocol(ksProto, tree)
	check(err)
	p := under(pi).(*protocolsunlynx.KeySwitchingProtocol)
	c.install(nt)
	stop := make(chan struct{})
	resCh := make(chan Obs, 1)
	go func() {
		defer close(stop)
		var r libunlynx.CipherVector
		select {
		case r = <-p.FeedbackChannel:
		case <-gone:
			resCh <- Obs{"delivered": false, "res": []int64{}}
			return
		}
		results := 1
		select {
		case <-p.FeedbackChannel:
			results++
		case <-time.After(secondWait):
		}
		fresh, seen := true, map[string]bool{}
		for i, ct := range r {
			k := pkey(ct.K)
			if seen[k] || (i < len(in) && k == pkey(in[i].K)) || ct.K.Equal(libunlynx.SuiTe.Point().Null()) {
				fresh = false
			}
			seen[k] = true
		}
		leak := false // decrypts without or with a wrong key
		for _, k := range others {
			if libunlynx.SuiTe.Point().Mul(k, nil).Equal(tpub) {
				continue
			}
			for _, v := range decVec(k, r) {
				if v != NoValue {
					leak = true
				}
			}
		}
		untouched := true
		for i, k := range cvKeys(in) {
			if k != inKeys[i] {
				untouched = false
			}
		}
		resCh <- Obs{"delivered": true, "results": results, "res": decVec(tpriv, r), "fresh": fresh, "leak": leak, "untouched": untouched}
	}()
	go c.start(p.Start)
	if c.Hold {
		nt.Run(c.Sched, stop, 2*time.Second)
	}
	o := <-resCh
	o["data"] = c.Data
	mu.Lock()
	o["proofs"], o["badproofs"] = proofs, bad
	mu.Unlock()
	c.conclude(o)
	return o
}

// ---------------------------------------------------------------- shuffling

type shufCase struct {
	Parent []int     `json:"parent"`
	Rows   [][]int64 `json:"rows"`
	Pre    string    `json:"pre"` // "", "own" (1 line per server, known), "many"
	Proofs bool      `json:"proofs"`
	Extra  int       `json:"extra"` // additional precomputed columns
	Form   string    `json:"form"`
	faultSpec
}

func encMatrix(pub kyber.Point, rows [][]int64, form string) []libunlynx.CipherVector {
	m := make([]libunlynx.CipherVector, len(rows))
	for i, r := range rows {
		m[i] = formVec(pub, r, form)
	}
	if form == "mix" { // the rows are parts of one array, and equal ones are the same part of it
		n := 0
		for _, r := range m {
			n += len(r)
		}
		all, known := make(libunlynx.CipherVector, n), map[string]libunlynx.CipherVector{}
		for i, r := range rows {
			if v, ok := known[fmt.Sprint(r)]; ok {
				m[i] = v
				continue
			}
			l := copy(all, m[i])
			m[i], all = all[:l], all[l:]
			known[fmt.Sprint(r)] = m[i]
		}
	}
	return m
}

func matKeys(m []libunlynx.CipherVector) [][]string {
	r := make([][]string, len(m))
	for i := range m {
		r[i] = cvKeys(m[i])
	}
	return r
}

func ncols(rows [][]int64) int {
	n := 0
	for _, r := range rows {
		n = maxi(n, len(r))
	}
	return n
}

func runShuffle(id string, raw json.RawMessage) Obs {
	var c shufCase
	check(json.Unmarshal(raw, &c))
	n := len(c.Parent)
	nt := getNet(maxi(n, 4))
	nt.Reset(false)
	ro, tree := nt.Tree(seq(n), c.Parent)
	priv := nt.SumPriv(seq(n))
	in := encMatrix(ro.Aggregate, c.Rows, c.Form)
	inKeys := matKeys(in)
	B := libunlynx.SuiTe.Point().Base()
	pre := make(map[int][]libunlynxshuffle.CipherVectorScalar)
	if c.Pre != "" {
		for i := 1; i <= n; i++ {
			lines := 1
			if c.Pre == "many" {
				lines = 10
			}
			pre[i] = libunlynxshuffle.CreatePrecomputedRandomize(B, ro.Aggregate, libunlynx.SuiTe.RandomStream(), ncols(c.Rows)+c.Extra, lines)
		}
	}
	var mu sync.Mutex
	proofs, bad := 0, 0
	stale := 0 // ciphertexts passed on by a server as they came
	setProto(shufProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := protocolsunlynx.NewShufflingProtocol(tni)
		if err != nil {
			return nil, err
		}
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Proofs = c.Proofs
		p.Precomputed = pre[nt.Who(tni.ServerIdentity().ID)]
		p.ProofFunc = func(a, b []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
			old := map[string]bool{}
			for _, r := range a {
				for _, ct := range r {
					old[ctKey(ct)] = true
				}
			}
			st := 0
			for _, r := range b {
				for _, ct := range r {
					if old[ctKey(ct)] {
						st++
					}
				}
			}
			pr, err := libunlynxshuffle.ShuffleProofCreation(a, b, B, key, beta, perm)
			ok := err == nil && libunlynxshuffle.ShuffleProofVerification(pr, key)
			mu.Lock()
			proofs++
			stale += st
			if !ok {
				bad++
			}
			mu.Unlock()
			return &pr
		}
		if tni.IsRoot() {
			p.ShuffleTarget = &in
		}
		return p, nil
	})
	defer faultMode(c.Timeout)()
	gone := allEnded(c.Timeout > 0)
	pi, err := nt.Local.CreateProtocol(shufProto, tree)
	check(err)
	p := under(pi).(*protocolsunlynx.ShufflingProtocol)
	c.install(nt)
	go c.start(p.Start)
	var r []libunlynx.CipherVector
	select {
	case r = <-p.FeedbackChannel:
	case <-gone:
		o := Obs{"delivered": false, "rows": c.Rows, "res": [][]int64{}}
		c.conclude(o)
		return o
	}
	results := 1
	select {
	case <-p.FeedbackChannel:
		results++
	case <-time.After(secondWait):
	}
	o := Obs{"delivered": true, "results": results, "rows": c.Rows}
	res := make([][]int64, len(r))
	for i := range r {
		res[i] = decVec(priv, r[i])
	}
	o["res"] = res
	o["untouched"] = sameKeys(inKeys, matKeys(in))
	// the input row each output row comes from (rows made distinguishable by the case), and the randomness added
	perm, freshOK, matched := matchRows(c.Rows, res, in, r)
	o["perm"], o["matched"] = perm, matched
	o["notin"] = notIn(in, r)
	if c.Pre == "" {
		o["fresh"] = freshOK
	} else if c.Pre == "own" && matched {
		// every server had exactly one line of randomness: what was added is known
		okAll := true
		for i, row := range r {
			for j := range row {
				want := libunlynx.SuiTe.Point().Null()
				wantC := libunlynx.SuiTe.Point().Null()
				for s := 1; s <= n; s++ {
					want = libunlynx.SuiTe.Point().Add(want, pre[s][0].CipherV[j].K)
					wantC = libunlynx.SuiTe.Point().Add(wantC, pre[s][0].CipherV[j].C)
				}
				if !libunlynx.SuiTe.Point().Sub(row[j].K, in[perm[i]-1][j].K).Equal(want) || !libunlynx.SuiTe.Point().Sub(row[j].C, in[perm[i]-1][j].C).Equal(wantC) {
					okAll = false
				}
			}
		}
		o["fresh"] = okAll
	} else {
		o["fresh"] = true
	}
	mu.Lock()
	o["proofs"], o["badproofs"], o["stale"] = proofs, bad, stale
	mu.Unlock()
	o["ordered"] = isIdentity(perm)
	c.conclude(o)
	return o
}

func isIdentity(p []int) bool {
	for i, v := range p {
		if v != i+1 {
			return false
		}
	}
	return true
}

func sameKeys(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

// notIn tells that no output ciphertext (nor one of its halves) equals an input one.
func notIn(in, out []libunlynx.CipherVector) bool {
	old := map[string]bool{}
	for _, r := range in {
		for _, ct := range r {
			old["K"+pkey(ct.K)] = true
			old["C"+pkey(ct.C)] = true
		}
	}
	for _, r := range out {
		for _, ct := range r {
			if old["K"+pkey(ct.K)] || old["C"+pkey(ct.C)] {
				return false
			}
		}
	}
	return true
}

// matchRows finds, when the plaintext rows are pairwise different, the input row of each output row and
// whether every (row, column) got its own randomness.
func matchRows(rows, res [][]int64, in, out []libunlynx.CipherVector) ([]int, bool, bool) {
	idx := map[string]int{}
	for i, r := range rows {
		b, _ := json.Marshal(r)
		if _, dup := idx[string(b)]; dup {
			return []int{}, true, false
		}
		idx[string(b)] = i + 1
	}
	perm := make([]int, len(res))
	seen := map[string]bool{}
	fresh := true
	for i, r := range res {
		b, _ := json.Marshal(r)
		k := idx[string(b)]
		if k == 0 {
			return []int{}, true, false
		}
		perm[i] = k
		for j := range out[i] {
			d := pkey(libunlynx.SuiTe.Point().Sub(out[i][j].K, in[k-1][j].K))
			if seen[d] || d == pkey(libunlynx.SuiTe.Point().Null()) {
				fresh = false
			}
			seen[d] = true
		}
	}
	return perm, fresh, true
}

// ---------------------------------------------------------------- deterministic tagging

type ddtRun struct {
	Root int     `json:"root"`
	Data []int64 `json:"data"`
	// server that has another secret in this run than in the others (0: none)
	Other int `json:"other"`
}

type ddtCase struct {
	N      int      `json:"n"`
	Runs   []ddtRun `json:"runs"`
	Proofs bool     `json:"proofs"`
	Form   string   `json:"form"`
	faultSpec
}

// rotate gives the servers 1..n starting with root.
func rotate(n, root int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = (root-1+i)%n + 1
	}
	return r
}

func star(n int) []int {
	p := make([]int, n)
	for i := 1; i < n; i++ {
		p[i] = 1
	}
	return p
}

type tagIDs map[string]int

func (t tagIDs) id(p kyber.Point) int {
	k := pkey(p)
	if _, ok := t[k]; !ok {
		t[k] = len(t) + 1
	}
	return t[k]
}

func runDDT(id string, raw json.RawMessage) Obs {
	var c ddtCase
	check(json.Unmarshal(raw, &c))
	nt := getNet(maxi(c.N, 4))
	secrets := make([]kyber.Scalar, c.N+1)
	for i := range secrets {
		secrets[i] = rndScalar()
	}
	others := make([]kyber.Scalar, c.N+1)
	for i := range others {
		others[i] = rndScalar()
	}
	ids := tagIDs{}
	out := make([]Obs, 0)
	keyIDs := map[string]int{}
	for _, run := range c.Runs {
		nt.Reset(false)
		ro, tree := nt.Tree(rotate(c.N, run.Root), star(c.N))
		in := formVec(ro.Aggregate, run.Data, c.Form)
		inKeys := cvKeys(in)
		setProto(ddtProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
			pi, err := protocolsunlynx.NewDeterministicTaggingProtocol(tni)
			if err != nil {
				return nil, err
			}
			p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
			w := nt.Who(tni.ServerIdentity().ID)
			p.SurveySecretKey = &secrets[w]
			if w == run.Other {
				p.SurveySecretKey = &others[w]
			}
			p.Proofs = c.Proofs
			if tni.IsRoot() {
				p.TargetOfSwitch = &in
			}
			return p, nil
		})
		defer faultMode(c.Timeout)()
		gone := allEnded(c.Timeout > 0)
		pi, err := nt.Local.CreateProtocol(ddtProto, tree)
		check(err)
		p := under(pi).(*protocolsunlynx.DeterministicTaggingProtocol)
		c.install(nt)
		go c.start(p.Start)
		var r []libunlynx.DeterministCipherText
		select {
		case r = <-p.FeedbackChannel:
		case <-gone:
			out = append(out, Obs{"data": run.Data, "other": run.Other, "tags": []int{}, "key": 0, "delivered": false, "results": 0, "untouched": true})
			continue
		}
		results := 1
		select {
		case <-p.FeedbackChannel:
			results++
		case <-time.After(secondWait):
		}
		tags := make([]int, len(r))
		for i := range r {
			tags[i] = ids.id(r[i].Point)
		}
		dv := libunlynx.DeterministCipherVector(r)
		k := string(dv.Key())
		if _, ok := keyIDs[k]; !ok {
			keyIDs[k] = len(keyIDs) + 1
		}
		un := true
		for i, x := range cvKeys(in) {
			un = un && x == inKeys[i]
		}
		out = append(out, Obs{"data": run.Data, "other": run.Other, "tags": tags, "key": keyIDs[k], "delivered": true, "results": results, "untouched": un})
	}
	o := Obs{"runs": out}
	c.conclude(o)
	return o
}

// ---------------------------------------------------------------- shuffling + tagging

type sddtCase struct {
	N      int         `json:"n"`
	Root   int         `json:"root"`
	Runs   [][][]int64 `json:"runs"`
	Proofs bool        `json:"proofs"`
	Pre    bool        `json:"pre"`
	Other  int         `json:"other"` // server whose secret differs in another survey
	Form   string      `json:"form"`
	faultSpec
}

func runSDDT(id string, raw json.RawMessage) Obs {
	var c sddtCase
	check(json.Unmarshal(raw, &c))
	nt := getNet(maxi(c.N, 4))
	secrets := make([]kyber.Scalar, c.N+1)
	for i := range secrets {
		secrets[i] = rndScalar()
	}
	order := rotate(c.N, c.Root)
	left := 0
	var tam *tamperer
	one := func(rows [][]int64, form string, proofs, pre bool, f faultSpec) ([]libunlynx.DeterministCipherVector, int, bool) {
		nt.Reset(false)
		ro, tree := nt.Tree(order, star(c.N))
		in := encMatrix(ro.Aggregate, rows, form)
		inKeys := matKeys(in)
		pres := map[int][]libunlynxshuffle.CipherVectorScalar{}
		if pre {
			// the ring starts after the root; each server's tagging removes its key
			key := ro.Aggregate.Clone()
			for k := 1; k <= c.N; k++ {
				s := order[k%c.N]
				pres[s] = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), key, libunlynx.SuiTe.RandomStream(), ncols(rows)+1, 4)
				key = libunlynx.SuiTe.Point().Sub(key, nt.Servers[s-1].ServerIdentity.Public)
			}
		}
		setProto(sddtProto, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
			pi, err := protocolsunlynx.NewShufflingPlusDDTProtocol(tni)
			if err != nil {
				return nil, err
			}
			p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
			w := nt.Who(tni.ServerIdentity().ID)
			p.SurveySecretKey = &secrets[w]
			p.Proofs = proofs
			p.Precomputed = pres[w]
			if tni.IsRoot() {
				p.TargetData = &in
			}
			return p, nil
		})
		defer faultMode(f.Timeout)()
		if f.Timeout > 0 {
			defer func() {
				<-allEnded(true)
				left = unended()
			}()
		}
		gone := allEnded(f.Timeout > 0)
		pi, err := nt.Local.CreateProtocol(sddtProto, tree)
		check(err)
		p := under(pi).(*protocolsunlynx.ShufflingPlusDDTProtocol)
		f.install(nt)
		if nt.tamper != nil {
			tam = nt.tamper
		}
		go c.start(p.Start)
		var r []libunlynx.DeterministCipherVector
		select {
		case r = <-p.FeedbackChannel:
		case <-gone:
			return nil, 0, true
		}
		results := 1
		select {
		case <-p.FeedbackChannel:
			results++
		case <-time.After(secondWait):
		}
		return r, results, sameKeys(inKeys, matKeys(in))
	}
	// reference tags: every value alone, one row, one column
	vals := map[int64]bool{}
	for _, rows := range c.Runs {
		for _, r := range rows {
			for _, v := range r {
				vals[v] = true
			}
		}
	}
	var vs []int64
	for v := range vals {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	back := map[string]int64{}
	inj := true
	for _, v := range vs {
		r, _, _ := one([][]int64{{v}}, "", false, false, faultSpec{})
		if len(r) != 1 || len(r[0]) != 1 {
			return Obs{"runs": []Obs{}, "inj": false}
		}
		k := pkey(r[0][0].Point)
		if _, dup := back[k]; dup {
			inj = false
		}
		back[k] = v
	}
	out := make([]Obs, 0)
	for _, rows := range c.Runs {
		r, results, un := one(rows, c.Form, c.Proofs, c.Pre, c.faultSpec)
		res := make([][]int64, len(r))
		for i := range r {
			res[i] = make([]int64, len(r[i]))
			for j := range r[i] {
				v, ok := back[pkey(r[i][j].Point)]
				if !ok {
					v = NoValue
				}
				res[i][j] = v
			}
		}
		out = append(out, Obs{"rows": rows, "res": res, "delivered": results > 0, "results": results, "untouched": un})
	}
	// the same values in another survey, in which one server has another secret: no tag comes back
	linked := false
	if c.Other > 0 {
		secrets[c.Other] = rndScalar()
		for _, v := range vs {
			r, _, _ := one([][]int64{{v}}, "", false, false, faultSpec{})
			_, known := back[pkey(r[0][0].Point)]
			linked = linked || known
		}
	}
	o := Obs{"runs": out, "inj": inj, "linked": linked, "fault": c.Timeout > 0, "unended": left, "tampered": ""}
	if tam != nil {
		tam.report(o)
	}
	return o
}
