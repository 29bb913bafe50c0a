package main

import (
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
	"go.dedis.ch/kyber/v3/suites"
)

// Proofs of operations performed with the real code, published, changed by somebody and verified.

func init() { families["proof"] = runProof }

// ---------------------------------------------------------------------------------------------------------- spy
// spySuite records what anybody verifying a proof can compute: names of hash functions, challenges and responses.
type spySuite struct {
	suites.Suite
	mu    sync.Mutex
	on    bool
	seeds [][]byte
	chal  []kyber.Scalar
	sigma []kyber.Scalar
	tau   kyber.Scalar
	picks []kyber.Scalar
}

// spyXOF records what would be picked from a hash function
type spyXOF struct {
	kyber.XOF
	s *spySuite
}

func (x *spyXOF) note() {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	if x.s.on && len(x.s.picks) < 400 {
		x.s.picks = append(x.s.picks, x.s.Suite.Scalar().Pick(x.XOF.Clone()))
	}
}
func (x *spyXOF) XORKeyStream(dst, src []byte) {
	x.note()
	x.XOF.XORKeyStream(dst, src)
}
func (x *spyXOF) Read(b []byte) (int, error) {
	x.note()
	return x.XOF.Read(b)
}
func (x *spyXOF) Clone() kyber.XOF { return &spyXOF{x.XOF.Clone(), x.s} }

var spy *spySuite

func (s *spySuite) XOF(seed []byte) kyber.XOF {
	s.mu.Lock()
	if s.on {
		s.seeds = append(s.seeds, append([]byte{}, seed...))
	}
	s.mu.Unlock()
	return &spyXOF{s.Suite.XOF(seed), s}
}

func (s *spySuite) Read(r io.Reader, objs ...interface{}) error {
	err := s.Suite.Read(r, objs...)
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.on || err != nil {
		return err
	}
	for _, o := range objs {
		if _, ok := r.(kyber.XOF); ok {
			if c, ok := o.(kyber.Scalar); ok {
				s.chal = append(s.chal, c.Clone())
			}
			continue
		}
		v := reflect.ValueOf(o)
		if v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
			if f := v.Elem().FieldByName("Zsigma"); f.IsValid() {
				if x, ok := f.Interface().([]kyber.Scalar); ok {
					s.sigma = x
				}
				if x, ok := v.Elem().FieldByName("Ztau").Interface().(kyber.Scalar); ok {
					s.tau = x
				}
			}
		}
	}
	return err
}

func (s *spySuite) watch(f func()) {
	s.mu.Lock()
	s.on, s.seeds, s.chal, s.sigma, s.tau, s.picks = true, nil, nil, nil, nil, nil
	s.mu.Unlock()
	f()
	s.mu.Lock()
	s.on = false
	s.mu.Unlock()
}

// ------------------------------------------------------------------------------------------------------ operations
type slotMap map[string]*kyber.Point

type operation interface {
	create() error
	size() int
	in(i int) slotMap // what element i is created from
	inCommon() slotMap
	out(i int) slotMap // what is published about element i
	outCommon() slotMap
	extra() string
	flip()
	bytes(i int) *[]byte
	swap(i, j int)
	drop(i int)
	dup(i int)
	one(i int) bool
	all(pct float64) bool
	wire() error
	state() string // everything the operation was given
}

func padd(a, b kyber.Point) kyber.Point              { return libunlynx.SuiTe.Point().Add(a, b) }
func psub(a, b kyber.Point) kyber.Point              { return libunlynx.SuiTe.Point().Sub(a, b) }
func pmul(s kyber.Scalar, p kyber.Point) kyber.Point { return libunlynx.SuiTe.Point().Mul(s, p) }

func statement(m, common slotMap, extra string) string {
	var l []string
	for _, x := range []slotMap{m, common} {
		for k, p := range x {
			v := "nil"
			if *p != nil {
				v = pkey(*p)
			}
			l = append(l, k+"="+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";") + extra
}

func vecSlots(m slotMap, name string, cv libunlynx.CipherVector) {
	for i := range cv {
		m[fmt.Sprintf("%s.%d.K", name, i)] = &cv[i].K
		m[fmt.Sprintf("%s.%d.C", name, i)] = &cv[i].C
	}
}

func matSlots(m slotMap, name string, rows []libunlynx.CipherVector) {
	for i := range rows {
		vecSlots(m, fmt.Sprintf("%s.%d", name, i), rows[i])
	}
}

func slotState(ms ...slotMap) string {
	r := ""
	for _, m := range ms {
		r += statement(m, nil, "|")
	}
	return r
}

// key switching
type ksOp struct {
	k, _q        kyber.Scalar
	K, Q         kyber.Point
	ks2s, rBNegs []kyber.Point
	vis          []kyber.Scalar
	viBs         []kyber.Point
	pub          libunlynxkeyswitch.PublishedKSListProof
	none         map[string]bool
}

func newKS(vals []int64, form string) *ksOp {
	o := &ksOp{}
	o.k, o.K = keypair()
	o._q, o.Q = keypair()
	cv := formVec(o.K, vals, form)
	rBs := make([]kyber.Point, len(cv))
	for i := range cv {
		rBs[i] = cv[i].K
	}
	_, o.ks2s, o.rBNegs, o.vis = libunlynxkeyswitch.KeySwitchSequence(o.Q, rBs, o.k)
	o.viBs = make([]kyber.Point, len(cv))
	for i := range o.vis {
		o.viBs[i] = pmul(o.vis[i], nil)
	}
	return o
}
func (o *ksOp) create() (err error) {
	o.pub, err = libunlynxkeyswitch.KeySwitchListProofCreation(o.K, o.Q, o.k, o.ks2s, o.rBNegs, o.vis)
	return
}
func (o *ksOp) size() int { return len(o.pub.List) }
func (o *ksOp) in(i int) slotMap {
	return slotMap{"s": &o.ks2s[i], "r": &o.rBNegs[i], "v": &o.viBs[i], "K": &o.K, "Q": &o.Q}
}
func (o *ksOp) inCommon() slotMap { return slotMap{} }
func (o *ksOp) out(i int) slotMap {
	e := &o.pub.List[i]
	return slotMap{"K": &e.K, "v": &e.ViB, "s": &e.Ks2, "r": &e.RbNeg, "Q": &e.Q}
}
func (o *ksOp) outCommon() slotMap  { return slotMap{} }
func (o *ksOp) extra() string       { return "" }
func (o *ksOp) flip()               {}
func (o *ksOp) bytes(i int) *[]byte { return &o.pub.List[i].Proof }
func (o *ksOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *ksOp) drop(i int) {
	o.pub.List = append(append([]libunlynxkeyswitch.PublishedKSProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *ksOp) dup(i int)      { o.pub.List = append(o.pub.List, o.pub.List[i]) }
func (o *ksOp) one(i int) bool { return libunlynxkeyswitch.KeySwitchProofVerification(o.pub.List[i]) }
func (o *ksOp) all(pct float64) bool {
	return libunlynxkeyswitch.KeySwitchListProofVerification(o.pub, pct)
}
func (o *ksOp) wire() error {
	b, err := o.pub.ToBytes()
	if err != nil {
		return err
	}
	o.pub = libunlynxkeyswitch.PublishedKSListProof{}
	return o.pub.FromBytes(b)
}
func (o *ksOp) state() string {
	r := fmt.Sprint(o.k, o.vis)
	for i := range o.ks2s {
		r += slotState(o.in(i))
	}
	return r
}

// deterministic tagging, creation
type ddtOp struct {
	k, s     kyber.Scalar
	K, SB    kyber.Point
	bef, aft libunlynx.CipherVector
	cs       []kyber.Point
	pub      libunlynxdetertag.PublishedDDTCreationListProof
	direct   bool
}

func newDDT(vals []int64, form string, direct bool) *ddtOp {
	o := &ddtOp{direct: direct}
	o.k, o.K = keypair()
	o.s, o.SB = keypair()
	o.bef = formVec(o.K, vals, form)
	o.aft = libunlynxdetertag.DeterministicTagSequence(o.bef, o.k, o.s)
	for i := range o.bef {
		o.cs = append(o.cs, libunlynx.SuiTe.Point().Neg(pmul(o.s, o.bef[i].K)))
	}
	return o
}
func (o *ddtOp) create() error {
	if o.direct {
		key, p, err := libunlynxdetertag.CipherVectorToDeterministicTag(o.bef, o.k, o.s, o.K, true)
		if err != nil {
			return err
		}
		want := make(libunlynx.DeterministCipherVector, len(o.aft))
		for i := range o.aft {
			want[i].Point = o.aft[i].C
		}
		if key != want.Key() {
			return fmt.Errorf("another tag with proofs")
		}
		o.pub = *p
		return nil
	}
	var err error
	o.pub, err = libunlynxdetertag.DeterministicTagCrListProofCreation(o.bef, o.aft, o.K, o.k, o.s)
	return err
}
func (o *ddtOp) size() int { return len(o.pub.List) }
func (o *ddtOp) in(i int) slotMap {
	return slotMap{"bK": &o.bef[i].K, "bC": &o.bef[i].C, "aK": &o.aft[i].K, "aC": &o.aft[i].C, "cs": &o.cs[i]}
}
func (o *ddtOp) inCommon() slotMap { return slotMap{"K": &o.K, "SB": &o.SB} }
func (o *ddtOp) out(i int) slotMap {
	e := &o.pub.List[i]
	return slotMap{"bK": &e.CTbef.K, "bC": &e.CTbef.C, "aK": &e.CTaft.K, "aC": &e.CTaft.C, "cs": &e.Ciminus11Si}
}
func (o *ddtOp) outCommon() slotMap  { return slotMap{"K": &o.pub.K, "SB": &o.pub.SB} }
func (o *ddtOp) extra() string       { return "" }
func (o *ddtOp) flip()               {}
func (o *ddtOp) bytes(i int) *[]byte { return &o.pub.List[i].Proof }
func (o *ddtOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *ddtOp) drop(i int) {
	o.pub.List = append(append([]libunlynxdetertag.PublishedDDTCreationProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *ddtOp) dup(i int) { o.pub.List = append(o.pub.List, o.pub.List[i]) }
func (o *ddtOp) one(i int) bool {
	return libunlynxdetertag.DeterministicTagCrProofVerification(o.pub.List[i], o.pub.K, o.pub.SB)
}
func (o *ddtOp) all(pct float64) bool {
	return libunlynxdetertag.DeterministicTagCrListProofVerification(o.pub, pct)
}
func (o *ddtOp) wire() error { return nil }
func (o *ddtOp) state() string {
	r := fmt.Sprint(o.k, o.s) + slotState(o.inCommon())
	for i := range o.bef {
		r += slotState(o.in(i))
	}
	return r
}

// deterministic tagging, addition
type addOp struct {
	s          []kyber.Scalar
	c1, c2, r  []kyber.Point
	pub        libunlynxdetertag.PublishedDDTAdditionListProof
	singleMade bool
}

func newAdd(vals []int64, form string, single bool) *addOp {
	o := &addOp{singleMade: single}
	_, K := keypair()
	cv := formVec(K, vals, form)
	s0 := rndScalar()
	for i := range cv {
		s := s0
		if form == "mix" {
			s = rndScalar()
		}
		o.s = append(o.s, s)
		o.c1 = append(o.c1, cv[i].C)
		o.c2 = append(o.c2, pmul(s, nil))
		o.r = append(o.r, padd(o.c1[i], o.c2[i]))
	}
	return o
}
func (o *addOp) create() (err error) {
	if o.singleMade {
		o.pub = libunlynxdetertag.PublishedDDTAdditionListProof{}
		for i := range o.c1 {
			p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(o.c1[i], o.s[i], o.c2[i], o.r[i])
			if err != nil {
				return err
			}
			o.pub.List = append(o.pub.List, p)
		}
		return nil
	}
	o.pub, err = libunlynxdetertag.DeterministicTagAdditionListProofCreation(o.c1, o.s, o.c2, o.r)
	return
}
func (o *addOp) size() int         { return len(o.pub.List) }
func (o *addOp) in(i int) slotMap  { return slotMap{"c1": &o.c1[i], "c2": &o.c2[i], "r": &o.r[i]} }
func (o *addOp) inCommon() slotMap { return slotMap{} }
func (o *addOp) out(i int) slotMap {
	e := &o.pub.List[i]
	return slotMap{"c1": &e.C1, "c2": &e.C2, "r": &e.R}
}
func (o *addOp) outCommon() slotMap  { return slotMap{} }
func (o *addOp) extra() string       { return "" }
func (o *addOp) flip()               {}
func (o *addOp) bytes(i int) *[]byte { return &o.pub.List[i].Proof }
func (o *addOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *addOp) drop(i int) {
	o.pub.List = append(append([]libunlynxdetertag.PublishedDDTAdditionProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *addOp) dup(i int) { o.pub.List = append(o.pub.List, o.pub.List[i]) }
func (o *addOp) one(i int) bool {
	return libunlynxdetertag.DeterministicTagAdditionProofVerification(o.pub.List[i])
}
func (o *addOp) all(pct float64) bool {
	return libunlynxdetertag.DeterministicTagAdditionListProofVerification(o.pub, pct)
}
func (o *addOp) wire() error { return nil }
func (o *addOp) state() string {
	r := fmt.Sprint(o.s)
	for i := range o.c1 {
		r += slotState(o.in(i))
	}
	return r
}

// adding or removing a server
type armOp struct {
	k        kyber.Scalar
	K        kyber.Point
	toAdd    bool
	bef, aft libunlynx.CipherVector
	pub      libunlynxaddrm.PublishedAddRmListProof
}

func newArm(vals []int64, form string, toAdd bool) *armOp {
	o := &armOp{toAdd: toAdd}
	o.k, o.K = keypair()
	_, col := keypair()
	o.bef = formVec(col, vals, form)
	for _, c := range o.bef {
		x := pmul(o.k, c.K)
		n := libunlynx.CipherText{K: c.K}
		if toAdd {
			n.C = padd(c.C, x)
		} else {
			n.C = psub(c.C, x)
		}
		o.aft = append(o.aft, n)
	}
	return o
}
func (o *armOp) create() (err error) {
	o.pub, err = libunlynxaddrm.AddRmListProofCreation(o.bef, o.aft, o.K, o.k, o.toAdd)
	return
}
func (o *armOp) size() int { return len(o.pub.List) }
func (o *armOp) in(i int) slotMap {
	return slotMap{"bK": &o.bef[i].K, "bC": &o.bef[i].C, "aK": &o.aft[i].K, "aC": &o.aft[i].C, "rB": &o.bef[i].K}
}
func (o *armOp) inCommon() slotMap { return slotMap{"K": &o.K} }
func (o *armOp) out(i int) slotMap {
	e := &o.pub.List[i]
	return slotMap{"bK": &e.CtBef.K, "bC": &e.CtBef.C, "aK": &e.CtAft.K, "aC": &e.CtAft.C, "rB": &e.RB}
}
func (o *armOp) outCommon() slotMap  { return slotMap{"K": &o.pub.Krm} }
func (o *armOp) extra() string       { return fmt.Sprint(o.pub.ToAdd) }
func (o *armOp) flip()               { o.pub.ToAdd = !o.pub.ToAdd }
func (o *armOp) bytes(i int) *[]byte { return &o.pub.List[i].Proof }
func (o *armOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *armOp) drop(i int) {
	o.pub.List = append(append([]libunlynxaddrm.PublishedAddRmProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *armOp) dup(i int) { o.pub.List = append(o.pub.List, o.pub.List[i]) }
func (o *armOp) one(i int) bool {
	return libunlynxaddrm.AddRmProofVerification(o.pub.List[i], o.pub.Krm, o.pub.ToAdd)
}
func (o *armOp) all(pct float64) bool { return libunlynxaddrm.AddRmListProofVerification(o.pub, pct) }
func (o *armOp) wire() error          { return nil }
func (o *armOp) state() string {
	r := fmt.Sprint(o.k) + slotState(o.inCommon())
	for i := range o.bef {
		r += slotState(o.in(i))
	}
	return r
}

// aggregation
type aggOp struct {
	data []libunlynx.CipherVector
	res  []libunlynx.CipherText
	pub  libunlynxaggr.PublishedAggregationListProof
}

func newAgg(n, width int, vals []int64, form string) *aggOp {
	o := &aggOp{}
	_, K := keypair()
	for i := 0; i < n; i++ {
		v := make([]int64, width)
		for j := range v {
			v[j] = vals[(i+j)%len(vals)]
		}
		cv := formVec(K, v, form)
		o.data = append(o.data, cv)
		sum := libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: libunlynx.SuiTe.Point().Null()}
		for _, c := range cv {
			sum = libunlynx.CipherText{K: padd(sum.K, c.K), C: padd(sum.C, c.C)}
		}
		o.res = append(o.res, sum)
	}
	return o
}
func (o *aggOp) create() error {
	o.pub = libunlynxaggr.AggregationListProofCreation(o.data, o.res)
	// published independently of what it was created from
	for i := range o.pub.List {
		o.pub.List[i].Data = append(libunlynx.CipherVector{}, o.pub.List[i].Data...)
	}
	return nil
}
func (o *aggOp) size() int { return len(o.pub.List) }
func (o *aggOp) in(i int) slotMap {
	m := slotMap{"rK": &o.res[i].K, "rC": &o.res[i].C}
	vecSlots(m, "d", o.data[i])
	return m
}
func (o *aggOp) inCommon() slotMap { return slotMap{} }
func (o *aggOp) out(i int) slotMap {
	m := slotMap{"rK": &o.pub.List[i].AggregationResult.K, "rC": &o.pub.List[i].AggregationResult.C}
	vecSlots(m, "d", o.pub.List[i].Data)
	return m
}
func (o *aggOp) outCommon() slotMap  { return slotMap{} }
func (o *aggOp) extra() string       { return "" }
func (o *aggOp) flip()               {}
func (o *aggOp) bytes(i int) *[]byte { return nil }
func (o *aggOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *aggOp) drop(i int) {
	o.pub.List = append(append([]libunlynxaggr.PublishedAggregationProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *aggOp) dup(i int)      { o.pub.List = append(o.pub.List, o.pub.List[i]) }
func (o *aggOp) one(i int) bool { return libunlynxaggr.AggregationProofVerification(o.pub.List[i]) }
func (o *aggOp) all(pct float64) bool {
	return libunlynxaggr.AggregationListProofVerification(o.pub, pct)
}
func (o *aggOp) wire() error {
	b, err := o.pub.ToBytes()
	if err != nil {
		return err
	}
	o.pub = libunlynxaggr.PublishedAggregationListProof{}
	return o.pub.FromBytes(b)
}
func (o *aggOp) truth(i int) bool {
	k, c := libunlynx.SuiTe.Point().Null(), libunlynx.SuiTe.Point().Null()
	for _, x := range o.pub.List[i].Data {
		k, c = padd(k, x.K), padd(c, x.C)
	}
	r := o.pub.List[i].AggregationResult
	return pkey(k) == pkey(r.K) && pkey(c) == pkey(r.C)
}
func (o *aggOp) state() string {
	r := ""
	for i := range o.data {
		r += slotState(o.in(i))
	}
	return r
}

// shuffling
type shufOp struct {
	g      kyber.Point
	hs     []kyber.Point
	h      kyber.Point
	gs     []kyber.Point
	orig   [][]libunlynx.CipherVector
	shuf   [][]libunlynx.CipherVector
	pi     [][]int
	beta   [][][]kyber.Scalar
	pub    libunlynxshuffle.PublishedShufflingListProof
	single bool
	plain  [][][]int64
}

// same tells whether exchanging the first and the last column gives the same rows
func same(m [][]int64) bool {
	n := map[string]int{}
	for _, r := range m {
		n[fmt.Sprint(r)]++
		x := append([]int64{}, r...)
		x[0], x[len(x)-1] = x[len(x)-1], x[0]
		n[fmt.Sprint(x)]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func copyMat(m []libunlynx.CipherVector) []libunlynx.CipherVector {
	r := make([]libunlynx.CipherVector, len(m))
	for i := range m {
		r[i] = append(libunlynx.CipherVector{}, m[i]...)
	}
	return r
}

func newShuf(n, rows, cols int, vals []int64, form string, pre, single bool) *shufOp {
	_, h := keypair()
	return newShufFor(h, n, rows, cols, vals, form, pre, single)
}

func newShufFor(h kyber.Point, n, rows, cols int, vals []int64, form string, pre, single bool) *shufOp {
	o := &shufOp{g: libunlynx.SuiTe.Point().Base(), single: single, h: h}
	for i := 0; i < n; i++ {
		var m []libunlynx.CipherVector
		flat := make([]int64, rows*cols)
		for j := range flat {
			flat[j] = vals[(i+j)%len(vals)]
		}
		cv := formVec(o.h, flat, form)
		for r := 0; r < rows; r++ {
			m = append(m, append(libunlynx.CipherVector{}, cv[r*cols:(r+1)*cols]...))
		}
		if form == "mix" && cols > 1 && i == 0 {
			m[0][cols-1] = m[0][0]
			flat[cols-1] = flat[0]
		}
		var plain [][]int64
		for r := 0; r < rows; r++ {
			plain = append(plain, flat[r*cols:(r+1)*cols])
		}
		o.plain = append(o.plain, plain)
		var lines []libunlynxshuffle.CipherVectorScalar
		if pre {
			lines = libunlynxshuffle.CreatePrecomputedRandomize(o.g, o.h, libunlynx.SuiTe.RandomStream(), cols+1, 3)
		}
		out, pi, beta := libunlynxshuffle.ShuffleSequence(m, o.g, o.h, lines)
		o.orig, o.shuf, o.pi, o.beta = append(o.orig, m), append(o.shuf, out), append(o.pi, pi), append(o.beta, beta)
		o.hs, o.gs = append(o.hs, o.h), append(o.gs, o.g)
	}
	return o
}
func (o *shufOp) create() (err error) {
	if o.single {
		o.pub = libunlynxshuffle.PublishedShufflingListProof{}
		for i := range o.orig {
			p, err := libunlynxshuffle.ShuffleProofCreation(o.orig[i], o.shuf[i], o.gs[i], o.hs[i], o.beta[i], o.pi[i])
			if err != nil {
				return err
			}
			o.pub.List = append(o.pub.List, p)
		}
	} else if o.pub, err = libunlynxshuffle.ShuffleListProofCreation(o.orig, o.shuf, o.gs, o.hs, o.beta, o.pi); err != nil {
		return err
	}
	for i := range o.pub.List {
		o.pub.List[i].OriginalList, o.pub.List[i].ShuffledList = copyMat(o.pub.List[i].OriginalList), copyMat(o.pub.List[i].ShuffledList)
	}
	return nil
}
func (o *shufOp) size() int { return len(o.pub.List) }
func (o *shufOp) in(i int) slotMap {
	m := slotMap{"G": &o.gs[i], "H": &o.hs[i]}
	matSlots(m, "o", o.orig[i])
	matSlots(m, "s", o.shuf[i])
	return m
}
func (o *shufOp) inCommon() slotMap { return slotMap{} }
func (o *shufOp) out(i int) slotMap {
	m := slotMap{"G": &o.pub.List[i].G, "H": &o.pub.List[i].H}
	matSlots(m, "o", o.pub.List[i].OriginalList)
	matSlots(m, "s", o.pub.List[i].ShuffledList)
	return m
}
func (o *shufOp) outCommon() slotMap  { return slotMap{} }
func (o *shufOp) extra() string       { return "" }
func (o *shufOp) flip()               {}
func (o *shufOp) bytes(i int) *[]byte { return &o.pub.List[i].HashProof }
func (o *shufOp) swap(i, j int)       { o.pub.List[i], o.pub.List[j] = o.pub.List[j], o.pub.List[i] }
func (o *shufOp) drop(i int) {
	o.pub.List = append(append([]libunlynxshuffle.PublishedShufflingProof{}, o.pub.List[:i]...), o.pub.List[i+1:]...)
}
func (o *shufOp) dup(i int) {
	e := o.pub.List[i]
	e.OriginalList, e.ShuffledList = copyMat(e.OriginalList), copyMat(e.ShuffledList)
	o.pub.List = append(o.pub.List, e)
}
func (o *shufOp) one(i int) bool {
	return libunlynxshuffle.ShuffleProofVerification(o.pub.List[i], o.h)
}
func (o *shufOp) all(pct float64) bool {
	return libunlynxshuffle.ShuffleListProofVerification(o.pub, o.h, pct)
}
func (o *shufOp) wire() error {
	for i := range o.pub.List {
		b, err := o.pub.List[i].ToBytes()
		if err != nil {
			return err
		}
		o.pub.List[i] = libunlynxshuffle.PublishedShufflingProof{}
		if err := o.pub.List[i].FromBytes(b); err != nil {
			return err
		}
	}
	return nil
}
func (o *shufOp) state() string {
	r := fmt.Sprint(o.pi, o.beta)
	for i := range o.orig {
		r += slotState(o.in(i))
	}
	return r
}

// ---------------------------------------------------------------------------------------------------------- changes
type proofAlt struct {
	When string `json:"when"` // pre, post
	How  string `json:"how"`
	El   int    `json:"el"`
	El2  int    `json:"el2"`
	F    int    `json:"f"`
	F2   int    `json:"f2"`
}

type proofCase struct {
	Typ    string     `json:"typ"`
	N      int        `json:"n"`
	Rows   int        `json:"rows"`
	Cols   int        `json:"cols"`
	Vals   []int64    `json:"vals"`
	Form   string     `json:"form"`
	Pct    float64    `json:"pct"`
	Wire   bool       `json:"wire"`
	Single bool       `json:"single"`
	ToAdd  bool       `json:"toadd"`
	Alts   []proofAlt `json:"alts"`
}

func sortedSlots(ms ...slotMap) ([]string, slotMap) {
	all := slotMap{}
	var names []string
	for _, m := range ms {
		for k, v := range m {
			all[k] = v
			names = append(names, k)
		}
	}
	sort.Strings(names)
	return names, all
}

func changedPoint(how string, p, other kyber.Point) kyber.Point {
	switch how {
	case "null":
		return libunlynx.SuiTe.Point().Null()
	case "neg":
		return libunlynx.SuiTe.Point().Neg(p)
	case "dbl":
		return padd(p, p)
	case "plusB":
		return padd(p, libunlynx.SuiTe.Point().Base())
	case "other":
		return other.Clone()
	}
	return rndPoint()
}

// alterSlots changes one point of what is stated about an element
func alterSlots(a proofAlt, mine, others []slotMap) string {
	names, s := sortedSlots(mine...)
	if len(names) == 0 {
		return ""
	}
	f := names[a.F%len(names)]
	var other kyber.Point
	switch {
	case a.How == "field":
		other = *s[names[a.F2%len(names)]]
		a.How = "other"
	case a.How == "other":
		_, s2 := sortedSlots(others...)
		if q, ok := s2[f]; ok {
			other = *q
		} else {
			other = *s[f]
		}
	}
	*s[f] = changedPoint(a.How, *s[f], other)
	return f
}

func scalarsOf(b []byte, m, r int) []kyber.Scalar {
	if len(b) < 32*(m+r) {
		return nil
	}
	var out []kyber.Scalar
	for i := 0; i < r; i++ {
		s := libunlynx.SuiTe.Scalar()
		if s.UnmarshalBinary(b[32*(m+i):32*(m+i+1)]) != nil {
			return nil
		}
		out = append(out, s)
	}
	return out
}

func neg(s kyber.Scalar) kyber.Scalar { return libunlynx.SuiTe.Scalar().Neg(s) }
func quo(a, b kyber.Scalar) kyber.Scalar {
	return libunlynx.SuiTe.Scalar().Div(a, b)
}

// forge changes a published element such that the equations of the proof still hold with the challenge of the original
// element, which fools a verifier whose challenge does not depend on all of it.
func forge(o operation, a proofAlt) string {
	i := a.El
	spy.watch(func() { o.one(i) })
	D := rndPoint()
	if _, ok := o.(*shufOp); !ok && len(spy.chal) == 0 {
		return "no challenge"
	}
	var c kyber.Scalar
	if len(spy.chal) > 0 {
		c = spy.chal[len(spy.chal)-1]
	}
	switch x := o.(type) {
	case *ksOp:
		e := &x.pub.List[i]
		r := scalarsOf(e.Proof, 3, 2)
		if r == nil {
			return "unknown format"
		}
		rv, rk := r[a.F%2], r[1-a.F%2]
		switch a.F2 % 3 {
		case 0:
			e.Q, e.Ks2 = padd(e.Q, D), psub(e.Ks2, pmul(quo(rv, c), D))
		case 1:
			e.RbNeg, e.Ks2 = padd(e.RbNeg, D), psub(e.Ks2, pmul(quo(rk, c), D))
		case 2:
			e.Q, e.RbNeg = padd(e.Q, D), psub(e.RbNeg, pmul(quo(rv, rk), D))
		}
	case *ddtOp:
		e := &x.pub.List[i]
		r := scalarsOf(e.Proof, 4, 2)
		if r == nil {
			return "unknown format"
		}
		rs, rk := r[a.F%2], r[1-a.F%2]
		switch a.F2 % 3 {
		case 0:
			e.CTbef.C, e.CTaft.C = padd(e.CTbef.C, D), psub(e.CTaft.C, pmul(quo(rs, c), D))
		case 1:
			e.Ciminus11Si, e.CTaft.C = padd(e.Ciminus11Si, D), psub(e.CTaft.C, pmul(quo(rk, c), D))
		case 2: // consistent with cs = -aK
			d := pmul(quo(rs, c), D)
			e.CTbef.K, e.CTaft.K, e.Ciminus11Si = padd(e.CTbef.K, D), psub(e.CTaft.K, d), padd(e.Ciminus11Si, d)
			e.CTaft.C = psub(e.CTaft.C, pmul(quo(rk, c), d))
		}
	case *addOp:
		e := &x.pub.List[i]
		e.C1, e.R = padd(e.C1, D), padd(e.R, D)
	case *armOp:
		e := &x.pub.List[i]
		r := scalarsOf(e.Proof, 2, 1)
		if r == nil {
			return "unknown format"
		}
		switch a.F2 % 3 {
		case 0:
			e.CtBef.C, e.CtAft.C = padd(e.CtBef.C, D), padd(e.CtAft.C, D)
		case 1:
			d := pmul(quo(r[0], c), D)
			e.CtBef.K, e.CtAft.K, e.RB = padd(e.CtBef.K, D), padd(e.CtAft.K, D), padd(e.RB, D)
			if x.pub.ToAdd {
				e.CtAft.C = psub(e.CtAft.C, d)
			} else {
				e.CtAft.C = padd(e.CtAft.C, d)
			}
		case 2:
			e.CtAft.K = padd(e.CtAft.K, D)
		}
	case *shufOp:
		e := &x.pub.List[i]
		if len(e.ShuffledList) == 0 || len(e.ShuffledList) > len(x.pi[i%len(x.pi)]) {
			return "other shape"
		}
		r := a.F2 % len(e.ShuffledList)
		if len(e.ShuffledList[r]) == 0 {
			return "other shape"
		}
		// a key that makes up for a wrong element: with the challenges of the wrong list, the right one is proven
		j := a.F % len(e.ShuffledList[r])
		e.ShuffledList[r][j].C = padd(e.ShuffledList[r][j].C, D)
		return x.forgeKey(i, r, j, D)
	}
	return ""
}

// alterOutput changes the output of a shuffle, before it is proven, where the compression of the rows may not see it
func (o *shufOp) alterOutput(a proofAlt) bool {
	list, orig := o.shuf[a.El], o.orig[a.El]
	r := a.F2 % len(list)
	cols := len(list[r])
	if cols < 2 {
		return false
	}
	D := rndPoint()
	switch a.How {
	case "move": // from one column to another
		list[r][0].C, list[r][cols-1].C = padd(list[r][0].C, D), psub(list[r][cols-1].C, D)
	case "swapcols":
		if same(o.plain[a.El]) { // it would be another right shuffle
			return true
		}
		for k := range list {
			list[k][0], list[k][cols-1] = list[k][cols-1], list[k][0]
			b := o.beta[a.El]
			b[k] = append([]kyber.Scalar{}, b[k]...)
			b[k][0], b[k][cols-1] = b[k][cols-1], b[k][0]
		}
	case "lincomb": // the challenges would be known beforehand
		es, err := libunlynxshuffle.CipherVectorComputeE(o.h, orig[0])
		if err != nil {
			return false
		}
		list[r][0].C, list[r][1].C = padd(list[r][0].C, pmul(es[1], D)), psub(list[r][1].C, pmul(es[0], D))
	default:
		return false
	}
	return true
}

// forgeKey proves a wrong shuffle and chooses the key H after the challenges such that it makes up for the wrong element.
func (o *shufOp) forgeKey(i, r, j int, D kyber.Point) string {
	e := &o.pub.List[i]
	p, err := libunlynxshuffle.ShuffleProofCreation(e.OriginalList, e.ShuffledList, e.G, e.H, o.beta[i], o.pi[i])
	if err != nil {
		return "refused"
	}
	e.HashProof = p.HashProof
	spy.watch(func() { o.one(i) })
	if spy.tau == nil || len(spy.sigma) <= r {
		return "no responses"
	}
	old, f, cands := e.H, quo(spy.sigma[r], spy.tau), spy.picks
	seen := map[string]bool{}
	for _, ej := range cands { // one of them is the challenge of the column
		if seen[ej.String()] {
			continue
		}
		seen[ej.String()] = true
		e.H = padd(old, pmul(libunlynx.SuiTe.Scalar().Mul(f, ej), D))
		if o.one(i) {
			return ""
		}
	}
	return ""
}

// columns changes two columns of one row such that what the row is compressed to stays the same, if the challenges of the
// columns do not depend on what is changed.
func columns(o operation, a proofAlt) string {
	x, ok := o.(*shufOp)
	if !ok {
		return "no columns"
	}
	e := &x.pub.List[a.El]
	list := e.ShuffledList
	if a.F%2 == 1 {
		list = e.OriginalList
	}
	if len(list) == 0 {
		return "other shape"
	}
	r := a.F2 % len(list)
	cols := len(list[r])
	if cols < 2 {
		return "one column"
	}
	spy.watch(func() { o.one(a.El) })
	D := rndPoint()
	old := append(libunlynx.CipherVector{}, list[r]...)
	j := a.F / 4 % (cols - 1)
	one := libunlynx.SuiTe.Scalar().One()
	cands := append([]kyber.Scalar{one, one}, spy.picks...)
	for k := 0; k+1 < len(cands) && k < 60; k++ { // two of them are the challenges of the columns
		p, q := cands[k], cands[k+1]
		if a.F/2%2 == 0 {
			list[r][j].C, list[r][j+1].C = padd(old[j].C, pmul(q, D)), psub(old[j+1].C, pmul(p, D))
		} else {
			list[r][j].K, list[r][j+1].K = padd(old[j].K, pmul(q, D)), psub(old[j+1].K, pmul(p, D))
		}
		if o.one(a.El) {
			return ""
		}
	}
	return ""
}

// ownProof proves a false statement whose equations hold, under every name the verification of it uses
func ownProof(o operation, a proofAlt) string {
	i := a.El
	D := rndPoint()
	switch x := o.(type) {
	case *ddtOp:
		e := &x.pub.List[i]
		e.Ciminus11Si, e.CTaft.C = padd(e.Ciminus11Si, D), padd(e.CTaft.C, pmul(x.k, D))
		pred := proof.And(proof.And(proof.And(proof.And(proof.Rep("ci1", "s", "ciminus11"), proof.Rep("K", "k", "B")),
			proof.Rep("ci2", "s", "ciminus12", "k", "ciminus11Si")), proof.Rep("SB", "s", "B")))
		pval := map[string]kyber.Point{"B": libunlynx.SuiTe.Point().Base(), "K": x.pub.K, "SB": x.pub.SB, "ciminus11Si": e.Ciminus11Si,
			"ciminus12": e.CTbef.C, "ciminus11": e.CTbef.K, "ci2": e.CTaft.C, "ci1": e.CTaft.K}
		return tryNames(o, i, pred, map[string]kyber.Scalar{"k": x.k, "s": x.s}, pval)
	case *armOp:
		e := &x.pub.List[i]
		if a.F%2 == 0 {
			e.CtAft.K = padd(e.CtAft.K, D)
		} else {
			e.RB = padd(e.RB, D)
		}
		pred := proof.And(proof.And(proof.Rep("Krm", "k", "B"), proof.Rep("c2", "k", "rB")))
		c2 := psub(e.CtAft.C, e.CtBef.C)
		if !x.pub.ToAdd {
			c2 = psub(e.CtBef.C, e.CtAft.C)
		}
		pval := map[string]kyber.Point{"B": libunlynx.SuiTe.Point().Base(), "Krm": x.pub.Krm, "c2": c2, "rB": e.CtBef.K}
		return tryNames(o, i, pred, map[string]kyber.Scalar{"k": x.k}, pval)
	case *addOp:
		e := &x.pub.List[i]
		if a.F%2 == 0 {
			e.C1 = padd(e.C1, D)
		} else {
			e.R = padd(e.R, D)
		}
		pred := proof.And(proof.Rep("c2", "s", "B"))
		return tryNames(o, i, pred, map[string]kyber.Scalar{"s": x.s[i]}, map[string]kyber.Point{"B": libunlynx.SuiTe.Point().Base(), "c2": e.C2})
	}
	return forge(o, a)
}

// equation: left = sum of secrets times bases
type equation struct {
	left    kyber.Point
	secrets []string
	bases   []kyber.Point
}

// lateProof proves a statement of which one point is only chosen after the challenge, which fools a verifier whose
// challenge does not depend on that point.
func lateProof(o operation, a proofAlt) string {
	i, B := a.El, libunlynx.SuiTe.Point().Base()
	which := a.F
	switch x := o.(type) {
	case *ksOp:
		e := &x.pub.List[i]
		vi := x.vis[i%len(x.vis)]
		eqs := []equation{{e.ViB, []string{"vi"}, []kyber.Point{B}}, {e.K, []string{"k"}, []kyber.Point{B}},
			{e.Ks2, []string{"k", "vi"}, []kyber.Point{e.RbNeg, e.Q}}}
		vals := map[string]kyber.Scalar{"vi": vi, "k": x.k}
		switch which % 5 {
		case 0:
			return tryLate(o, i, eqs, vals, 0, -1, func(p kyber.Point) { e.ViB = p })
		case 1:
			return tryLate(o, i, eqs, vals, 1, -1, func(p kyber.Point) { e.K = p })
		case 2:
			return tryLate(o, i, eqs, vals, 2, -1, func(p kyber.Point) { e.Ks2 = p })
		case 3:
			return tryLate(o, i, eqs, vals, 2, 0, func(p kyber.Point) { e.RbNeg = p })
		case 4:
			return tryLate(o, i, eqs, vals, 2, 1, func(p kyber.Point) { e.Q = p })
		}
	case *ddtOp:
		e := &x.pub.List[i]
		eqs := []equation{{e.CTaft.K, []string{"s"}, []kyber.Point{e.CTbef.K}}, {x.pub.K, []string{"k"}, []kyber.Point{B}},
			{e.CTaft.C, []string{"s", "k"}, []kyber.Point{e.CTbef.C, e.Ciminus11Si}}, {x.pub.SB, []string{"s"}, []kyber.Point{B}}}
		vals := map[string]kyber.Scalar{"s": x.s, "k": x.k}
		switch which % 5 {
		case 0:
			return tryLate(o, i, eqs, vals, 0, 0, func(p kyber.Point) { e.CTbef.K = p })
		case 1:
			return tryLate(o, i, eqs, vals, 1, -1, func(p kyber.Point) { x.pub.K = p })
		case 2:
			return tryLate(o, i, eqs, vals, 2, -1, func(p kyber.Point) { e.CTaft.C = p })
		case 3:
			return tryLate(o, i, eqs, vals, 2, 0, func(p kyber.Point) { e.CTbef.C = p })
		case 4:
			return tryLate(o, i, eqs, vals, 3, -1, func(p kyber.Point) { x.pub.SB = p })
		}
	case *addOp:
		e := &x.pub.List[i]
		eqs := []equation{{e.C2, []string{"s"}, []kyber.Point{B}}}
		return tryLate(o, i, eqs, map[string]kyber.Scalar{"s": x.s[i%len(x.s)]}, 0, -1, func(p kyber.Point) {
			e.C2 = p
			if which%2 == 0 {
				e.R = padd(e.C1, p)
			} else {
				e.C1 = psub(e.R, p)
			}
		})
	case *armOp:
		e := &x.pub.List[i]
		dif := psub(e.CtAft.C, e.CtBef.C)
		if !x.pub.ToAdd {
			dif = psub(e.CtBef.C, e.CtAft.C)
		}
		eqs := []equation{{x.pub.Krm, []string{"k"}, []kyber.Point{B}}, {dif, []string{"k"}, []kyber.Point{e.CtBef.K}}}
		vals := map[string]kyber.Scalar{"k": x.k}
		switch which % 4 {
		case 0:
			return tryLate(o, i, eqs, vals, 0, -1, func(p kyber.Point) { x.pub.Krm = p })
		case 1:
			return tryLate(o, i, eqs, vals, 1, -1, func(p kyber.Point) {
				if x.pub.ToAdd {
					e.CtAft.C = padd(e.CtBef.C, p)
				} else {
					e.CtAft.C = psub(e.CtBef.C, p)
				}
			})
		case 2:
			return tryLate(o, i, eqs, vals, 1, -1, func(p kyber.Point) {
				if x.pub.ToAdd {
					e.CtBef.C = psub(e.CtAft.C, p)
				} else {
					e.CtBef.C = padd(e.CtAft.C, p)
				}
			})
		case 3:
			return tryLate(o, i, eqs, vals, 1, 0, func(p kyber.Point) { e.CtBef.K, e.CtAft.K, e.RB = p, p, p })
		}
	}
	return forge(o, a)
}

// unproven proves all equations of a statement but one, of which the left side is wrong: a verifier may not forget one.
func unproven(o operation, a proofAlt) string {
	i, B := a.El, libunlynx.SuiTe.Point().Base()
	var eqs []equation
	vals := map[string]kyber.Scalar{}
	D := rndPoint()
	k := 0
	switch x := o.(type) {
	case *ksOp:
		e := &x.pub.List[i]
		k = a.F % 3
		p := []*kyber.Point{&e.ViB, &e.K, &e.Ks2}[k]
		*p = padd(*p, D)
		eqs = []equation{{e.ViB, []string{"vi"}, []kyber.Point{B}}, {e.K, []string{"k"}, []kyber.Point{B}},
			{e.Ks2, []string{"k", "vi"}, []kyber.Point{e.RbNeg, e.Q}}}
		vals = map[string]kyber.Scalar{"vi": x.vis[i%len(x.vis)], "k": x.k}
	case *ddtOp:
		e := &x.pub.List[i]
		k = a.F % 4
		switch k {
		case 0: // belongs to the other element of the proof
			e.CTaft.K = padd(e.CTaft.K, D)
			e.Ciminus11Si = libunlynx.SuiTe.Point().Neg(e.CTaft.K)
			e.CTaft.C = padd(pmul(x.s, e.CTbef.C), pmul(x.k, e.Ciminus11Si))
		case 1:
			x.pub.K = padd(x.pub.K, D)
		case 2:
			e.CTaft.C = padd(e.CTaft.C, D)
		case 3:
			x.pub.SB = padd(x.pub.SB, D)
		}
		eqs = []equation{{e.CTaft.K, []string{"s"}, []kyber.Point{e.CTbef.K}}, {x.pub.K, []string{"k"}, []kyber.Point{B}},
			{e.CTaft.C, []string{"s", "k"}, []kyber.Point{e.CTbef.C, e.Ciminus11Si}}, {x.pub.SB, []string{"s"}, []kyber.Point{B}}}
		vals = map[string]kyber.Scalar{"s": x.s, "k": x.k}
	case *armOp:
		e := &x.pub.List[i]
		k = a.F % 2
		dif := psub(e.CtAft.C, e.CtBef.C)
		if !x.pub.ToAdd {
			dif = psub(e.CtBef.C, e.CtAft.C)
		}
		if k == 0 {
			x.pub.Krm = padd(x.pub.Krm, D)
		} else {
			e.CtAft.C = padd(e.CtAft.C, D)
		}
		eqs = []equation{{x.pub.Krm, []string{"k"}, []kyber.Point{B}}, {dif, []string{"k"}, []kyber.Point{e.CtBef.K}}}
		vals = map[string]kyber.Scalar{"k": x.k}
	default:
		return forge(o, a)
	}
	return tryLate(o, i, append(append([]equation{}, eqs[:k]...), eqs[k+1:]...), vals, -1, -1, nil)
}

// tryLate commits to a random point for equation k (-1: for none) and solves the equation for the point at base at (-1: for its left side).
func tryLate(o operation, i int, eqs []equation, vals map[string]kyber.Scalar, k, at int, put func(kyber.Point)) string {
	spy.watch(func() { o.one(i) })
	was, seeds := *o.bytes(i), append([][]byte{[]byte("proofTest")}, spy.seeds...)
	order := []string{}
	for _, e := range eqs {
		for _, s := range e.secrets {
			known := false
			for _, t := range order {
				known = known || s == t
			}
			if !known {
				order = append(order, s)
			}
		}
	}
	var late kyber.Point
	for _, n := range seeds {
		b, err := proof.HashProve(libunlynx.SuiTe, string(n), func(ctx proof.ProverContext) error {
			v, r := map[string]kyber.Scalar{}, map[string]kyber.Scalar{}
			for _, s := range order {
				v[s] = rndScalar()
			}
			free := rndPoint()
			for j, e := range eqs {
				V := free
				if j != k {
					V = libunlynx.SuiTe.Point().Null()
					for t, s := range e.secrets {
						V = padd(V, pmul(v[s], e.bases[t]))
					}
				}
				if err := ctx.Put(V); err != nil {
					return err
				}
			}
			c := libunlynx.SuiTe.Scalar()
			if err := ctx.PubRand(c); err != nil {
				return err
			}
			for _, s := range order {
				r[s] = libunlynx.SuiTe.Scalar().Sub(v[s], libunlynx.SuiTe.Scalar().Mul(c, vals[s]))
				if err := ctx.Put(r[s]); err != nil {
					return err
				}
			}
			if k < 0 {
				return nil
			}
			rest, by := free, c
			for t, s := range eqs[k].secrets {
				if t == at {
					by = r[s]
				} else {
					rest = psub(rest, pmul(r[s], eqs[k].bases[t]))
				}
			}
			if at >= 0 {
				rest = psub(rest, pmul(c, eqs[k].left))
			}
			late = pmul(libunlynx.SuiTe.Scalar().Inv(by), rest)
			return nil
		})
		if err != nil {
			continue
		}
		*o.bytes(i) = b
		if put != nil {
			put(late)
		}
		if o.one(i) {
			return ""
		}
	}
	*o.bytes(i) = was
	return ""
}

func tryNames(o operation, i int, pred proof.Predicate, sval map[string]kyber.Scalar, pval map[string]kyber.Point) string {
	spy.watch(func() { o.one(i) })
	names := append([][]byte{[]byte("proofTest")}, spy.seeds...)
	was := *o.bytes(i)
	for _, n := range names {
		b, err := proof.HashProve(libunlynx.SuiTe, string(n), pred.Prover(libunlynx.SuiTe, sval, pval, nil))
		if err != nil {
			continue
		}
		*o.bytes(i) = b
		if o.one(i) {
			return ""
		}
	}
	*o.bytes(i) = was
	return ""
}

// alterShape changes the number or order of rows, columns or summands of an element
func alterShape(o operation, a proofAlt) {
	switch x := o.(type) {
	case *aggOp:
		e := &x.pub.List[a.El]
		switch a.F % 5 {
		case 0:
			if len(e.Data) > 0 {
				k := a.F2 % len(e.Data)
				e.Data = append(append(libunlynx.CipherVector{}, e.Data[:k]...), e.Data[k+1:]...)
			}
		case 1:
			if len(e.Data) > 0 {
				e.Data = append(e.Data, e.Data[a.F2%len(e.Data)])
			}
		case 2:
			if len(e.Data) > 1 {
				k := a.F2 % (len(e.Data) - 1)
				e.Data[k], e.Data[k+1] = e.Data[k+1], e.Data[k]
			}
		case 3:
			e.Data = append(e.Data, libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: libunlynx.SuiTe.Point().Null()})
		case 4:
			e.Data = libunlynx.CipherVector{}
		}
	case *shufOp:
		e := &x.pub.List[a.El]
		lists := []*[]libunlynx.CipherVector{&e.OriginalList, &e.ShuffledList}
		l := lists[a.F2%2]
		switch a.F % 8 {
		case 0: // a row is lost
			if len(*l) > 0 {
				*l = append(copyMat((*l)[:a.F2%len(*l)]), (*l)[a.F2%len(*l)+1:]...)
			}
		case 1: // in both lists
			for _, l := range lists {
				if len(*l) > 0 {
					*l = copyMat((*l)[1:])
				}
			}
		case 2: // a row instead of another
			if len(*l) > 1 {
				k := a.F2 % len(*l)
				(*l)[k] = append(libunlynx.CipherVector{}, (*l)[(k+1)%len(*l)]...)
			}
		case 3: // rows exchanged
			if len(*l) > 1 {
				k := a.F2 % len(*l)
				(*l)[k], (*l)[(k+1)%len(*l)] = (*l)[(k+1)%len(*l)], (*l)[k]
			}
		case 4: // a column is lost in one row
			if k := a.F2 % len(*l); len((*l)[k]) > 0 {
				(*l)[k] = (*l)[k][1:]
			}
		case 5: // a column is lost everywhere
			for _, l := range lists {
				for k := range *l {
					if len((*l)[k]) > 0 {
						(*l)[k] = (*l)[k][:len((*l)[k])-1]
					}
				}
			}
		case 6: // a row is repeated
			if len(*l) > 0 {
				*l = append(copyMat(*l), append(libunlynx.CipherVector{}, (*l)[0]...))
			}
		case 7:
			e.OriginalList, e.ShuffledList = e.ShuffledList, e.OriginalList
		}
	}
}

func runProof(id string, raw json.RawMessage) Obs {
	if spy == nil {
		spy = &spySuite{Suite: libunlynx.SuiTe}
		libunlynx.SuiTe = spy
	}
	var c proofCase
	check(json.Unmarshal(raw, &c))
	if len(c.Vals) == 0 {
		c.Vals = []int64{3}
	}
	vals := make([]int64, c.N)
	for i := range vals {
		vals[i] = c.Vals[i%len(c.Vals)]
	}
	var o operation
	switch c.Typ {
	case "ks":
		o = newKS(vals, c.Form)
	case "ddt":
		o = newDDT(vals, c.Form, c.Single)
	case "add":
		o = newAdd(vals, c.Form, c.Single)
	case "addrm":
		o = newArm(vals, c.Form, c.ToAdd)
	case "agg":
		o = newAgg(c.N, c.Cols, c.Vals, c.Form)
	case "shuf":
		o = newShuf(c.N, c.Rows, c.Cols, c.Vals, c.Form, c.ToAdd, c.Single)
	}
	ids := map[string]int{}
	intern := func(s string) int {
		if _, ok := ids[s]; !ok {
			ids[s] = len(ids) + 1
		}
		return ids[s]
	}
	orig := []int{}
	ex := ""
	if c.Typ == "addrm" {
		ex = fmt.Sprint(c.ToAdd)
	}
	for i := 0; i < c.N; i++ {
		orig = append(orig, intern(statement(o.in(i), o.inCommon(), ex)))
	}
	obs := Obs{"orig": orig, "made": "", "touched": false, "wired": "", "pub": []Obs{}, "first": []int{}, "ones": []bool{}, "list": false}
	for _, a := range c.Alts {
		if x, ok := o.(*shufOp); ok && a.When == "pre" && c.N > 0 && x.alterOutput(a) {
			continue
		}
		if a.When == "pre" && c.N > 0 {
			alterSlots(a, []slotMap{o.in(a.El), o.inCommon()}, []slotMap{o.in(a.El2), o.inCommon()})
		}
	}
	before := o.state()
	if err := o.create(); err != nil {
		obs["made"] = errStr(err)
		obs["touched"] = o.state() != before
		return obs
	}
	made := map[string]int{}
	for i := 0; i < o.size(); i++ {
		s := intern(statement(o.out(i), o.outCommon(), o.extra()))
		if b := o.bytes(i); b != nil {
			made[string(*b)] = s
		}
	}
	obs["first"] = pubIDs(o, intern)
	if c.Wire {
		obs["wired"] = errStr(o.wire())
	}
	for _, a := range c.Alts {
		if a.When != "post" || o.size() == 0 {
			continue
		}
		a.El, a.El2 = a.El%o.size(), a.El2%o.size()
		switch a.How {
		case "swap":
			o.swap(a.El, a.El2)
		case "drop":
			o.drop(a.El)
		case "dup":
			o.dup(a.El)
		case "proof":
			if b := o.bytes(a.El); b != nil {
				*b = append([]byte{}, *o.bytes(a.El2)...)
			}
		case "damage":
			if b := o.bytes(a.El); b != nil {
				x := append([]byte{}, *b...)
				switch {
				case a.F%4 == 0 || len(x) == 0:
					x = nil
				case a.F%4 == 1:
					x = x[:len(x)-1-a.F2%len(x)]
				case a.F%4 == 2:
					x[a.F2%len(x)] ^= 1 << uint(a.F2%8)
				default:
					x = make([]byte, len(x))
				}
				*b = x
			}
		case "flip":
			o.flip()
		case "shape":
			alterShape(o, a)
		case "forge":
			obs["forge"] = forge(o, a)
		case "own":
			obs["forge"] = ownProof(o, a)
		case "columns":
			obs["forge"] = columns(o, a)
		case "late":
			obs["forge"] = lateProof(o, a)
		case "unproven":
			obs["forge"] = unproven(o, a)
		default:
			alterSlots(a, []slotMap{o.out(a.El), o.outCommon()}, []slotMap{o.out(a.El2), o.outCommon()})
		}
	}
	pub, ones := []Obs{}, []bool{}
	for i := 0; i < o.size(); i++ {
		s := intern(statement(o.out(i), o.outCommon(), o.extra()))
		p, t := s, true
		if b := o.bytes(i); b != nil {
			p = made[string(*b)]
		}
		if x, ok := o.(*aggOp); ok {
			t = x.truth(i)
		}
		pub = append(pub, Obs{"s": s, "p": p, "t": t})
		ones = append(ones, o.one(i))
	}
	obs["pub"], obs["ones"] = pub, ones
	obs["list"] = o.all(c.Pct)
	obs["full"] = o.all(1)
	obs["touched"] = o.state() != before
	return obs
}

func pubIDs(o operation, intern func(string) int) []int {
	r := []int{}
	for i := 0; i < o.size(); i++ {
		r = append(r, intern(statement(o.out(i), o.outCommon(), o.extra())))
	}
	return r
}
