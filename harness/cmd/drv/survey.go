package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// The real service on real servers (TCP and websockets on the loopback network). Messages between
// the services can be held back and released in the order of a schedule.

type svNet struct {
	local   *onet.LocalTest
	servers []*onet.Server
	svc     []*servicesunlynx.Service
	index   map[network.ServerIdentityID]int

	mu    sync.Mutex
	hold  bool
	queue map[string][]svHeld // "type/from/to"
	bell  chan struct{}
	drop  func(typ string, from, to, starter int) bool
	dead  map[int]bool
	first map[onet.RoundID]int // who sent the first message of a protocol instance

	tamper *tamperer
	watch  *tagWatch
}

type svHeld struct {
	to  int
	env *network.Envelope
}

type svWrap struct {
	n  *svNet
	to int
}

func svType(env *network.Envelope) string {
	switch env.Msg.(type) {
	case *servicesunlynx.SurveyCreationQuery:
		return "create"
	case *servicesunlynx.QueryBroadcastFinished:
		return "ack"
	case *servicesunlynx.SurveyResultsQuery:
		return "results"
	case *servicesunlynx.DDTfinished:
		return "ddt"
	}
	return "?"
}

func (w *svWrap) Process(env *network.Envelope) {
	n := w.n
	typ := svType(env)
	n.mu.Lock()
	from := n.index[env.ServerIdentity.ID]
	if (n.drop != nil && n.drop(typ, from, w.to, 0)) || n.dead[from] || n.dead[w.to] {
		n.mu.Unlock()
		return
	}
	if n.hold {
		k := fmt.Sprintf("%s/%d/%d", typ, from, w.to)
		n.queue[k] = append(n.queue[k], svHeld{w.to, env})
		n.mu.Unlock()
		select {
		case n.bell <- struct{}{}:
		default:
		}
		return
	}
	n.mu.Unlock()
	go n.svc[w.to-1].Process(env)
}

// svProto loses the protocol messages of dead servers. It hands the messages to onet one after the other: onet
// forgets a message that is looked at while the tree it belongs to arrives.
type svProto struct {
	n  *svNet
	to int
	mu sync.Mutex
}

func (w *svProto) Process(env *network.Envelope) {
	n := w.n
	n.mu.Lock()
	from := n.index[env.ServerIdentity.ID]
	typ, starter := "proto", 0
	if pm, ok := env.Msg.(*onet.ProtocolMsg); ok && pm.To != nil {
		if _, known := n.first[pm.To.RoundID]; !known {
			n.first[pm.To.RoundID] = from
		}
		typ, starter = svProtocols[pm.To.ProtoID], n.first[pm.To.RoundID]
	}
	lost := n.dead[from] || n.dead[w.to] || (n.drop != nil && n.drop(typ, from, w.to, starter))
	tam, watch := n.tamper, n.watch
	n.mu.Unlock()
	if lost {
		return
	}
	watch.see(from, env)
	tam.apply(from, w.to, env)
	w.mu.Lock()
	defer w.mu.Unlock()
	n.local.Overlays[n.servers[w.to-1].ServerIdentity.ID].Process(env)
}

var svProtocols = map[onet.ProtocolID]string{
	onet.ProtocolNameToID(protocolsunlynx.ShufflingProtocolName):             "proto shuffling",
	onet.ProtocolNameToID(protocolsunlynx.DeterministicTaggingProtocolName):  "proto tagging",
	onet.ProtocolNameToID(protocolsunlynx.CollectiveAggregationProtocolName): "proto aggregation",
	onet.ProtocolNameToID(protocolsunlynx.KeySwitchingProtocolName):          "proto switching",
}

var theSv *svNet

func getSv(n int) *svNet {
	if theSv != nil && len(theSv.servers) >= n {
		return theSv
	}
	l := onet.NewTCPTest(libunlynx.SuiTe)
	l.Check = onet.CheckNone
	s := &svNet{local: l, index: map[network.ServerIdentityID]int{}, queue: map[string][]svHeld{}, bell: make(chan struct{}, 1), dead: map[int]bool{}, first: map[onet.RoundID]int{}}
	s.servers = l.GenServers(n)
	sid := onet.ServiceFactory.ServiceID(servicesunlynx.ServiceName)
	for i, srv := range s.servers {
		s.index[srv.ServerIdentity.ID] = i + 1
		s.svc = append(s.svc, l.Services[srv.ServerIdentity.ID][sid].(*servicesunlynx.Service))
		w := &svWrap{s, i + 1}
		srv.RegisterProcessor(w, network.MessageType(&servicesunlynx.SurveyCreationQuery{}), network.MessageType(&servicesunlynx.SurveyResultsQuery{}),
			network.MessageType(&servicesunlynx.DDTfinished{}), network.MessageType(&servicesunlynx.QueryBroadcastFinished{}))
		srv.RegisterProcessor(&svProto{n: s, to: i + 1}, onet.ProtocolMsgID)
	}
	theSv = s
	return s
}

func (n *svNet) setHold(h bool) {
	n.mu.Lock()
	n.hold = h
	n.mu.Unlock()
}

func (n *svNet) releaseAll() {
	n.mu.Lock()
	n.hold = false
	var all []svHeld
	for _, q := range n.queue {
		all = append(all, q...)
	}
	n.queue = map[string][]svHeld{}
	n.mu.Unlock()
	for _, h := range all {
		go n.svc[h.to-1].Process(h.env)
	}
}

func (n *svNet) held(typ string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := 0
	for k, q := range n.queue {
		if strings.HasPrefix(k, typ+"/") {
			c += len(q)
		}
	}
	return c
}

func (n *svNet) release(typ string, from, to int, patience time.Duration, deliver bool) bool {
	k := fmt.Sprintf("%s/%d/%d", typ, from, to)
	deadline := time.After(patience)
	for {
		n.mu.Lock()
		if q := n.queue[k]; len(q) > 0 {
			n.queue[k] = q[1:]
			n.mu.Unlock()
			if deliver {
				go n.svc[to-1].Process(q[0].env)
			}
			return true
		}
		n.mu.Unlock()
		select {
		case <-n.bell:
		case <-time.After(3 * time.Millisecond):
		case <-deadline:
			return false
		}
	}
}

type svResp struct {
	G   []int64 `json:"g"`
	W   []int64 `json:"w"`
	S   []int64 `json:"s"`
	Gc  []int   `json:"genc"` // 1: encrypted
	Wc  []int   `json:"wenc"`
	Sc  []int   `json:"senc"`
	Mis []int   `json:"miss"` // sum attributes left out (1-based)
	GM  []int   `json:"gm"`   // group attributes left out
	WM  []int   `json:"wm"`   // where attributes left out
	X   []svX   `json:"x"`    // attributes that the query doesn't name
}

type svX struct {
	P   string `json:"p"` // g, w or s
	N   string `json:"n"`
	V   int64  `json:"v"`
	Enc int    `json:"enc"`
}

// svNames are the names of a query's attributes.
type svNames struct {
	G []string `json:"gn"`
	W []string `json:"wn"`
	S []string `json:"sn"`
}

func nth(names []string, first string, i int) string {
	if i < len(names) {
		return names[i]
	}
	return first + strconv.Itoa(i)
}

func someNames(names []string, first string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = nth(names, first, i)
	}
	return out
}

type svDP struct {
	At   int      `json:"at"`
	Rep  int      `json:"rep"`
	Resp []svResp `json:"resp"`
}

type svSurvey struct {
	Ros     []int   `json:"ros"`
	Creator int     `json:"creator"`
	Asker   int     `json:"asker"`
	Proofs  bool    `json:"proofs"`
	Count   bool    `json:"count"`
	CPos    *int    `json:"cpos"` // where the query names the count (default: last)
	NS      int     `json:"ns"`
	NG      int     `json:"ng"`
	Where   []int64 `json:"where"`
	Pred    string  `json:"pred"`
	DPs     []svDP  `json:"dps"`
	App     bool    `json:"app"`
	CK      string  `json:"ck"`  // key named when the survey is created: none, the querier's or a stranger's
	Gob     []pcOp  `json:"gob"` // what happened to the precomputation file before
	Events  []svEv  `json:"events"`
	Wide    []wideV `json:"wide"`    // what some of the filter values stand for
	Own     bool    `json:"own"`     // the querier decrypts by itself
	Omit    bool    `json:"omit"`    // servers without data providers are left out of the numbers of data providers
	Propose string  `json:"propose"` // id the client proposes ("@": that of the first survey)
	svNames
}

type svEv struct {
	E  string `json:"e"`
	S  int    `json:"s"` // survey (1-based)
	D  int    `json:"d"` // data provider (1-based)
	T  string `json:"t"`
	F  int    `json:"f"`
	To int    `json:"to"`
	MS int    `json:"ms"`
}

type svCase struct {
	Surveys []svSurvey `json:"surveys"`
	Events  []svEv     `json:"events"`
	Hold    bool       `json:"hold"`
	Par     bool       `json:"par"`  // each survey on its own, in parallel, with free scheduling
	Wait    int        `json:"wait"` // ms to wait for answers (faults)
	Dead    int        `json:"dead"`
	DropT   string     `json:"dropt"`
	DropF   int        `json:"dropf"`
	DropTo  int        `json:"dropto"`
	DropN   int        `json:"dropn"`
	DropS   int        `json:"drops"`  // who started the protocol instance that loses a message
	Watch   bool       `json:"watch"`  // the tags that servers see are observed
	Settle  int        `json:"settle"` // ms between the events of a schedule
	tamperSpec
}

func clearResp(r svResp, nn svNames) libunlynx.DpClearResponse {
	split := func(first string, names []string, vs []int64, e []int) (c, en map[string]int64) {
		c, en = map[string]int64{}, map[string]int64{}
		for i, v := range vs {
			n := nth(names, first, i)
			if i < len(e) && e[i] == 1 {
				en[n] = v
			} else {
				c[n] = v
			}
		}
		return
	}
	d := libunlynx.DpClearResponse{}
	d.GroupByClear, d.GroupByEnc = split("g", nn.G, r.G, r.Gc)
	d.WhereClear, d.WhereEnc = split("w", nn.W, r.W, r.Wc)
	d.AggregatingAttributesClear, d.AggregatingAttributesEnc = split("s", nn.S, r.S, r.Sc)
	leave := func(first string, names []string, miss []int, ms ...map[string]int64) {
		for _, i := range miss {
			for _, m := range ms {
				delete(m, nth(names, first, i-1))
			}
		}
	}
	leave("s", nn.S, r.Mis, d.AggregatingAttributesClear, d.AggregatingAttributesEnc)
	leave("g", nn.G, r.GM, d.GroupByClear, d.GroupByEnc)
	leave("w", nn.W, r.WM, d.WhereClear, d.WhereEnc)
	for _, x := range r.X {
		ms := map[string][2]map[string]int64{"g": {d.GroupByClear, d.GroupByEnc}, "w": {d.WhereClear, d.WhereEnc}, "s": {d.AggregatingAttributesClear, d.AggregatingAttributesEnc}}[x.P]
		ms[x.Enc][x.N] = x.V
	}
	return d
}

type svRow struct {
	G []int64 `json:"g"`
	A []int64 `json:"a"`
}

type svRun struct {
	c     *svSurvey
	net   *svNet
	el    *onet.Roster
	id    servicesunlynx.SurveyID
	acked chan struct{}
	done  chan struct{}
	mu    sync.Mutex
	obs   Obs
	ups   []chan struct{}
	first *svRun
}

func init() { families["survey"] = runSurvey }

func (r *svRun) set(k string, v interface{}) {
	r.mu.Lock()
	r.obs[k] = v
	r.mu.Unlock()
}

func newSvRun(n *svNet, c *svSurvey) *svRun {
	ids := make([]*network.ServerIdentity, len(c.Ros))
	for i, x := range c.Ros {
		ids[i] = n.servers[x-1].ServerIdentity
	}
	r := &svRun{c: c, net: n, el: onet.NewRoster(ids), acked: make(chan struct{}), done: make(chan struct{}),
		obs: Obs{"created": false, "ackearly": false, "unknownserver": false, "uperr": "", "answered": false, "err": "", "rows": []svRow{}, "createerr": ""}}
	for range c.DPs {
		r.ups = append(r.ups, make(chan struct{}))
	}
	return r
}

func (r *svRun) sid(i int) *network.ServerIdentity { return r.el.List[i-1] }

func (r *svRun) create() {
	defer close(r.acked)
	c := r.c
	client := servicesunlynx.NewUnLynxClient(r.sid(c.Creator), "creator")
	sum := someNames(c.S, "s", c.NS)
	if c.Count {
		at := c.NS
		if c.CPos != nil {
			at = *c.CPos
		}
		sum = append(append(append([]string{}, sum[:at]...), "count"), sum[at:]...)
	}
	where := []libunlynx.WhereQueryAttribute{}
	for i, v := range wideTo(c.Wide, c.Where) {
		where = append(where, libunlynx.WhereQueryAttribute{Name: nth(c.W, "w", i), Value: enc(r.el.Aggregate, v)})
	}
	nbr := map[string]int64{}
	for _, s := range r.el.List {
		nbr[s.String()] = 0
		if c.App {
			nbr[s.String()] = 1
		}
	}
	for _, d := range c.DPs {
		if !c.App {
			nbr[r.sid(d.At).String()]++
		}
	}
	for s, k := range nbr {
		if c.Omit && k == 0 {
			delete(nbr, s)
		}
	}
	var ck kyber.Point
	switch c.CK {
	case "other":
		ck = rndPoint()
	case "server":
		ck = r.el.Aggregate
	}
	propose := servicesunlynx.SurveyID(c.Propose)
	if propose == "@" {
		if r.first != r {
			select {
			case <-r.first.acked:
			case <-time.After(2 * time.Second):
			}
		}
		propose = r.first.id
	}
	id, err := client.SendSurveyCreationQuery(r.el, propose, ck, nbr, c.Proofs, c.App, sum, c.Count, where, c.Pred, someNames(c.G, "g", c.NG))
	if err != nil {
		r.set("createerr", err.Error())
		return
	}
	r.id = *id
	r.set("created", true)
	if r.net.held("create") > 0 {
		r.set("ackearly", true)
	}
	for _, x := range c.Ros {
		if v, err := r.net.svc[x-1].Survey.Get(string(r.id)); err != nil || v == nil {
			r.set("unknownserver", true)
		}
	}
}

func (r *svRun) upload(d int) {
	defer close(r.ups[d-1])
	dp := r.c.DPs[d-1]
	client := servicesunlynx.NewUnLynxClient(r.sid(dp.At), "dp"+strconv.Itoa(d))
	var resp []libunlynx.DpClearResponse
	for _, x := range dp.Resp {
		x.W = wideTo(r.c.Wide, x.W)
		resp = append(resp, clearResp(x, r.c.svNames))
	}
	rep := dp.Rep
	if rep == 0 {
		rep = 1
	}
	if err := client.SendSurveyResponseQuery(r.id, resp, r.el.Aggregate, rep, r.c.Count); err != nil {
		r.set("uperr", err.Error())
	}
}

func (r *svRun) ask() {
	defer close(r.done)
	if r.c.Own {
		r.askOwn()
		return
	}
	client := servicesunlynx.NewUnLynxClient(r.sid(r.c.Asker), "querier")
	grp, aggr, err := client.SendSurveyResultsQuery(r.id)
	if err != nil {
		r.set("err", err.Error())
		return
	}
	rows := []svRow{}
	for i := range *grp {
		rows = append(rows, svRow{(*grp)[i], (*aggr)[i]})
	}
	sort.Slice(rows, func(i, j int) bool { return fmt.Sprint(rows[i]) < fmt.Sprint(rows[j]) })
	r.set("rows", rows)
	r.set("answered", true)
}

// askOwn is ask with the harness's own querier, who decrypts whatever integers come (noise may make them negative).
func (r *svRun) askOwn() {
	priv, pub := keypair()
	resp := servicesunlynx.ServiceResult{}
	client := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
	if err := client.SendProtobuf(r.sid(r.c.Asker), &servicesunlynx.SurveyResultsQuery{SurveyID: r.id, ClientPublic: pub}, &resp); err != nil {
		r.set("err", err.Error())
		return
	}
	rows := []svRow{}
	for _, x := range resp.Results {
		rows = append(rows, svRow{decVec(priv, x.GroupByEnc), decVec(priv, x.AggregatingAttributes)})
	}
	r.set("rows", rows)
	r.set("answered", true)
}

// badUpload sends an upload of which some response's bytes are damaged, and tells whether it was accepted.
func (r *svRun) badUpload(ev svEv) (bool, string) {
	rnd := rand.New(rand.NewSource(int64(ev.MS)))
	var clear []libunlynx.DpClearResponse
	for i := 0; i <= ev.D; i++ {
		x := svResp{G: make([]int64, r.c.NG), W: make([]int64, len(r.c.Where)), S: make([]int64, r.c.NS), Gc: make([]int, r.c.NG), Wc: make([]int, len(r.c.Where)), Sc: make([]int, r.c.NS)}
		for j := range x.Gc {
			x.Gc[j] = rnd.Intn(2)
		}
		for j := range x.Wc {
			x.Wc[j] = rnd.Intn(2)
		}
		for j := range x.Sc {
			x.Sc[j], x.S[j] = 1, 7
		}
		clear = append(clear, clearResp(x, r.c.svNames))
	}
	msg, err := servicesunlynx.EncryptDataToSurvey("bad", r.id, clear, r.el.Aggregate, 1, r.c.Count)
	check(err)
	// any encrypted attribute of any response
	k := rnd.Intn(len(msg.Responses))
	ms := []map[string][]byte{}
	for _, m := range []map[string][]byte{msg.Responses[k].WhereEnc, msg.Responses[k].GroupByEnc, msg.Responses[k].AggregatingAttributesEnc} {
		if len(m) > 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return false, ""
	}
	m := ms[rnd.Intn(len(ms))]
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[rnd.Intn(len(names))]
	switch ev.T {
	case "empty":
		m[n] = []byte{}
	case "half":
		m[n] = m[n][:32]
	case "more":
		m[n] = append(append([]byte{}, m[n]...), m[n]...)
	default:
		m[n], _ = badBytes(rnd, ev.T, append([]byte{}, m[n]...), true)
	}
	at := ev.To
	if at < 1 || at > len(r.el.List) {
		at = 1
	}
	resp := servicesunlynx.ServiceState{}
	client := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
	defer client.Close()
	if err := client.SendProtobuf(r.sid(at), msg, &resp); err != nil {
		return false, ""
	}
	return true, ev.T + " " + n
}

// unknown sends requests with an id that does not exist; they must be refused.
// The id is made up, or close to that of a survey which exists, or that of a survey another server knows.
func svUnknown(n *svNet, ev svEv, r *svRun) string {
	el := r.el
	at := ev.To
	if at < 1 || at > len(el.List) {
		at = 1
	}
	srv := el.List[at-1]
	id := servicesunlynx.SurveyID("no-such-survey-" + strconv.Itoa(ev.D))
	known := ""
	select {
	case <-r.acked:
		known = string(r.id)
	default:
	}
	switch {
	case ev.T == "empty":
		id = ""
	case known == "":
	case ev.T == "upper" && strings.ToUpper(known) != known:
		id = servicesunlynx.SurveyID(strings.ToUpper(known))
	case ev.T == "prefix":
		id = servicesunlynx.SurveyID(known[:1+ev.D%(len(known)-1)])
	case ev.T == "suffix":
		id = servicesunlynx.SurveyID(known[1+ev.D%(len(known)-1):])
	case ev.T == "longer":
		id = servicesunlynx.SurveyID(known + []string{" ", "0", "\x00", "\n", "/", known}[ev.D/2%6])
	case ev.T == "before":
		id = servicesunlynx.SurveyID([]string{" ", "0", "/", "urn:uuid:", "{"}[ev.D/2%5] + known)
	case ev.T == "other": // one character is another
		i := ev.D % len(known)
		id = servicesunlynx.SurveyID(known[:i] + map[bool]string{true: "7", false: "3"}[known[i] == '3'] + known[i+1:])
	case ev.T == "nodash" && strings.Contains(known, "-"):
		id = servicesunlynx.SurveyID(strings.Replace(known, "-", "", 1+ev.D/2%4))
	case ev.T == "elsewhere":
		for k := range n.servers {
			x := n.servers[(k+ev.D)%len(n.servers)].ServerIdentity
			if i, _ := el.Search(x.ID); i < 0 {
				srv, id = x, r.id
				break
			}
		}
	}
	client := servicesunlynx.NewUnLynxClient(srv, "stranger")
	var err error
	if ev.D%2 == 0 {
		err = client.SendSurveyResponseQuery(id, []libunlynx.DpClearResponse{clearResp(svResp{G: []int64{1}, W: []int64{1}, S: []int64{1}, Sc: []int{1}}, svNames{})}, el.Aggregate, 1, false)
	} else {
		_, _, err = client.SendSurveyResultsQuery(id)
	}
	if err == nil {
		return "accepted"
	}
	return ""
}

func writeApp(c *svSurvey) {
	td := map[string][]libunlynx.DpClearResponse{}
	for i := range c.Ros {
		td[strconv.Itoa(i)] = []libunlynx.DpClearResponse{}
	}
	for _, d := range c.DPs {
		for _, x := range d.Resp {
			k := strconv.Itoa(d.At - 1)
			x.W = wideTo(c.Wide, x.W)
			td[k] = append(td[k], clearResp(x, svNames{}))
		}
	}
	dataunlynx.WriteDataToFile("unlynx_test_data.txt", td)
}

func runSurvey(id string, raw json.RawMessage) Obs {
	var c svCase
	check(json.Unmarshal(raw, &c))
	need := 5
	for _, s := range c.Surveys {
		for _, x := range s.Ros {
			need = maxi(need, x)
		}
	}
	n := getSv(need)
	n.mu.Lock()
	n.queue = map[string][]svHeld{}
	n.dead = map[int]bool{}
	n.first = map[onet.RoundID]int{}
	if c.Dead > 0 && c.DropT == "" {
		n.dead[c.Dead] = false // switched on by the event "die"
	}
	n.drop = nil
	tam := c.tamperer()
	n.tamper = tam
	watch := newTagWatch()
	watch.on = c.Watch
	n.watch = watch
	if c.DropT != "" {
		cnt := 0
		n.drop = func(t string, f, to, starter int) bool {
			if (t == c.DropT || c.DropT == "proto" && strings.HasPrefix(t, "proto")) && (c.DropS == 0 || starter == c.DropS) && (c.DropF == 0 || f == c.DropF) && (c.DropTo == 0 || to == c.DropTo) {
				cnt++
				return c.DropN == 0 || cnt == c.DropN
			}
			return false
		}
	}
	for _, ev := range c.Events { // losses of a schedule: the first message of the named kind of protocol
		if ev.E == "losetag" || ev.E == "losesum" {
			ev, before, done := ev, n.drop, false
			ros := c.Surveys[0].Ros
			n.drop = func(t string, f, to, starter int) bool {
				if !done && t == ev.T && starter == ros[ev.F-1] {
					done = true
					return true
				}
				return before != nil && before(t, f, to, starter)
			}
		}
	}
	n.mu.Unlock()
	n.setHold(c.Hold)
	runs := make([]*svRun, len(c.Surveys))
	for i := range c.Surveys {
		runs[i] = newSvRun(n, &c.Surveys[i])
		runs[i].first = runs[0]
		for _, o := range c.Surveys[i].Gob {
			gobOp("pre_compute_multiplications.gob", o, func(k int) kyber.Point {
				if k >= 50 { // this survey's own key
					return runs[i].el.Aggregate
				}
				return rndPoint()
			})
		}
		if c.Surveys[i].App {
			writeApp(&c.Surveys[i])
		}
	}
	unknownBad := 0
	badUps, badTaken, badWhy := 0, 0, ""
	var umu sync.Mutex
	var uwg sync.WaitGroup
	patience := 4 * time.Second
	step := func(ev svEv) {
		if ev.S == 0 {
			ev.S = 1
		}
		r := runs[ev.S-1]
		awaitAck := func() bool {
			select {
			case <-r.acked:
				return r.id != ""
			case <-time.After(patience):
				// the specification says it is acknowledged by now: let everything go
				n.releaseAll()
				select {
				case <-r.acked:
					return r.id != ""
				case <-time.After(patience):
					return false
				}
			}
		}
		switch ev.E {
		case "create":
			go r.create()
		case "acked":
			awaitAck()
		case "upbegin":
			if awaitAck() {
				go r.upload(ev.D)
			} else {
				close(r.ups[ev.D-1])
			}
		case "upend":
			select {
			case <-r.ups[ev.D-1]:
			case <-time.After(patience):
			}
		case "up":
			if awaitAck() {
				r.upload(ev.D)
			} else {
				close(r.ups[ev.D-1])
			}
		case "ask":
			if awaitAck() {
				watch.survey(ev.S)
				go r.ask()
			} else {
				close(r.done)
			}
		case "answer":
			select {
			case <-r.done:
			case <-time.After(patience):
			}
		case "sleep":
			time.Sleep(time.Duration(ev.MS) * time.Millisecond)
		case "dl":
			// indices in the schedule are positions in the survey's roster
			n.release(ev.T, r.c.Ros[ev.F-1], r.c.Ros[ev.To-1], 2*time.Second, true)
		case "lose":
			n.release(ev.T, r.c.Ros[ev.F-1], r.c.Ros[ev.To-1], 2*time.Second, false)
		case "losetag", "losesum":
		case "free":
			n.releaseAll()
		case "heal":
			n.mu.Lock()
			n.drop = nil
			n.tamper = nil
			n.mu.Unlock()
		case "badup":
			if !awaitAck() {
				break
			}
			bad, left := r.badUpload(ev)
			umu.Lock()
			badUps++
			if bad {
				badTaken++
			}
			if left != "" {
				badWhy = left
			}
			umu.Unlock()
		case "die":
			n.mu.Lock()
			n.dead[c.Dead] = true
			n.mu.Unlock()
		case "unknown":
			if ev.T != "" && ev.T != "empty" {
				awaitAck()
			}
			if bad := svUnknown(n, ev, r); bad != "" {
				umu.Lock()
				unknownBad++
				umu.Unlock()
			}
		case "aunknown":
			uwg.Add(1)
			if ev.T != "" && ev.T != "empty" {
				awaitAck()
			}
			go func() {
				defer uwg.Done()
				if bad := svUnknown(n, ev, r); bad != "" {
					umu.Lock()
					unknownBad++
					umu.Unlock()
				}
			}()
		default:
			panic("unknown event " + ev.E)
		}
	}
	if c.Par {
		var wg sync.WaitGroup
		for i := range runs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for _, ev := range c.Surveys[i].Events {
					ev.S = i + 1
					step(ev)
				}
			}(i)
		}
		wg.Wait()
	}
	for _, ev := range c.Events {
		step(ev)
		if c.Settle > 0 && ev.E != "create" {
			time.Sleep(time.Duration(c.Settle) * time.Millisecond)
		}
	}
	n.releaseAll()
	limit := time.Hour
	if c.Wait > 0 {
		limit = time.Duration(c.Wait) * time.Millisecond
	}
	tm := time.After(limit)
	out := []Obs{}
	late := false
	for _, r := range runs {
		for _, ch := range []chan struct{}{r.acked, r.done} {
			if !late {
				select {
				case <-ch:
				case <-tm:
					late = true
				}
			}
		}
	}
	uwg.Wait()
	for _, r := range runs {
		r.mu.Lock()
		o := Obs{}
		for k, v := range r.obs {
			o[k] = v
		}
		r.mu.Unlock()
		out = append(out, o)
	}
	n.mu.Lock()
	n.drop = nil
	n.tamper = nil
	n.dead = map[int]bool{}
	n.mu.Unlock()
	umu.Lock()
	defer umu.Unlock()
	o := Obs{"out": out, "unknownbad": unknownBad, "late": late, "badups": badUps, "badtaken": badTaken, "badhow": badWhy}
	tam.report(o)
	if c.Watch {
		watch.report(o, len(runs))
	}
	return o
}
