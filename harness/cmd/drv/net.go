package main

import (
	"sync"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// Net is an in-process cothority whose protocol messages are delivered in an order chosen by a
// schedule coming from the specification. Per sender and receiver the order stays FIFO.
type Net struct {
	Local   *onet.LocalTest
	Servers []*onet.Server
	index   map[network.ServerIdentityID]int

	mu       sync.Mutex
	hold     bool
	queues   map[[2]int][]held
	arrive   chan struct{}
	count    map[[2]int]int
	log      [][2]int
	dropFrom map[int]bool // messages from these servers are lost
	dropMsg  func(from, to, nth int) bool
	onSend   func(from, to int, env *network.Envelope)
	tamper   *tamperer
}

type held struct {
	env *network.Envelope
	to  int
}

// NewNet starts n servers.
func NewNet(n int) *Net {
	l := onet.NewLocalTest(libunlynx.SuiTe)
	l.Check = onet.CheckNone
	nt := &Net{Local: l, index: map[network.ServerIdentityID]int{}, queues: map[[2]int][]held{}, arrive: make(chan struct{}, 1), count: map[[2]int]int{}}
	nt.Servers = l.GenServers(n)
	for i, s := range nt.Servers {
		nt.index[s.ServerIdentity.ID] = i + 1
		nt.wrap(i+1, s)
	}
	return nt
}

type wrapProc struct {
	n  *Net
	to int
}

func (w *wrapProc) Process(env *network.Envelope) { w.n.incoming(w.to, env) }

func (n *Net) wrap(i int, s *onet.Server) {
	s.RegisterProcessor(&wrapProc{n, i}, onet.ProtocolMsgID)
}

func (n *Net) deliver(h held) {
	n.Local.Overlays[n.Servers[h.to-1].ServerIdentity.ID].Process(h.env)
}

func (n *Net) incoming(to int, env *network.Envelope) {
	from := n.index[env.ServerIdentity.ID]
	n.mu.Lock()
	k := [2]int{from, to}
	n.count[k]++
	nth := n.count[k]
	if n.onSend != nil {
		n.onSend(from, to, env)
	}
	if (n.dropFrom != nil && n.dropFrom[from]) || (n.dropMsg != nil && n.dropMsg(from, to, nth)) {
		n.mu.Unlock()
		return
	}
	tam := n.tamper
	if tam != nil {
		tam.apply(from, to, env)
	}
	if n.hold && from != to {
		n.queues[k] = append(n.queues[k], held{env, to})
		n.mu.Unlock()
		select {
		case n.arrive <- struct{}{}:
		default:
		}
		return
	}
	n.log = append(n.log, k)
	n.mu.Unlock()
	n.deliver(held{env, to})
}

// Reset prepares for the next case.
func (n *Net) Reset(hold bool) {
	n.mu.Lock()
	n.hold = hold
	n.queues = map[[2]int][]held{}
	n.count = map[[2]int]int{}
	n.log = nil
	n.dropFrom = nil
	n.dropMsg = nil
	n.onSend = nil
	n.tamper = nil
	n.mu.Unlock()
}

func (n *Net) popReady(k [2]int) (held, bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	q := n.queues[k]
	if len(q) == 0 {
		return held{}, false
	}
	h := q[0]
	n.queues[k] = q[1:]
	n.log = append(n.log, k)
	return h, true
}

// Run delivers messages following the schedule (pairs from,to); entries for which no message shows
// up in time are skipped, and once the schedule is used up everything is delivered as it comes.
func (n *Net) Run(schedule [][2]int, stop <-chan struct{}, patience time.Duration) (used int) {
	for _, k := range schedule {
		deadline := time.After(patience)
	wait:
		for {
			if h, ok := n.popReady(k); ok {
				n.deliver(h)
				used++
				break wait
			}
			select {
			case <-n.arrive:
			case <-time.After(5 * time.Millisecond):
			case <-deadline:
				break wait
			case <-stop:
				return
			}
		}
	}
	n.mu.Lock()
	n.hold = false
	var rest []held
	for k, q := range n.queues {
		rest = append(rest, q...)
		for range q {
			n.log = append(n.log, k)
		}
	}
	n.queues = map[[2]int][]held{}
	n.mu.Unlock()
	for _, h := range rest {
		n.deliver(h)
	}
	return
}

// Log returns the deliveries so far.
func (n *Net) Log() [][2]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([][2]int{}, n.log...)
}

// Roster over the servers given by 1-based index.
func (n *Net) Roster(idx []int) *onet.Roster {
	ids := make([]*network.ServerIdentity, len(idx))
	for i, x := range idx {
		ids[i] = n.Servers[x-1].ServerIdentity
	}
	return onet.NewRoster(ids)
}

// Tree builds the tree in which node i (1-based position in idx) has parent[i-1] (0 for the root, which is node 1).
func (n *Net) Tree(idx []int, parent []int) (*onet.Roster, *onet.Tree) {
	ro := n.Roster(idx)
	nodes := make([]*onet.TreeNode, len(idx))
	for i := range idx {
		nodes[i] = onet.NewTreeNode(i, ro.List[i])
	}
	for i := range idx {
		if parent[i] > 0 {
			nodes[parent[i]-1].AddChild(nodes[i])
		}
	}
	t := onet.NewTree(ro, nodes[0])
	n.Local.Trees[t.ID] = t
	for _, id := range ro.List {
		n.Local.Overlays[id.ID].RegisterTree(t)
	}
	return ro, t
}

// Priv returns the private key of server i.
func (n *Net) Priv(i int) kyber.Scalar { return n.Local.GetPrivate(n.Servers[i-1]) }

// SumPriv is the private key matching the collective key of the servers.
func (n *Net) SumPriv(idx []int) kyber.Scalar {
	s := libunlynx.SuiTe.Scalar().Zero()
	for _, i := range idx {
		s = s.Add(s, n.Priv(i))
	}
	return s
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i + 1
	}
	return r
}

// Who is the 1-based index of the server a protocol instance runs on.
func (n *Net) Who(id network.ServerIdentityID) int { return n.index[id] }

// theNet is the set of servers of this process, enlarged on demand.
var theNet *Net

func getNet(n int) *Net {
	if theNet == nil || len(theNet.Servers) < n {
		theNet = NewNet(n)
	}
	return theNet
}

var protoCtors = map[string]func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error){}
var protoMu sync.Mutex

// regProto registers (once) a protocol name whose constructor can be exchanged per case.
func regProto(name string) {
	_, err := onet.GlobalProtocolRegister(name, func(t *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		protoMu.Lock()
		f := protoCtors[name]
		protoMu.Unlock()
		pi, err := f(t)
		if err != nil {
			return nil, err
		}
		return &tracked{pi}, nil
	})
	check(err)
}

// tracked counts the Dispatches that began and ended.
type tracked struct{ onet.ProtocolInstance }

var dispatchBegun, dispatchEnded int32

func (t *tracked) Dispatch() error {
	atomic.AddInt32(&dispatchBegun, 1)
	defer atomic.AddInt32(&dispatchEnded, 1)
	return t.ProtocolInstance.Dispatch()
}

func under(pi onet.ProtocolInstance) onet.ProtocolInstance {
	if t, ok := pi.(*tracked); ok {
		return t.ProtocolInstance
	}
	return pi
}

// allEnded is closed when all Dispatches ended (and none began for a while) or when they had more than enough time.
func allEnded(fault bool) chan struct{} {
	ch := make(chan struct{})
	if !fault {
		return ch
	}
	go func() {
		defer close(ch)
		end := time.Now().Add(endLimit())
		quiet := 0
		last := int32(-1)
		for quiet < 40 && time.Now().Before(end) {
			b := atomic.LoadInt32(&dispatchBegun)
			if b > 0 && b == last && b <= atomic.LoadInt32(&dispatchEnded) {
				quiet++
			} else {
				quiet = 0
			}
			last = b
			time.Sleep(10 * time.Millisecond)
		}
	}()
	return ch
}

func unended() int {
	return maxi(0, int(atomic.LoadInt32(&dispatchBegun)-atomic.LoadInt32(&dispatchEnded)))
}

// faultMode shortens the protocols' time-out for the runs in which messages are lost.
func faultMode(ms int) func() {
	if ms == 0 {
		return func() {}
	}
	old := libunlynx.TIMEOUT
	atomic.StoreInt32(&dispatchBegun, 0)
	atomic.StoreInt32(&dispatchEnded, 0)
	libunlynx.TIMEOUT = time.Duration(ms) * time.Millisecond
	return func() { libunlynx.TIMEOUT = old }
}

func endLimit() time.Duration { return 8*libunlynx.TIMEOUT + 5*time.Second }

func setProto(name string, f func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error)) {
	protoMu.Lock()
	protoCtors[name] = f
	protoMu.Unlock()
}

// wait for a second delivery on a feedback channel; normally there is none.
const secondWait = 3 * time.Millisecond
