package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/encoding"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

// The command line of the querier: the real binary is run against servers that only record what it submits.

func init() { families["query"] = runQuery }

type sentPair struct {
	Name  string `json:"name"`
	Value string `json:"value"`
}

type sentSurvey struct {
	Sum     []string   `json:"sum"`
	Where   []sentPair `json:"where"`
	GroupBy []string   `json:"groupBy"`
	Pred    string     `json:"pred"`
	Count   bool       `json:"count"`
	Proofs  bool       `json:"proofs"`
}

type querySrv struct {
	sync.Mutex
	group   string
	dir     string
	secrets []kyber.Scalar
	got     []servicesunlynx.SurveyCreationQuery
	bad     string
}

var querySrvs = map[int]*querySrv{}

// queryServers starts n recording servers and writes their group file.
func queryServers(n int) *querySrv {
	if s, ok := querySrvs[n]; ok {
		return s
	}
	dir, err := ioutil.TempDir(runDir, "query")
	check(err)
	s := &querySrv{dir: dir, group: filepath.Join(dir, "group.toml")}
	var toml bytes.Buffer
	for i := 0; i < n; i++ {
		var l net.Listener
		for {
			l, err = net.Listen("tcp", "127.0.0.1:0")
			check(err)
			if l.Addr().(*net.TCPAddr).Port > 1024 {
				break
			}
		}
		priv, pub := keypair()
		s.secrets = append(s.secrets, priv)
		hex, err := encoding.PointToStringHex(libunlynx.SuiTe, pub)
		check(err)
		fmt.Fprintf(&toml, "[[servers]]\n  Address = \"tcp://127.0.0.1:%d\"\n  Suite = \"Ed25519\"\n  Public = \"%s\"\n  Description = \"server %d\"\n\n", l.Addr().(*net.TCPAddr).Port-1, hex, i)
		mux := http.NewServeMux()
		mux.HandleFunc("/", s.serve)
		go http.Serve(l, mux)
	}
	check(ioutil.WriteFile(s.group, toml.Bytes(), 0644))
	querySrvs[n] = s
	return s
}

func (s *querySrv) serve(w http.ResponseWriter, r *http.Request) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	ws, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer ws.Close()
	for {
		_, buf, err := ws.ReadMessage()
		if err != nil {
			return
		}
		var reply interface{} = &servicesunlynx.ServiceResult{}
		s.Lock()
		if strings.HasSuffix(r.URL.Path, "/SurveyCreationQuery") {
			q := servicesunlynx.SurveyCreationQuery{}
			if err := protobuf.DecodeWithConstructors(buf, &q, network.DefaultConstructors(libunlynx.SuiTe)); err != nil {
				s.bad = err.Error()
			}
			s.got = append(s.got, q)
			reply = &servicesunlynx.ServiceState{SurveyID: "recorded"}
		}
		s.Unlock()
		out, err := protobuf.Encode(reply)
		check(err)
		if ws.WriteMessage(websocket.BinaryMessage, out) != nil {
			return
		}
	}
}

var numRe = regexp.MustCompile(`-?[0-9]+`)

func strs(v []string) []string {
	if v == nil {
		return []string{}
	}
	return v
}

func runQuery(id string, raw json.RawMessage) Obs {
	var c struct {
		Servers int      `json:"servers"`
		Args    []string `json:"args"`
		Values  string   `json:"values"` // text with the integers that may have been encrypted
	}
	check(json.Unmarshal(raw, &c))
	s := queryServers(c.Servers)
	s.Lock()
	s.got = nil
	s.bad = ""
	s.Unlock()
	args := make([]string, len(c.Args))
	for i, a := range c.Args {
		args[i] = strings.Replace(a, "GROUPFILE", s.group, 1)
	}
	cmd := exec.Command(os.Getenv("UNLYNX"), args...)
	cmd.Dir = s.dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	check(cmd.Start())
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	var err error
	select {
	case err = <-ended:
	case <-time.After(25 * time.Second):
		cmd.Process.Kill()
		<-ended
		return Obs{"hang": true, "stderr": out.String()}
	}
	exit := 0
	if err != nil {
		exit = cmd.ProcessState.ExitCode()
		if exit == 0 {
			exit = -1
		}
	}
	s.Lock()
	defer s.Unlock()
	if s.bad != "" {
		panic("the submitted survey cannot be decoded: " + s.bad)
	}
	priv := libunlynx.SuiTe.Scalar().Zero()
	for _, x := range s.secrets {
		priv = priv.Add(priv, x)
	}
	known := map[string]string{}
	for _, t := range numRe.FindAllString(c.Values, -1) {
		for _, u := range []string{t, strings.TrimPrefix(t, "-")} {
			if v, err := strconv.ParseInt(u, 10, 64); err == nil {
				known[pkey(pt(v))] = strconv.FormatInt(v, 10)
			}
		}
	}
	surveys := []sentSurvey{}
	for _, q := range s.got {
		ss := sentSurvey{Sum: strs(q.Sum), Where: []sentPair{}, GroupBy: strs(q.GroupBy), Pred: q.Predicate, Count: q.Count, Proofs: q.Proofs}
		for _, w := range q.Where {
			v, ok := known[pkey(decPoint(priv, w.Value))]
			if !ok {
				v = "?"
			}
			ss.Where = append(ss.Where, sentPair{w.Name, v})
		}
		surveys = append(surveys, ss)
	}
	return Obs{"exit": exit, "surveys": surveys}
}
