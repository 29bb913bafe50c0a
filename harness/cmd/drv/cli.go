package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3/util/encoding"
)

// The whole system as it is deployed: processes of the real binary as servers, each with its own folder and data
// file, and the real command line as querier. What it prints is what is judged.

func init() { families["cli"] = runCli }

type cliNet struct {
	group string
	dirs  []string
	dead  chan string
}

var cliNets = map[int]*cliNet{}

// freePort finds two consecutive free ports: a server also listens for clients on the one after its own.
func freePort() int {
	for {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		check(err)
		p := l.Addr().(*net.TCPAddr).Port
		m, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(p+1))
		l.Close()
		if err == nil {
			m.Close()
			return p
		}
	}
}

func getCli(n int) *cliNet {
	if c, ok := cliNets[n]; ok {
		return c
	}
	root, err := ioutil.TempDir(runDir, "cli")
	check(err)
	c := &cliNet{group: filepath.Join(root, "group.toml"), dead: make(chan string, n)}
	var toml bytes.Buffer
	var ports []int
	for i := 0; i < n; i++ {
		dir := filepath.Join(root, "s"+strconv.Itoa(i))
		check(os.Mkdir(dir, 0700))
		priv, pub := keypair()
		privHex, err := encoding.ScalarToStringHex(libunlynx.SuiTe, priv)
		check(err)
		pubHex, err := encoding.PointToStringHex(libunlynx.SuiTe, pub)
		check(err)
		p := freePort()
		conf := fmt.Sprintf("Suite = \"Ed25519\"\nPublic = \"%s\"\nPrivate = \"%s\"\nAddress = \"tcp://127.0.0.1:%d\"\nListenAddress = \"127.0.0.1:%d\"\nDescription = \"server %d\"\n", pubHex, privHex, p, p, i)
		check(ioutil.WriteFile(filepath.Join(dir, "private.toml"), []byte(conf), 0600))
		fmt.Fprintf(&toml, "[[servers]]\n  Address = \"tcp://127.0.0.1:%d\"\n  Suite = \"Ed25519\"\n  Public = \"%s\"\n  Description = \"server %d\"\n\n", p, pubHex, i)
		ports = append(ports, p)
		c.dirs = append(c.dirs, dir)
		started := make(chan error, 1)
		go func(i int) {
			// the servers end with the thread that started them
			runtime.LockOSThread()
			cmd := exec.Command(os.Getenv("UNLYNX"), "server", "-c", "private.toml")
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "HOME="+dir, "XDG_DATA_HOME="+dir, "CONODE_SERVICE_PATH="+dir)
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			started <- cmd.Start()
			cmd.Wait()
			c.dead <- fmt.Sprintf("server %d ended: %s", i, tail(out.String(), 2000))
		}(i)
		check(<-started)
	}
	check(ioutil.WriteFile(c.group, toml.Bytes(), 0644))
	for _, p := range ports {
		for _, q := range []int{p, p + 1} {
			end := time.Now().Add(20 * time.Second)
			for {
				conn, err := net.DialTimeout("tcp", "127.0.0.1:"+strconv.Itoa(q), time.Second)
				if err == nil {
					conn.Close()
					break
				}
				if time.Now().After(end) {
					panic("a server does not listen: " + err.Error())
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	cliNets[n] = c
	return c
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var rowRe = regexp.MustCompile(`- ([0-9]+) \) \[([-0-9 ]*)\] -> \[([-0-9 ]*)\]`)

func ints64(s string) []int64 {
	out := []int64{}
	for _, f := range strings.Fields(s) {
		v, err := strconv.ParseInt(f, 10, 64)
		check(err)
		out = append(out, v)
	}
	return out
}

func runCli(id string, raw json.RawMessage) Obs {
	var c struct {
		Servers int        `json:"servers"`
		Surveys []svSurvey `json:"surveys"`
		Args    [][]string `json:"args"`
		Par     bool       `json:"par"`
		Gob     []pcOp     `json:"gob"`
	}
	check(json.Unmarshal(raw, &c))
	n := getCli(c.Servers)
	out := make([]Obs, len(c.Surveys))
	data := func(s *svSurvey) {
		s.Ros = make([]int, c.Servers)
		writeApp(s)
		b, err := ioutil.ReadFile("unlynx_test_data.txt")
		check(err)
		for _, d := range n.dirs {
			check(ioutil.WriteFile(filepath.Join(d, "unlynx_test_data.txt"), b, 0644))
		}
	}
	query := func(i int) {
		o := Obs{"created": true, "ackearly": false, "unknownserver": false, "uperr": "", "answered": false, "err": "", "rows": []svRow{}}
		out[i] = o
		args := make([]string, len(c.Args[i]))
		for j, a := range c.Args[i] {
			args[j] = strings.Replace(a, "GROUPFILE", n.group, 1)
		}
		cmd := exec.Command(os.Getenv("UNLYNX"), append([]string{"-d", "1"}, args...)...)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		if err != nil {
			o["err"] = tail(buf.String(), 600)
			return
		}
		rows := []svRow{}
		for k, m := range rowRe.FindAllStringSubmatch(buf.String(), -1) {
			if m[1] != strconv.Itoa(k) {
				o["err"] = "rows are not numbered in order: " + tail(buf.String(), 600)
			}
			rows = append(rows, svRow{ints64(m[2]), ints64(m[3])})
		}
		sort.Slice(rows, func(a, b int) bool { return fmt.Sprint(rows[a]) < fmt.Sprint(rows[b]) })
		o["rows"] = rows
		o["answered"] = true
	}
	for i := range c.Surveys {
		if i == 0 || !c.Par {
			data(&c.Surveys[i])
		}
		if !c.Par {
			query(i)
		}
	}
	if c.Par {
		done := make(chan bool)
		for i := range c.Surveys {
			go func(i int) { query(i); done <- true }(i)
		}
		for range c.Surveys {
			<-done
		}
	}
	select {
	case why := <-n.dead:
		return Obs{"crash": true, "why": why}
	default:
	}
	return Obs{"out": out, "unknownbad": 0, "badtaken": 0}
}
