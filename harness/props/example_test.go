package props

import (
	"bytes"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// ---- C27: the example, a web server for the nodes of a network

type c27 struct {
	Bad   string    `json:"bad,omitempty"` // instead: a port that can not be opened
	Nodes []c27node `json:"nodes,omitempty"`
	Steps []c27step `json:"steps,omitempty"`
}

type c27node struct {
	ID        int  `json:"id"`
	Gen       byte `json:"gen"`
	Spec      byte `json:"spec"`
	IDs       Hex  `json:"ids"`
	Endpoints byte `json:"endpoints"`
	Sleeps    bool `json:"sleeps,omitempty"`
}

type c27step struct {
	Do      string   `json:"do"` // report, get, act, many, lose
	Node    int      `json:"node"`
	Payload Hex      `json:"payload,omitempty"`
	Path    string   `json:"path,omitempty"`
	Action  string   `json:"action,omitempty"`
	Several []string `json:"several,omitempty"` // paths, at the same time
}

// rtStick is a controller at the other end of a pseudo terminal, in real time.
type rtStick struct {
	mu    sync.Mutex
	p     *pty
	done  int // bytes looked at
	buf   []byte
	nodes map[int]*c27node
	sets  []string // commands that switch something: node and bytes
	acks  int
	asked map[string]int // what the nodes were asked for
	off   bool
}

func newRtStick(nodes map[int]*c27node) *rtStick {
	return &rtStick{nodes: nodes, asked: map[string]int{}}
}

func (s *rtStick) plug(p *pty) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.p, s.done, s.buf = p, 0, nil
	go func() {
		for {
			s.mu.Lock()
			if s.p != p {
				s.mu.Unlock()
				return
			}
			b := p.written()
			s.buf = append(s.buf, b[s.done:]...)
			s.done = len(b)
			s.work()
			s.mu.Unlock()
			time.Sleep(500 * time.Microsecond)
		}
	}()
}

func (s *rtStick) feed(b ...byte) { s.p.master.Write(b) }

// work answers what was received.
func (s *rtStick) work() {
	for len(s.buf) > 0 {
		n := refLength(s.buf)
		if n > len(s.buf) {
			return
		}
		if n <= 1 {
			if s.buf[0] == ack {
				s.acks++
			}
			s.buf = s.buf[1:]
			continue
		}
		f := append([]byte(nil), s.buf[:n]...)
		s.buf = s.buf[n:]
		s.feed(ack)
		switch f[3] {
		case fnDiscovery:
			bitmap := make([]byte, 29)
			bitmap[0] = 1
			for id := range s.nodes {
				bitmap[(id-1)/8] |= 1 << ((id - 1) % 8)
			}
			s.asked["discovery"]++
			s.feed(discoveryFrame(bitmap)...)
		case fnProtocolInfo:
			d := s.nodes[int(f[4])]
			if d == nil {
				break
			}
			cap := byte(0x80)
			if d.Sleeps {
				cap = 0
			}
			s.feed(protocolInfoFrame([]byte{cap, 0, 0, 4, d.Gen, d.Spec})...)
		case fnSendData:
			d := s.nodes[int(f[4])]
			if d == nil || len(f) < 9 {
				s.sets = append(s.sets, sprintf("%x", f[4:len(f)-1]))
				break
			}
			s.feed(refFrame([]byte{1, fnSendData, 1})...)
			id := byte(d.ID)
			switch {
			case f[6] == ccManufacturer && f[7] == 4:
				s.feed(reportFrame(id, append([]byte{ccManufacturer, 5}, d.IDs...))...)
			case f[6] == ccMultiChannel && f[7] == 7:
				s.feed(reportFrame(id, []byte{ccMultiChannel, 8, 0x40, d.Endpoints})...)
			case f[7] == 1 && (f[6] == ccSwitchBinary || f[6] == ccMultilevel):
				s.sets = append(s.sets, sprintf("%x", f[4:len(f)-1]))
			case f[7] == 2 && (f[6] == ccSwitchBinary || f[6] == ccMultilevel): // Its state is told later
				s.asked[sprintf("%d %02x", d.ID, f[6])]++
			case f[6] == ccSensor:
				s.asked[sprintf("%d %02x", d.ID, f[6])]++
			}
		}
	}
}

func (s *rtStick) with(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}

func init() {
	reg("C27", "the example program on a pseudo terminal with a simulated controller of 0 to 4 nodes of all kinds, in real time: 1 to 25 reports, requests of pages (nodes, a node, unknown ones, anything), switching of nodes, several at once, and losses of the port; "+
		"or on a port that can not be opened; non-trivial: a node is switched or reports something, or the port can not be opened",
		func(t *rapid.T) c27 {
			var c c27
			if rapid.IntRange(0, 19).Draw(t, "bad") == 7 {
				c.Bad = rapid.SampledFrom([]string{"missing", "file", "directory", "empty"}).Draw(t, "port")
				return c
			}
			used := map[int]bool{1: true}
			for k := rapid.IntRange(0, 4).Draw(t, "nodes"); k > 0; k-- {
				d := c27node{ID: rapid.IntRange(2, 232).Draw(t, "id"), Endpoints: byte(rapid.SampledFrom([]int{0, 1, 2, 3, 0, 1, 2, 3, 40, 127}).Draw(t, "endpoints")), Sleeps: rapid.IntRange(0, 7).Draw(t, "sleeps") == 0}
				if rapid.IntRange(0, 3).Draw(t, "near") == 0 {
					d.ID = rapid.SampledFrom([]int{2, 3, 10, 20, 100, 200, 22, 232}).Draw(t, "id")
				}
				for used[d.ID] {
					d.ID = d.ID%232 + 1
				}
				used[d.ID] = true
				d.Gen, d.Spec = genPair(t)
				if rapid.IntRange(0, 3).Draw(t, "switch") > 0 {
					p := rapid.SampledFrom([][2]byte{{0x10, 1}, {0x11, 1}, {0x11, 3}, {0x10, 3}}).Draw(t, "class")
					d.Gen, d.Spec = p[0], p[1]
				}
				d.IDs = genIDs(t)
				c.Nodes = append(c.Nodes, d)
			}
			id := func() int {
				if len(c.Nodes) == 0 || rapid.IntRange(0, 9).Draw(t, "stranger") == 0 {
					d := rapid.IntRange(0, 300).Draw(t, "strange")
					if len(c.Nodes) > 0 && rapid.Bool().Draw(t, "alike") {
						d = rapid.SampledFrom(c.Nodes).Draw(t, "node").ID + rapid.SampledFrom([]int{256, 65536, 1 << 32, 100, 1, -1}).Draw(t, "more")
					}
					return d
				}
				return rapid.SampledFrom(c.Nodes).Draw(t, "node").ID
			}
			action := func() string {
				if rapid.IntRange(0, 9).Draw(t, "other") == 0 {
					return rapid.SampledFrom([]string{"On", "OFF", "level", "toggle", "1", "on%20", "%00", "offf", "null"}).Draw(t, "what")
				}
				return rapid.SampledFrom([]string{"on", "off"}).Draw(t, "action")
			}
			path := func() string {
				switch rapid.IntRange(0, 4).Draw(t, "path") {
				case 0:
					return "/nodes"
				case 1:
					return rapid.SampledFrom([]string{"/", "/node", "/nodes/", "/nodes/x", "/nodes/-1", "/nodes/1e3", "/nodes/99999999999999999999", "/nodes/0x2", "/nodes/2/on/on", "/nodes/%32%35", "/nodes/x/on", "/nodes/-5/off", "/nodes//on"}).Draw(t, "page")
				}
				return sprintf("/nodes/%d", id())
			}
			for k := rapid.IntRange(1, 25).Draw(t, "steps"); k > 0; k-- {
				s := c27step{Do: rapid.SampledFrom([]string{"report", "report", "report", "get", "get", "act", "act", "act", "many"}).Draw(t, "do")}
				if rapid.IntRange(0, 39).Draw(t, "lose") == 17 {
					s.Do = "lose"
				}
				switch s.Do {
				case "report":
					s.Node, s.Payload = id(), genStatePayload().Draw(t, "report")
				case "get":
					s.Path = path()
				case "act":
					s.Node, s.Action = id(), action()
				case "many":
					for k := rapid.IntRange(2, 12).Draw(t, "at once"); k > 0; k-- {
						p := path()
						if rapid.IntRange(0, 3).Draw(t, "switching") == 0 {
							p = sprintf("/nodes/%d/%s", id(), action())
						}
						s.Several = append(s.Several, p)
					}
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runC27)
}

type c27run struct {
	r      *R
	c      c27
	s      *rtStick
	cmd    *exec.Cmd
	out    lockedBuffer
	exit   chan error
	url    string
	client *http.Client
	states map[int]*refState
	wanted []string // what was switched
}

func (x *c27run) gone() bool {
	select {
	case err := <-x.exit:
		x.exit <- err
		return true
	default:
		return false
	}
}

func (x *c27run) output() []byte {
	x.out.mu.Lock()
	defer x.out.mu.Unlock()
	return append([]byte(nil), x.out.b.Bytes()...)
}

// start runs the example on a port.
func (x *c27run) start(dir, port string) {
	n := 10000 + os.Getpid()%20000
	for { // Usually it is free
		l, err := net.Listen("tcp", sprintf(":%d", n))
		if err == nil {
			l.Close()
			break
		}
		n = 10000 + (n+7919)%20000
	}
	x.url = sprintf("http://127.0.0.1:%d", n)
	x.client = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 20}}
	x.cmd = exec.Command(tool("EXAMPLE"), "-port", port)
	x.cmd.Dir = dir
	x.cmd.Env = append(os.Environ(), sprintf("PORT=%d", n), "GIN_MODE=release")
	x.cmd.Stdout, x.cmd.Stderr = &x.out, &x.out
	x.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := x.cmd.Start(); err != nil {
		harnessBug(err)
	}
	x.exit = make(chan error, 1)
	go func() { x.exit <- x.cmd.Wait() }()
}

func (x *c27run) stop() {
	x.client.CloseIdleConnections()
	x.cmd.Process.Kill()
	<-x.exit
}

// get requests a page; it returns the status 0 when there was no answer.
func (x *c27run) get(path string) (int, []byte) {
	resp, err := x.client.Get(x.url + path)
	if err != nil {
		return 0, []byte(err.Error())
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, []byte(err.Error())
	}
	return resp.StatusCode, b
}

type c27json struct {
	ID             int `json:"id"`
	CommandClasses []struct{ ID int }
	StateBool      map[string]bool
	StateFloat     map[string]float64
	Endpoints      []struct{ Id int }
	Brand, Product string
}

// shows compares a page with a node.
func (x *c27run) shows(id int, body []byte) string {
	var n c27json
	if err := json.Unmarshal(body, &n); err != nil {
		return sprintf("the page is no node: %v: %s", err, short(body))
	}
	if n.ID != id {
		return sprintf("the page has the node %d", n.ID)
	}
	b, f := map[string]bool{}, map[string]float64{}
	for k, v := range n.StateBool {
		if k != "alarm" {
			b[k] = v
		}
	}
	for k, v := range n.StateFloat {
		if k != "alarm" {
			f[k] = v
		}
	}
	want := newRefState() // The end of an alarm depends on the time
	for k, v := range x.states[id].B {
		if k != "alarm" {
			want.B[k] = v
		}
	}
	for k, v := range x.states[id].F {
		if k != "alarm" {
			want.F[k] = v
		}
	}
	want.any = x.states[id].any
	if d := want.differs(b, f, 0); d != "" {
		return d
	}
	return ""
}

// node is the description of a node by its id in a path.
func (x *c27run) node(id int) *c27node {
	for i := range x.c.Nodes {
		if x.c.Nodes[i].ID == id {
			return &x.c.Nodes[i]
		}
	}
	return nil
}

// classesOf are the command classes a node has after its identification.
func (d *c27node) classesOf() map[byte]bool {
	n := netNode{Info: Hex{0x80, 0, 0, 4, d.Gen, d.Spec}, IDs: d.IDs}
	ids := []byte(d.IDs)
	if d.Sleeps {
		ids = nil
	}
	l, _ := n.classes(ids)
	m := map[byte]bool{}
	for _, c := range l {
		m[c.id] = true
	}
	return m
}

// command is what an action has to send.
func (x *c27run) command(id int, action string) string {
	d := x.node(id)
	if d == nil {
		return ""
	}
	cl := d.classesOf()
	v := byte(0)
	switch {
	case action != "on" && action != "off":
		return ""
	case cl[ccSwitchBinary]:
		if action == "on" {
			v = 0xFF
		}
		return sprintf("%x", []byte{byte(id), 3, ccSwitchBinary, 1, v})
	case cl[ccMultilevel]:
		if action == "on" {
			v = 99
		}
		return sprintf("%x", []byte{byte(id), 3, ccMultilevel, 1, v})
	}
	return ""
}

// judgePath says what is wrong with the answer to a path, and what it had to send.
func (x *c27run) judge(path string, code int, body []byte, exact bool) (wrong, sent string) {
	if code == 0 {
		return sprintf("there is no answer to %s: %s", path, body), ""
	}
	parts := strings.Split(strings.Trim(path, "/"), "/")
	switch {
	case path == "/nodes":
		var all map[string]json.RawMessage
		if code != 200 {
			return sprintf("%s: status %d: %s", path, code, short(body)), ""
		}
		if err := json.Unmarshal(body, &all); err != nil {
			return sprintf("%s: %v: %s", path, err, short(body)), ""
		}
		var have, want []string
		for k := range all {
			have = append(have, k)
		}
		for _, d := range x.c.Nodes {
			want = append(want, strconv.Itoa(d.ID))
		}
		sort.Strings(have)
		sort.Strings(want)
		if strings.Join(have, " ") != strings.Join(want, " ") {
			return sprintf("%s: there are the nodes %v, should be %v", path, have, want), ""
		}
		for _, d := range x.c.Nodes {
			if w := x.shows(d.ID, all[strconv.Itoa(d.ID)]); w != "" && exact {
				return sprintf("%s: node %d: %s", path, d.ID, w), ""
			}
		}
		return "", ""
	case len(parts) == 2 && parts[0] == "nodes" && !strings.HasSuffix(path, "/"):
		if id, err := strconv.Atoi(parts[1]); err == nil && x.node(id) != nil {
			if code != 200 {
				return sprintf("%s: status %d: %s", path, code, short(body)), ""
			}
			if w := x.shows(id, body); w != "" && exact {
				return sprintf("%s: %s", path, w), ""
			}
			return "", ""
		}
	case len(parts) == 3 && parts[0] == "nodes":
		if id, err := strconv.Atoi(parts[1]); err == nil && x.node(id) != nil && (parts[2] == "on" || parts[2] == "off") {
			if code != 200 {
				return sprintf("%s: status %d: %s", path, code, short(body)), ""
			}
			return "", x.command(id, parts[2])
		}
	}
	if len(parts) >= 2 && parts[0] == "nodes" && len(parts[1]) < 10 && !strings.HasSuffix(path, "/") {
		if id, err := strconv.Atoi(parts[1]); err == nil && len(parts) < 4 && code != 404 && sprintf("/nodes/%d", id) == "/"+parts[0]+"/"+parts[1] {
			return sprintf("%s is not there, and the status is %d: %s", path, code, short(body)), ""
		}
	}
	if strings.Contains(path, "%") || strings.HasSuffix(path, "/") || strings.Contains(path, "//") {
		return "", "" // It may mean another page
	}
	if code < 400 {
		return sprintf("%s is no page, and the status is %d: %s", path, code, short(body)), ""
	}
	return "", ""
}

func runC27(c c27, r *R) {
	dir, err := os.MkdirTemp(scratch, "c27.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	x := &c27run{r: r, c: c, states: map[int]*refState{}}

	if c.Bad != "" {
		port := filepath.Join(dir, "port")
		switch c.Bad {
		case "file":
			os.WriteFile(port, []byte("x"), 0666)
		case "directory":
			os.Mkdir(port, 0777)
		case "empty":
			port = ""
		}
		x.start(dir, port)
		defer x.stop()
		r.Label("port: %s", c.Bad)
		r.Nontrivial(true)
		if !until(x.gone) {
			if c.Bad != "missing" && c.Bad != "empty" {
				return // It may be opened, and have no controller
			}
			r.Failf("the port can not be opened (%s), and the program goes on: %s", c.Bad, short(x.output()))
			return
		}
		if code := x.cmd.ProcessState.ExitCode(); crashed(x.output(), code) || code == 0 {
			r.Failf("the port can not be opened (%s), and the program ends with %d: %s", c.Bad, code, short(x.output()))
		}
		return
	}

	nodes := map[int]*c27node{}
	for i := range c.Nodes {
		nodes[c.Nodes[i].ID] = &c.Nodes[i]
		x.states[c.Nodes[i].ID] = newRefState()
	}
	x.s = newRtStick(nodes)
	link := filepath.Join(dir, "port")
	var last *pty
	plug := func() {
		p, err := openPty()
		if err != nil {
			harnessBug(err)
		}
		os.Remove(link)
		if err := os.Symlink(p.slave, link); err != nil {
			harnessBug(err)
		}
		x.s.plug(p)
		last = p
	}
	plug()
	defer func() {
		x.s.with(func() { x.s.p = nil })
		last.master.Close()
	}()
	x.start(dir, link)
	defer x.stop()
	fail := func(format string, a ...interface{}) {
		s := ""
		if x.gone() {
			s = sprintf("\nThe program has ended with %d: %s", x.cmd.ProcessState.ExitCode(), tail(x.output()))
		}
		r.Failf("%s%s", sprintf(format, a...), s)
	}

	// It is connected, and the nodes are identified
	ready := func() bool {
		if x.gone() {
			return true
		}
		code, body := x.get("/nodes")
		if w, _ := x.judge("/nodes", code, body, false); w != "" {
			return false
		}
		var all map[string]c27json
		json.Unmarshal(body, &all)
		for _, d := range c.Nodes {
			n := all[strconv.Itoa(d.ID)]
			have := map[byte]bool{}
			for _, cl := range n.CommandClasses {
				have[byte(cl.ID)] = true
			}
			for cl := range d.classesOf() {
				if !have[cl] {
					return false
				}
			}
			if !d.Sleeps && len(n.CommandClasses) > 0 && len(n.Endpoints) != int(d.Endpoints) {
				return false
			}
		}
		ok := true
		x.s.with(func() {
			for _, d := range c.Nodes {
				for cl := range d.classesOf() {
					if !d.Sleeps && (cl == ccSwitchBinary || cl == ccMultilevel || cl == ccSensor) && x.s.asked[sprintf("%d %02x", d.ID, cl)] == 0 {
						ok = false
					}
				}
			}
		})
		return ok
	}
	if !slowly(ready) || x.gone() {
		_, body := x.get("/nodes")
		fail("the nodes are not shown as they are: %s", short(body))
		return
	}

	sets := func() (l []string) {
		x.s.with(func() { l = append(l, x.s.sets...) })
		return
	}
	same := func(sorting bool) bool {
		have, want := sets(), append([]string(nil), x.wanted...)
		if sorting {
			sort.Strings(have)
			sort.Strings(want)
		}
		if len(have) != len(want) {
			return false
		}
		for i := range have {
			if !strings.HasPrefix(have[i], want[i]) {
				return false
			}
		}
		return true
	}
	acks := func() (n int) {
		x.s.with(func() { n = x.s.acks })
		return
	}
	mixed := false
	for i, st := range c.Steps {
		if x.gone() {
			fail("step %d: the program has ended", i)
			return
		}
		switch st.Do {
		case "report":
			if st.Node < 1 || st.Node > 255 {
				continue
			}
			f := reportFrame(byte(st.Node), st.Payload)
			before := acks()
			x.s.with(func() { x.s.feed(f...) })
			foldFrame(x.states, f, 0)
			if !slowly(func() bool { return acks() > before || x.gone() }) {
				fail("step %d: the report %x gets no ACK", i, f)
				return
			}
			if x.states[st.Node] == nil {
				continue
			}
			why := ""
			if !slowly(func() bool {
				code, body := x.get(sprintf("/nodes/%d", st.Node))
				why, _ = x.judge(sprintf("/nodes/%d", st.Node), code, body, true)
				return why == "" || x.gone()
			}) || why != "" {
				fail("step %d: after the report %x: %s", i, f, why)
				return
			}
			r.Label("a report is shown")
			r.Nontrivial(true)
		case "get":
			code, body := x.get(st.Path)
			if w, _ := x.judge(st.Path, code, body, true); w != "" {
				fail("step %d: %s", i, w)
				return
			}
			r.Label("status %d", code)
		case "act":
			path := sprintf("/nodes/%d/%s", st.Node, st.Action)
			code, body := x.get(path)
			w, sent := x.judge(path, code, body, true)
			if w != "" {
				fail("step %d: %s", i, w)
				return
			}
			if sent != "" {
				x.wanted = append(x.wanted, sent)
				r.Label("a node is switched")
				r.Nontrivial(true)
			}
		case "many":
			var wg sync.WaitGroup
			var mu sync.Mutex
			first := ""
			for _, p := range st.Several {
				p := p
				wg.Add(1)
				go func() {
					defer wg.Done()
					code, body := x.get(p)
					w, sent := x.judge(p, code, body, true)
					mu.Lock()
					defer mu.Unlock()
					if w != "" && first == "" {
						first = w
					}
					if sent != "" {
						x.wanted = append(x.wanted, sent)
						mixed = true
					}
				}()
			}
			wg.Wait()
			r.Label("several requests at once")
			if first != "" {
				fail("step %d: %s", i, first)
				return
			}
		case "lose":
			if !slowly(func() bool { return same(mixed) }) {
				break // It is judged in the end
			}
			time.Sleep(100 * time.Millisecond)
			old := last
			plug()
			old.master.Close()
			r.Label("loss of the port")
			why := ""
			for k := 0; k < 3; k++ { // The nodes are still known
				for _, d := range c.Nodes {
					p := sprintf("/nodes/%d", d.ID)
					code, body := x.get(p)
					if why, _ = x.judge(p, code, body, true); why != "" {
						fail("step %d: after the loss of the port: %s", i, why)
						return
					}
				}
			}
			before := acks()
			if !slowly(func() bool {
				if acks() > before || x.gone() {
					return true
				}
				if opened(last) {
					time.Sleep(60 * time.Millisecond)
					x.s.with(func() { x.s.feed(reportFrame(233, []byte{ccSwitchBinary, 3, 0})...) })
				}
				time.Sleep(50 * time.Millisecond)
				return false
			}) {
				fail("step %d: nothing is received after the port was lost", i)
				return
			}
			time.Sleep(150 * time.Millisecond) // for the last of them
		}
	}
	if !slowly(func() bool { return same(mixed) || x.gone() }) || x.gone() {
		fail("the commands %v were sent, should be %v", sets(), x.wanted)
		return
	}
	time.Sleep(130 * time.Millisecond) // Nothing else is sent
	if !same(mixed) || x.gone() {
		fail("the commands %v were sent, should be %v", sets(), x.wanted)
		return
	}
	code, body := x.get("/nodes")
	if w, _ := x.judge("/nodes", code, body, true); w != "" {
		fail("in the end: %s", w)
		return
	}
	if out := x.output(); bytes.Contains(out, []byte("panic recovered")) {
		fail("a request crashed: %s", short(out[bytes.Index(out, []byte("panic recovered")):]))
	}
}

// slowly waits for something that is expensive to find out.
func slowly(f func() bool) bool {
	end := time.Now().Add(30 * time.Second)
	for d := time.Millisecond; ; d = min(2*d, 50*time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
	}
}

func tail(b []byte) string {
	if i := bytes.Index(b, []byte("panic:")); i >= 0 {
		return short(b[i:])
	}
	if len(b) > 700 {
		b = b[len(b)-700:]
	}
	return string(b)
}

// opened says if someone else has opened the pseudo terminal, and it is raw.
func opened(p *pty) bool {
	c, err := p.master.SyscallConn()
	if err != nil {
		return false
	}
	raw := false
	c.Control(func(fd uintptr) {
		var t syscall.Termios
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t))); e == 0 {
			raw = t.Lflag&(syscall.ECHO|syscall.ICANON) == 0
		}
	})
	return raw
}
