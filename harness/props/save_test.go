package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/events"
	"pgregory.net/rapid"
)

// ---- C17

type c17 struct {
	NoFile bool       `json:"nofile,omitempty"` // no file name
	Old    string     `json:"old"`              // what is at the file name: none, nodes, small, long, broken
	Nodes  []fileNode `json:"nodes"`            // in the file, if it has nodes
	Net    []int      `json:"net"`              // in the network
	Idents []c17ident `json:"idents,omitempty"` // what these answer, in the same order
	Steps  []c17step  `json:"steps"`
	Deaf   bool       `json:"deaf,omitempty"` // nobody reads the events
}

// c17ident is what a node of the network answers when it is identified.
type c17ident struct {
	Level     int  `json:"level"` // 0 nothing, 1 its protocol info, 2 its manufacturer, 3 its endpoints
	Info      Hex  `json:"info,omitempty"`
	IDs       Hex  `json:"ids,omitempty"`
	Endpoints int  `json:"endpoints,omitempty"`
	Delay     int  `json:"delay,omitempty"` // ms
	Lost      bool `json:"lost,omitempty"`  // the first request is not answered
}

type c17step struct {
	Gap     int    `json:"gap"` // ms before it
	Do      string `json:"do"`  // report, save, bad, good, limit, unlimit, hide, show, add, lock, left
	Node    int    `json:"node,omitempty"`
	Payload Hex    `json:"payload,omitempty"`
	Limit   int    `json:"limit,omitempty"` // bytes that can be written to a file
	Value   string `json:"value,omitempty"`
	For     int    `json:"for,omitempty"`  // ms a node is locked by a user: saving waits for it
	Left    int    `json:"left,omitempty"` // bytes that a process which was killed has left in its temporary files
}

// watcher records what happens to the names in a directory.
type watcher struct {
	fd int
}

func watch(dir string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE_SELF|syscall.IN_MOVE_SELF); err != nil {
		syscall.Close(fd)
		return nil
	}
	return &watcher{fd}
}

type watched struct {
	mask uint32
	name string
}

func (w *watcher) read() (l []watched) {
	if w == nil {
		return nil
	}
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return
		}
		for at := 0; at+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[at]))
			at += syscall.SizeofInotifyEvent
			name := strings.TrimRight(string(buf[at:at+int(e.Len)]), "\x00")
			at += int(e.Len)
			l = append(l, watched{e.Mask, name})
		}
	}
}

func (w *watcher) close() {
	if w != nil {
		syscall.Close(w.fd)
	}
}

// limitFiles sets the number of bytes that can be written to a file, as if the
// disk were full; negative is no limit.
func limitFiles(n int) {
	l := syscall.Rlimit{}
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		harnessBug(err)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		harnessBug(err)
	}
}

// savedNodes reads a configuration as the nodes it has.
func savedNodes(b []byte) (map[int]fileNode, error) {
	var top struct {
		Nodes map[string]*struct {
			ID                  int  `json:"id"`
			Awake               bool `json:"is_awake"`
			ManufacurerSpecific *struct {
				Manufacturer string `json:"manufacturer"`
				Type         string `json:"type"`
				ID           string `json:"id"`
			}
			Brand, Product, Description string
			CommandClasses              []fileClassJSON
			Endpoints                   []struct {
				ID             int `json:"Id"`
				CommandClasses []fileClassJSON
				StateBool      map[string]bool
				StateFloat     map[string]float64
			}
			StateBool  map[string]bool
			StateFloat map[string]float64
		}
	}
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&top); err != nil {
		return nil, err
	}
	if len(bytes.TrimSpace(b[d.InputOffset():])) > 0 {
		return nil, errors.New("there is more in the file than the configuration")
	}
	if top.Nodes == nil {
		return nil, errors.New("there are no nodes in the file")
	}
	m := map[int]fileNode{}
	for _, n := range top.Nodes {
		if n == nil {
			continue
		}
		f := fileNode{ID: n.ID, Awake: n.Awake, Brand: n.Brand, Product: n.Product, Desc: n.Description, Classes: fromJSON(n.CommandClasses),
			Bools: copyBools(n.StateBool), Floats: copyFloats(n.StateFloat), Asked: n.Endpoints != nil}
		if s := n.ManufacurerSpecific; s != nil {
			f.MS = []string{s.Manufacturer, s.Type, s.ID}
		}
		for _, e := range n.Endpoints {
			f.Endpoints = append(f.Endpoints, fileEndpoint{e.ID, fromJSON(e.CommandClasses), copyBools(e.StateBool), copyFloats(e.StateFloat)})
		}
		m[n.ID] = f
	}
	return m, nil
}

type fileClassJSON struct {
	ID                       byte
	InNIF, Secure, NonSecure bool
	Version                  string
}

func fromJSON(l []fileClassJSON) (r []fileClass) {
	for _, c := range l {
		r = append(r, fileClass{c.ID, c.InNIF, c.Secure, c.NonSecure, c.Version})
	}
	return
}

func init() {
	signal.Ignore(syscall.SIGXFSZ)
	reg("C17", "a controller with nodes from the configuration and the network, and 1 to 14 steps: reports at any spacing (many below and above ten seconds), explicit saves, several at once, states that can not be encoded, "+
		"a full disk after any number of bytes, a missing directory, and their end, temporary files of a process that was killed, events that nobody reads, nodes that a user keeps locked while the configuration is saved; with and without a file name, and with different contents of the file before; "+
		"non-trivial: at least two saves by the debouncer or one that fails",
		func(t *rapid.T) c17 {
			c := c17{NoFile: rapid.IntRange(0, 9).Draw(t, "nofile") == 0, Old: rapid.SampledFrom([]string{"none", "nodes", "nodes", "nodes", "small", "long", "broken"}).Draw(t, "old")}
			used := map[int]bool{1: true}
			for k := rapid.IntRange(1, 3).Draw(t, "nodes"); k > 0; k-- {
				c.Nodes = append(c.Nodes, genFileNode(t, used))
			}
			if rapid.IntRange(0, 29).Draw(t, "large") == 17 {
				for k := rapid.IntRange(10, 80).Draw(t, "more nodes"); k > 0; k-- {
					c.Nodes = append(c.Nodes, genFileNode(t, used))
				}
			}
			least := 1
			if c.Old == "nodes" || c.Old == "long" {
				least = 0
			}
			if c.NoFile {
				least, c.Old = 1, "none"
			}
			for k := rapid.IntRange(least, 3).Draw(t, "net"); k > 0; k-- {
				id := rapid.IntRange(2, 232).Draw(t, "netid")
				for used[id] {
					id = id%232 + 1
				}
				used[id] = true
				c.Net = append(c.Net, id)
			}
			c.Deaf = rapid.IntRange(0, 9).Draw(t, "deaf") == 7
			if !c.Deaf && rapid.Bool().Draw(t, "idents") {
				for range c.Net {
					d := c17ident{Level: rapid.IntRange(0, 3).Draw(t, "level")}
					if d.Level > 0 {
						g, sp := genPair(t)
						d.Info = Hex{0x80 | rapid.Byte().Draw(t, "cap"), 0, 0, 4, g, sp}
						d.IDs = genIDs(t)
						d.Endpoints = rapid.IntRange(0, 3).Draw(t, "endpoints")
						d.Delay = rapid.OneOf(rapid.IntRange(0, 1500), rapid.IntRange(0, 9000)).Draw(t, "delay")
						d.Lost = rapid.IntRange(0, 4).Draw(t, "lost") == 0
					}
					c.Idents = append(c.Idents, d)
				}
			}
			var ids []int
			for id := range used {
				if id != 1 {
					ids = append(ids, id)
				}
			}
			sort.Ints(ids)
			n := rapid.IntRange(1, 14).Draw(t, "steps")
			long := rapid.IntRange(0, 24).Draw(t, "long history") == 17
			if long {
				n = rapid.IntRange(15, 60).Draw(t, "many steps")
			}
			slow := rapid.IntRange(0, 2).Draw(t, "slow") == 0
			faulty := rapid.IntRange(0, 2).Draw(t, "faulty") > 0
			for i := 0; i < n; i++ {
				s := c17step{Do: "report"}
				if long && rapid.IntRange(0, 5).Draw(t, "plain step") > 0 {
					s.Gap, s.Node = rapid.IntRange(10600, 15000).Draw(t, "long"), rapid.SampledFrom(ids).Draw(t, "node")
					s.Payload = Hex{ccMultilevel, 0x03, byte(rapid.IntRange(0, 99).Draw(t, "level"))}
					c.Steps = append(c.Steps, s)
					continue
				}
				switch rapid.IntRange(0, 5).Draw(t, "gap") {
				case 0:
				case 1:
					s.Gap = rapid.IntRange(1, 2000).Draw(t, "short")
				case 2:
					s.Gap = rapid.IntRange(2000, 9900).Draw(t, "middle")
				case 3:
					s.Gap = rapid.IntRange(9900, 10100).Draw(t, "about")
				default:
					s.Gap = rapid.IntRange(10600, 30000).Draw(t, "long")
				}
				if rapid.IntRange(0, 9).Draw(t, "what") >= 5 {
					s.Do = rapid.SampledFrom([]string{"save", "save", "saves", "add"}).Draw(t, "do")
					if faulty && rapid.IntRange(0, 2).Draw(t, "fault") > 0 {
						s.Do = rapid.SampledFrom([]string{"bad", "bad", "good", "limit", "limit", "limit", "unlimit", "hide", "show"}).Draw(t, "dofault")
					}
				}
				if rapid.IntRange(0, 14).Draw(t, "killed") == 13 {
					s.Do = "left"
					s.Left = rapid.OneOf(rapid.IntRange(0, 2000), rapid.SampledFrom([]int{0, 1, 60000, 200000})).Draw(t, "left")
				}
				if slow && rapid.IntRange(0, 3).Draw(t, "lock") == 0 {
					s.Do = "lock"
				}
				s.Node = rapid.SampledFrom(ids).Draw(t, "node")
				switch s.Do {
				case "lock":
					s.For = rapid.SampledFrom([]int{10, 1000, 1500, 3000, 6000, 9000, 11000, 15000}).Draw(t, "for")
				case "report":
					s.Payload = genStatePayload().Draw(t, "payload")
					if rapid.Bool().Draw(t, "plain") {
						s.Payload = Hex{ccMultilevel, 0x03, byte(rapid.IntRange(0, 99).Draw(t, "level"))}
					}
				case "limit":
					s.Limit = rapid.SampledFrom([]int{0, 1, 10, 100, 200, 300, 400, 500, 700, 1000, 1500, 2000, 4000}).Draw(t, "limit")
					s.Limit += rapid.IntRange(0, 99).Draw(t, "morelimit")
				case "bad":
					s.Value = rapid.SampledFrom([]string{"NaN", "Inf", "-Inf"}).Draw(t, "value")
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runC17)
}

func runC17(c c17, r *R) {
	dir, err := os.MkdirTemp(scratch, "c17.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	defer limitFiles(-1)
	inner := filepath.Join(dir, "conf")
	hidden := filepath.Join(dir, "hidden")
	if err := os.Mkdir(inner, 0777); err != nil {
		harnessBug(err)
	}
	const name = "nodes.json"
	file := filepath.Join(inner, name)
	var old []byte
	exists := c.Old != "none" && !c.NoFile
	switch c.Old {
	case "nodes", "long":
		all := map[string]interface{}{}
		for i := range c.Nodes {
			all[sprintf("%d", c.Nodes[i].ID)] = c.Nodes[i].tree()
		}
		if c.Old == "long" {
			all["200"] = map[string]interface{}{"id": 200, "Brand": strings.Repeat("long ", 3000)}
		}
		old, _ = json.MarshalIndent(map[string]interface{}{"Nodes": all}, "", "\t")
	case "small":
		old = []byte(`{"Nodes":{}}`)
	case "broken":
		old = []byte(`{"Nodes":{"5":`)
	}
	if exists {
		if err := os.WriteFile(file, old, 0666); err != nil {
			harnessBug(err)
		}
	}
	cwd := func() string {
		l, _ := os.ReadDir(".")
		var s []string
		for _, e := range l {
			s = append(s, e.Name())
		}
		return strings.Join(s, " ")
	}
	cwdBefore := cwd()
	saves, failures := 0, 0

	bubble(r, func() {
		s := newSim(r)
		var mu sync.Mutex
		var learned time.Duration // when the library was told something about a node
		idents, asked := map[int]c17ident{}, map[string]int{}
		for i, d := range c.Idents {
			if i < len(c.Net) {
				idents[c.Net[i]] = d
			}
		}
		s.onCommand = func(w *write) {
			disc := w.isDiscovery()
			kind, id := kindOf(w.body())
			time.AfterFunc(time.Millisecond, func() {
				s.feed(ack)
				if disc {
					s.feed(discoveryFrame(bitmapOf(c.Net))...)
				}
			})
			d, ok := idents[id]
			level := map[string]int{"info": 1, "ms": 2, "ep": 3}[kind]
			if !ok || level == 0 || d.Level < level {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			asked[sprintf("%s %d", kind, id)]++
			if d.Lost && asked[sprintf("%s %d", kind, id)] == 1 && kind != "info" {
				return
			}
			delay := d.Delay
			var f []byte
			switch kind {
			case "info": // It does not name its node
				delay, f = 10, protocolInfoFrame(d.Info)
			case "ms":
				f = reportFrame(byte(id), append([]byte{ccManufacturer, 0x05}, d.IDs...))
			case "ep":
				delay, f = delay%1500, reportFrame(byte(id), []byte{ccMultiChannel, 0x08, 0, byte(d.Endpoints)})
			}
			time.AfterFunc(time.Duration(delay)*time.Millisecond+1500*time.Microsecond+time.Duration(id)*time.Microsecond, func() {
				s.feed(f...)
				mu.Lock()
				learned = s.now()
				mu.Unlock()
				r.Label("learns: %s", kind)
			})
		}
		path := file
		if c.NoFile {
			path = ""
		}
		con := s.connect(path)
		if con == nil {
			return
		}
		var ev *eventLog
		if !c.Deaf {
			ev = s.events(con)
		}
		wait(500) // The nodes of the network are discovered
		w := watch(inner)
		defer w.close()
		isHidden := false
		content := func() []byte { // of the file, wherever it is
			p := file
			if isHidden {
				p = filepath.Join(hidden, name)
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			return b
		}
		complete := false // the file has been saved
		temporary := map[string]bool{}
		linked := ""
		var linkContent []byte
		last := content()
		// look checks what can be said at any moment
		look := func(when string) {
			if r.Failed() {
				return
			}
			if c.NoFile {
				if l, _ := os.ReadDir(dir); len(l) != 1 || cwd() != cwdBefore {
					r.Failf("%s: without a file name, something was written: %v, %q instead of %q", when, l, cwd(), cwdBefore)
				}
				if l, _ := os.ReadDir(inner); len(l) != 0 {
					r.Failf("%s: without a file name, something was written: %v", when, l)
				}
				return
			}
			for _, e := range w.read() {
				if e.name != name {
					if e.name != "" {
						temporary[e.name] = true
					}
					continue
				}
				r.Label("file: %s", map[uint32]string{syscall.IN_MOVED_TO: "replaced", syscall.IN_CREATE: "created"}[e.mask&(syscall.IN_MOVED_TO|syscall.IN_CREATE)])
				switch {
				case e.mask&syscall.IN_MODIFY != 0:
					r.Failf("%s: the file itself was written, and was not complete until the end of it", when)
				case e.mask&(syscall.IN_DELETE|syscall.IN_MOVED_FROM) != 0:
					r.Failf("%s: the file was away for a moment", when)
				}
			}
			now := content()
			if !bytes.Equal(now, last) {
				complete = true
				if _, err := savedNodes(now); err != nil {
					r.Failf("%s: the file is not a complete configuration: %v", when, err)
				}
				last = now
			} else if complete {
				if _, err := savedNodes(now); err != nil {
					r.Failf("%s: the file is not a complete configuration: %v", when, err)
				}
			}
			if linked != "" {
				b, err := os.ReadFile(linked)
				if err != nil {
					harnessBug(err)
				}
				if !bytes.Equal(b, linkContent) {
					r.Failf("%s: the previous configuration was overwritten in place", when)
				}
				os.Remove(linked)
				linked = ""
			}
		}
		// hold keeps the file that is there now, to see if it is written to
		hold := func() {
			if c.NoFile || isHidden || content() == nil {
				return
			}
			wait(0)
			if linked != "" {
				os.Remove(linked)
			}
			linked = filepath.Join(dir, "link")
			if err := os.Link(file, linked); err != nil {
				linked = ""
				return
			}
			b, err := os.ReadFile(linked) // The file itself may be replaced in the meantime
			if err != nil {
				harnessBug(err)
			}
			linkContent = b
		}
		isCurrent := func(when string) {
			look(when)
			if c.NoFile || r.Failed() {
				return
			}
			have, err := savedNodes(content())
			if err != nil {
				r.Failf("%s: the file is not a complete configuration: %v", when, err)
				return
			}
			if d := snapsDiffer(snapAll(con), have); d != "" {
				r.Failf("%s: in the file, %s", when, d)
			}
		}
		bad := map[int]bool{} // nodes with a state that can not be encoded
		limit := -1
		size := func() int { // of what would be saved
			b, err := json.MarshalIndent(con, "", "\t")
			if err != nil {
				return -1
			}
			return len(b)
		}
		broken := func() (cannot, unsure bool) {
			if len(bad) > 0 || isHidden {
				return true, false
			}
			if limit >= 0 {
				n := size()
				return limit < n/2, limit < n*3+1000
			}
			return false, false
		}
		changed := s.now() // a change of a node, or that it was found
		dirty := false     // since the last save that is known
		alarmEnd := time.Duration(-1)
		locked, unlock := 0, time.Duration(0) // a node, and when it is unlocked
		isLocked := func() bool { return locked != 0 && s.now() <= unlock }
		sleep := func(ms int) {
			d := time.Duration(ms) * time.Millisecond
			if alarmEnd >= 0 && alarmEnd <= s.now()+d {
				if alarmEnd > changed {
					changed = alarmEnd
				}
				alarmEnd = -1
			}
			limitFiles(limit)
			time.Sleep(d)
			wait(0)
			limitFiles(-1)
			mu.Lock()
			if learned > changed {
				changed, dirty = learned, true
			}
			mu.Unlock()
			if dirty && len(c.Idents) > 0 { // The end of an identification is announced too
				for _, e := range ev.get() {
					if _, ok := e.ev.(events.NodeUpdated); ok && e.at > changed {
						changed = e.at
					}
				}
			}
			if cannot, unsure := broken(); dirty && s.now() > changed+9500*time.Millisecond && (cannot || unsure) {
				dirty = false // It may have been tried
				if cannot {
					failures++
				}
			}
		}
		check := func(when string) {
			cannot, unsure := broken()
			// If a node was locked, a save has waited for it
			if dirty && s.now() > max(changed, unlock)+10500*time.Millisecond {
				if !cannot && !unsure {
					isCurrent(when + ", after more than ten quiet seconds")
					saves++
				}
				dirty = false
			}
			if cannot {
				if now := content(); !bytes.Equal(now, last) {
					r.Failf("%s: the file has changed, although the configuration can not be saved now", when)
				}
			}
			look(when)
		}
		var tail []c17step
		if c.Deaf {
			r.Label("nobody reads the events")
			for k := 0; k < 13; k++ {
				tail = append(tail, c17step{Do: "report", Node: -2, Payload: Hex{ccMultilevel, 0x03, byte(k)}})
			}
			tail = append(tail, c17step{Gap: 12000, Do: "look"})
		}
		tail = append(tail, c.Steps...)
		// In the end all troubles are over, something changes, and ten seconds pass
		id := 0
		for _, k := range append([]int{c.Nodes[0].ID}, c.Net...) {
			if con.Nodes.Get(k) != nil {
				id = k
			}
		}
		if id == 0 {
			r.Failf("the nodes %v are not there", c.Net)
			return
		}
		tail = append(tail, c17step{Gap: 16000, Do: "good", Node: -1}, c17step{Do: "unlimit"}, c17step{Do: "show"}, c17step{Gap: 12000, Do: "report", Node: id, Payload: Hex{ccMultilevel, 0x03, 33}}, c17step{Gap: 12000, Do: "end"})
		for i, st := range tail {
			when := sprintf("step %d (%s)", i, st.Do)
			hold()
			sleep(st.Gap)
			check(when)
			if r.Failed() {
				return
			}
			if st.Node == -2 {
				st.Node = id
			}
			n := con.Nodes.Get(st.Node)
			switch st.Do {
			case "left":
				if isHidden || isLocked() || dirty {
					break
				}
				for k := range temporary {
					f, err := os.OpenFile(filepath.Join(inner, k), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
					if err != nil {
						continue
					}
					f.WriteString((`{"Nodes":{"17":{"id":17,"Brand":"` + strings.Repeat("long ", st.Left/5+1))[:st.Left])
					f.Close()
					r.Label("a file that was left by a killed process")
				}
				w.read()
			case "report":
				if n == nil || isLocked() && st.Node == locked {
					break
				}
				r.LabelIf(isLocked(), "an update while a save waits or may start")
				f := reportFrame(byte(st.Node), st.Payload)
				s.feed(f...)
				wait(0)
				fold := map[int]*refState{st.Node: newRefState()}
				if _, update := foldFrame(fold, f, 0); update {
					changed, dirty = s.now(), true
					if len(fold[st.Node].alarms) > 0 {
						alarmEnd = s.now() + time.Second
					}
				}
			case "add":
				if n != nil {
					n.Lock()
					n.StateFloat["added"] = float64(i)
					n.Unlock()
					dirty = false // No one was told
				}
			case "bad":
				if n != nil && !isLocked() {
					bad[st.Node] = true
					dirty = false
					n.Lock()
					n.StateFloat["bad"] = map[string]float64{"NaN": math.NaN(), "Inf": math.Inf(1), "-Inf": math.Inf(-1)}[st.Value]
					n.Unlock()
				}
			case "good":
				for id := range bad {
					if st.Node == id || st.Node == -1 {
						n := con.Nodes.Get(id)
						n.Lock()
						delete(n.StateFloat, "bad")
						n.Unlock()
						delete(bad, id)
						dirty = false
					}
				}
			case "lock":
				if n == nil || isLocked() || limit >= 0 || alarmEnd >= 0 {
					break
				}
				d := time.Duration(st.For) * time.Millisecond
				locked, unlock = st.Node, s.now()+d
				go func() {
					n.Lock()
					time.Sleep(d)
					n.Unlock()
				}()
				wait(0)
			case "limit":
				if !isLocked() && len(c.Idents) == 0 {
					limit = st.Limit
				}
			case "unlimit":
				limit = -1
			case "hide":
				if !isHidden {
					if err := os.Rename(inner, hidden); err != nil {
						harnessBug(err)
					}
					isHidden = true
				}
			case "show":
				if isHidden {
					if _, err := os.Lstat(inner); err == nil {
						r.Failf("%s: the missing directory was made", when)
						return
					}
					if err := os.Rename(hidden, inner); err != nil {
						harnessBug(err)
					}
					isHidden = false
				}
			case "save", "saves":
				if c.NoFile {
					if err := os.WriteFile(".tmp", []byte("something else"), 0666); err != nil {
						harnessBug(err)
					}
					err := con.SaveConfigurationToFile()
					b, _ := os.ReadFile(".tmp")
					os.Remove(".tmp")
					if err == nil {
						r.Failf("%s: without a file name, saving gave no error", when)
					} else if string(b) != "something else" {
						r.Failf("%s: without a file name, saving changed the file .tmp of somebody else to %q", when, b)
					}
					look(when)
					r.Label("a save without a file name")
					break
				}
				cannot, unsure := broken()
				hold()
				limitFiles(limit)
				err := con.SaveConfigurationToFile()
				if st.Do == "saves" {
					errs := make(chan error)
					for k := 0; k < 5; k++ {
						go func() { errs <- con.SaveConfigurationToFile() }()
					}
					for k := 0; k < 5; k++ {
						e := <-errs
						if e != nil && err == nil {
							err = e
						} else if cannot && e == nil {
							err = nil
						}
					}
					r.Label("several saves at once")
				}
				limitFiles(-1)
				if cannot {
					failures++
					r.LabelIf(len(bad) > 0, "a save fails: state")
					r.LabelIf(isHidden, "a save fails: no directory")
					r.LabelIf(len(bad) == 0 && !isHidden, "a save fails: disk full")
				}
				switch {
				case err == nil && cannot:
					r.Failf("%s: the configuration can not be saved, and saving it gave no error", when)
				case err == nil && isLocked() && len(c.Idents) > 0: // It has waited, and more may be known by now
				case err == nil:
					isCurrent(when)
				case !cannot && !unsure:
					r.Failf("%s: saving the configuration failed: %v", when, err)
				default:
					if now := content(); !bytes.Equal(now, last) {
						r.Failf("%s: the save failed (%v), and the file has changed", when, err)
					}
				}
				look(when)
			}
			if r.Failed() {
				return
			}
		}
		// While nothing changes, nothing is written
		sleep(1000)
		w.read()
		quiet := s.now()
		time.Sleep(5 * time.Minute)
		for _, e := range ev.get() {
			if _, ok := e.ev.(events.NodeUpdated); ok && e.at > quiet-13*time.Second {
				return
			}
		}
		if l := w.read(); len(l) > 0 {
			r.Failf("nothing has changed for five minutes, and the configuration is written: %d operations", len(l))
		}
		r.Label("nothing changes for five minutes")
	})
	r.LabelIf(c.NoFile, "no file name")
	r.LabelIf(saves >= 2, "saved by the debouncer at least twice")
	r.LabelIf(failures > 0, "a save that can not be done")
	r.Nontrivial(saves >= 2 || failures > 0)
}

var _ = gozwave.NewController
