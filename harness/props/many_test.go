package props

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/events"
	"pgregory.net/rapid"
)

// ---- C26: several controllers

type c26 struct {
	Nets   []netCase `json:"nets"`
	Starts []int     `json:"starts"` // ms
	Extra  []c26step `json:"extra"`
	Real   bool      `json:"real,omitempty"` // in real time: what is shared may be older than a virtual clock
}

// c26step happens after the identification.
type c26step struct {
	Net   int    `json:"net"`
	Do    string `json:"do"` // level, answered, unanswered, lose
	Node  int    `json:"node"`
	Value byte   `json:"value"`
}

func init() {
	one := genNet(netGen{max: 4, sleepy: 2, noAnswer: true})
	reg("C26", "two or three controllers in one process, connected at the same time or one after the other, each with a network of 1 to 4 nodes that partly have the same ids and devices, "+
		"with their own configurations, lost, refused, late and wrong answers; then reports, requests and losses of one port; non-trivial: two networks have a node id in common",
		func(t *rapid.T) c26 {
			c := c26{}
			if os.Getenv("VERIF_REAL") != "" {
				return genC26Real(t)
			}
			for k := rapid.IntRange(2, 3).Draw(t, "controllers"); k > 0; k-- {
				c.Nets = append(c.Nets, one(t))
				c.Starts = append(c.Starts, rapid.SampledFrom([]int{0, 0, 1, 199, 250, 1000, 30000}).Draw(t, "start"))
			}
			for k := 1; k < len(c.Nets); k++ {
				n, used := &c.Nets[k], map[int]bool{}
				for _, x := range n.Nodes {
					used[x.ID] = true
				}
				for _, f := range n.File {
					used[f.ID] = true
				}
				for i := range n.Nodes {
					other := c.Nets[0].Nodes[i%len(c.Nets[0].Nodes)]
					if rapid.IntRange(0, 2).Draw(t, "sameid") > 0 && !used[other.ID] {
						for j := range n.File {
							if n.File[j].ID == n.Nodes[i].ID {
								n.File[j].ID = other.ID
							}
						}
						used[other.ID] = true
						n.Nodes[i].ID = other.ID
					}
					if rapid.Bool().Draw(t, "samedevice") {
						n.Nodes[i].IDs = other.IDs
					}
				}
			}
			for k := rapid.IntRange(0, 8).Draw(t, "extra"); k > 0; k-- {
				st := c26step{Net: rapid.IntRange(0, len(c.Nets)-1).Draw(t, "net"), Do: rapid.SampledFrom([]string{"level", "level", "answered", "unanswered", "lose"}).Draw(t, "do"),
					Value: byte(rapid.IntRange(1, 99).Draw(t, "value"))}
				l := c.Nets[st.Net].Nodes
				st.Node = l[rapid.IntRange(0, len(l)-1).Draw(t, "node")].ID
				c.Extra = append(c.Extra, st)
			}
			return c
		}, runC26)
}

type c26side struct {
	w    *network
	con  *gozwave.Controller
	ev   *eventLog
	file string
}

func runC26(c c26, r *R) {
	dir, err := os.MkdirTemp(scratch, "c26.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	if c.Real {
		c.runReal(r, dir)
		return
	}
	bubble(r, func() {
		sides := make([]*c26side, len(c.Nets))
		var all sync.WaitGroup
		for k := range c.Nets {
			k, n := k, c.Nets[k]
			sides[k] = &c26side{file: filepath.Join(dir, sprintf("%d.json", k))}
			if !n.HasFile {
				sides[k].file = ""
			}
			all.Add(1)
			go func() {
				defer all.Done()
				time.Sleep(time.Duration(c.Starts[k])*time.Millisecond + time.Duration(k)*1700*time.Nanosecond)
				x := sides[k]
				x.w, x.con, x.ev = n.start(x.file, r)
			}()
		}
		all.Wait()
		last := time.Duration(0)
		for k, x := range sides {
			if x.con == nil {
				return
			}
			last = max(last, time.Duration(c.Starts[k])*time.Millisecond+time.Duration(c.Nets[k].Length)*time.Second)
		}
		time.Sleep(last)
		for _, x := range sides {
			x.w.sync()
			if x.w.judgeNodes(x.con, x.ev, r); r.Failed() {
				return
			}
			x.w.sync()
		}
		// The reports and requests of one are none of the others
		quiet := func(k int, st c26step, states []string, from []int) {
			for i, x := range sides {
				if i == k {
					continue
				}
				if s := x.states(); s != states[i] {
					r.Failf("%s at controller %d (node %d) changed controller %d:\n%s\nwas\n%s", st.Do, k, st.Node, i, s, states[i])
					return
				}
				for _, e := range x.ev.get()[from[i]:] {
					if u, ok := e.ev.(events.NodeUpdated); ok && c.Nets[i].settled(u.Address) {
						r.Failf("%s at controller %d (node %d) gave controller %d the event %+v", st.Do, k, st.Node, i, e.ev)
						return
					}
				}
			}
		}
		for _, st := range c.Extra {
			k, x := st.Net, sides[st.Net]
			var states []string
			var from []int
			for _, y := range sides {
				states = append(states, y.states())
				from = append(from, len(y.ev.get()))
			}
			opens := make([]int, len(sides))
			for i, y := range sides {
				y.w.s.mu.Lock()
				opens[i] = len(y.w.s.opens)
				y.w.s.mu.Unlock()
			}
			switch st.Do {
			case "level":
				x.w.s.feed(reportFrame(byte(st.Node), []byte{ccMultilevel, 0x03, st.Value})...)
				time.Sleep(30 * time.Millisecond)
			case "lose":
				x.w.s.lose(io.EOF)
				time.Sleep(100 * time.Millisecond)
				for i, y := range sides {
					y.con.Connection.RLock()
					up := y.con.Connection.Connected
					y.con.Connection.RUnlock()
					if up != (i != k) {
						r.Failf("the port of controller %d is lost, and controller %d has Connected %v", k, i, up)
						return
					}
				}
				time.Sleep(3 * time.Second)
			default: // A request of all of them, answered by one node, or none
				type got struct {
					n   int
					end time.Duration
				}
				res := make([]got, len(sides))
				var wg sync.WaitGroup
				begin := time.Now()
				for i, y := range sides {
					i, y := i, y
					wg.Add(1)
					go func() {
						defer wg.Done()
						m := commands.NewRaw([]byte{ccSensor, 0x04, 1})
						m.SetNode(st.Node)
						ch, err := y.con.Connection.WriteAndWaitForReport(m, 5*time.Second, 0x05)
						if err != nil {
							r.Failf("a request gives %v", err)
							return
						}
						for range ch {
							res[i].n++
						}
						res[i].end = time.Since(begin)
					}()
				}
				time.Sleep(3 * time.Second)
				if st.Do == "answered" {
					x.w.s.feed(reportFrame(byte(st.Node), []byte{ccSensor, 0x05, 1, 1, st.Value})...)
				}
				wg.Wait()
				for i := range res {
					want := 0
					if i == k && st.Do == "answered" {
						want = 1
					}
					if res[i].n != want {
						r.Failf("node %d answered controller %d (%s); the same request at controller %d got %d answers", st.Node, k, st.Do, i, res[i].n)
						return
					}
					if want == 0 && res[i].end < 4900*time.Millisecond {
						r.Failf("the request at controller %d ended after %v, without an answer, when node %d answered controller %d", i, res[i].end, st.Node, k)
						return
					}
				}
			}
			synctest.Wait()
			for i, y := range sides {
				y.w.s.mu.Lock()
				n := len(y.w.s.opens)
				y.w.s.mu.Unlock()
				if i != k && n != opens[i] {
					r.Failf("%s at controller %d opened the port of controller %d again", st.Do, k, i)
					return
				}
			}
			if quiet(k, st, states, from); r.Failed() {
				return
			}
		}
		// Everyone saves into its own file, by itself
		time.Sleep(30 * time.Second)
		for k, x := range sides {
			updated := false
			for _, e := range x.ev.get() {
				if _, ok := e.ev.(events.NodeUpdated); ok {
					updated = true
				}
			}
			if x.file == "" || !updated {
				continue
			}
			data, err := os.ReadFile(x.file)
			var saved struct{ Nodes map[int]json.RawMessage }
			if err == nil {
				err = json.Unmarshal(data, &saved)
			}
			if err != nil {
				r.Failf("the configuration of controller %d: %v", k, err)
				return
			}
			for id, n := range x.con.Nodes.All() {
				if !x.w.c.settled(id) {
					continue
				}
				want, err := json.Marshal(n)
				if err != nil {
					r.Failf("%v", err)
					return
				}
				var a bytes.Buffer
				if json.Compact(&a, saved.Nodes[id]) != nil || a.String() != string(want) {
					r.Failf("node %d of controller %d is in the configuration as %s, it is %s", id, k, short(a.Bytes()), short(want))
					return
				}
			}
		}
		// and when it is told to
		for _, x := range sides {
			if x.file != "" {
				if err := x.con.SaveConfigurationToFile(); err != nil {
					r.Failf("saving gives %v", err)
					return
				}
			}
		}
		for k, x := range sides {
			if x.file == "" {
				continue
			}
			data, err := os.ReadFile(x.file)
			if err != nil {
				r.Failf("the configuration of controller %d: %v", k, err)
				return
			}
			want, err := json.Marshal(x.con)
			if err != nil {
				r.Failf("%v", err)
				return
			}
			var a, b bytes.Buffer
			if json.Compact(&a, data) != nil || json.Compact(&b, want) != nil || a.String() != b.String() {
				r.Failf("the configuration of controller %d is %s, it has %s", k, short(a.Bytes()), short(b.Bytes()))
				return
			}
		}
		l, err := os.ReadDir(dir)
		if err != nil {
			harnessBug(err)
		}
		for _, e := range l {
			mine := false
			for _, x := range sides {
				mine = mine || x.file == filepath.Join(dir, e.Name())
			}
			if !mine {
				r.Failf("there is a file %s", e.Name())
			}
		}
	})
	ids := map[int]int{}
	common := false
	for _, n := range c.Nets {
		for _, x := range n.Nodes {
			ids[x.ID]++
			common = common || ids[x.ID] > 1
		}
	}
	for _, st := range c.Extra {
		r.Label("then: %s", st.Do)
	}
	r.Label("%d controllers", len(c.Nets))
	r.Nontrivial(common)
}

// genC26Real makes networks that answer everything at once.
func genC26Real(t *rapid.T) c26 {
	c := c26{Real: true}
	pool := rapid.SliceOfNDistinct(rapid.IntRange(2, 232), 4, 4, rapid.ID[int]).Draw(t, "ids")
	for k := rapid.IntRange(2, 6).Draw(t, "controllers"); k > 0; k-- {
		n := netCase{HasFile: rapid.IntRange(0, 3).Draw(t, "file") > 0, Length: 10}
		for i := rapid.IntRange(1, 2).Draw(t, "nodes"); i > 0; i-- {
			d := netNode{ID: pool[rapid.IntRange(0, 1).Draw(t, "id")+2*(i-1)], IDs: genIDs(t), Endpoints: byte(rapid.IntRange(0, 3).Draw(t, "endpoints"))}
			gen, spec := genPair(t)
			d.Info = Hex{0x80, 0, 0, 4, gen, spec}
			n.Nodes = append(n.Nodes, d)
		}
		c.Nets = append(c.Nets, n)
		c.Starts = append(c.Starts, rapid.SampledFrom([]int{0, 0, 300}).Draw(t, "start"))
	}
	for k := rapid.IntRange(1, 6).Draw(t, "extra"); k > 0; k-- {
		st := c26step{Net: rapid.IntRange(0, len(c.Nets)-1).Draw(t, "net"), Do: rapid.SampledFrom([]string{"level", "level", "command", "command", "answered"}).Draw(t, "do"),
			Value: byte(rapid.IntRange(1, 99).Draw(t, "value"))}
		l := c.Nets[st.Net].Nodes
		st.Node = l[rapid.IntRange(0, len(l)-1).Draw(t, "node")].ID
		c.Extra = append(c.Extra, st)
	}
	return c
}

// patience is how long something may take in real time that takes less than a
// second, or ten for the configurations, on a machine that is not busy.
const patience = 40 * time.Second

// eventually waits until f gives no complaint, and gives the last one.
func eventually(f func() string) (s string) {
	for end := time.Now().Add(patience); ; time.Sleep(20 * time.Millisecond) {
		if s = f(); s == "" || time.Now().After(end) {
			return s
		}
	}
}

func (c c26) runReal(r *R, dir string) {
	sides := make([]*c26side, len(c.Nets))
	var all sync.WaitGroup
	for k := range c.Nets {
		k, n := k, c.Nets[k]
		sides[k] = &c26side{file: filepath.Join(dir, sprintf("%d.json", k))}
		if !n.HasFile {
			sides[k].file = ""
		}
		all.Add(1)
		go func() {
			defer all.Done()
			time.Sleep(time.Duration(c.Starts[k]) * time.Millisecond)
			x := sides[k]
			x.w, x.con, x.ev = n.start(x.file, r)
		}()
	}
	all.Wait()
	for _, x := range sides {
		if x.con == nil {
			return
		}
	}
	for k, x := range sides {
		s := eventually(func() string {
			x.w.mu.Lock()
			defer x.w.mu.Unlock()
			var q R
			x.w.judgeNodes(x.con, x.ev, &q)
			if q.Failed() {
				return q.fail
			}
			return ""
		})
		if s != "" {
			r.Failf("controller %d: %s", k, s)
			return
		}
	}
	time.Sleep(time.Second)
	for _, st := range c.Extra {
		k, x := st.Net, sides[st.Net]
		var states []string
		for _, y := range sides {
			states = append(states, y.states())
		}
		count := func(y *c26side, body []byte) (n int) {
			for _, w := range y.w.s.commands() {
				if bytes.Equal(w.body(), body) {
					n++
				}
			}
			return
		}
		s := ""
		switch st.Do {
		case "level":
			x.w.s.feed(reportFrame(byte(st.Node), []byte{ccMultilevel, 0x03, st.Value})...)
			s = eventually(func() string {
				n := x.con.Nodes.Get(st.Node)
				n.RLock()
				defer n.RUnlock()
				if v := n.StateFloat["level"]; v != float64(st.Value) {
					return sprintf("node %d of controller %d reported level %d, and has %v", st.Node, k, st.Value, v)
				}
				return ""
			})
			time.Sleep(300 * time.Millisecond)
			for i, y := range sides {
				if now := y.states(); i != k && now != states[i] && s == "" {
					s = sprintf("a report at controller %d (node %d) changed controller %d:\n%s\nwas\n%s", k, st.Node, i, now, states[i])
				}
			}
		case "command":
			m := commands.NewRaw([]byte{ccAlarm, 0x77, st.Value, byte(k)})
			m.SetNode(st.Node)
			before := count(x, m.Encode())
			for n := 0; n < 4 && s == ""; n++ { // It could be the right one by chance
				if err := x.con.Connection.Write(m); err != nil {
					s = sprintf("writing gives %v", err)
				}
			}
			if s == "" {
				s = eventually(func() string {
					for i, y := range sides {
						if n := count(y, m.Encode()); i != k && n > 0 {
							return sprintf("a command of controller %d was sent at the port of controller %d", k, i)
						}
					}
					if n := count(x, m.Encode()) - before; n != 4 {
						return sprintf("controller %d was given a command 4 times, and has sent it %d times", k, n)
					}
					return ""
				})
			}
		case "answered": // A request of all of them, answered by one node
			got := make([]int, len(sides))
			var wg sync.WaitGroup
			m := commands.NewRaw([]byte{ccSensor, 0x04, 1, st.Value})
			m.SetNode(st.Node)
			for i, y := range sides {
				i, y := i, y
				before := count(y, m.Encode())
				wg.Add(1)
				go func() {
					defer wg.Done()
					ch, err := y.con.Connection.WriteAndWaitForReport(m, 6*time.Second, 0x05)
					if err != nil {
						r.Failf("a request gives %v", err)
						return
					}
					for range ch {
						got[i]++
					}
				}()
				if e := eventually(func() string {
					if count(y, m.Encode()) == before {
						return sprintf("a request of controller %d is not sent", i)
					}
					return ""
				}); e != "" {
					s = e
				}
			}
			time.Sleep(50 * time.Millisecond)
			x.w.s.feed(reportFrame(byte(st.Node), []byte{ccSensor, 0x05, 1, 1, st.Value})...)
			wg.Wait()
			for i := range got {
				if want := map[bool]int{true: 1}[i == k]; got[i] != want && s == "" {
					s = sprintf("node %d answered controller %d; the same request at controller %d got %d answers", st.Node, k, i, got[i])
				}
			}
		}
		if s != "" {
			r.Failf("%s", s)
			return
		}
	}
	saved := func(k int) string {
		x := sides[k]
		if x.file == "" {
			return ""
		}
		return eventually(func() string {
			data, err := os.ReadFile(x.file)
			want, _ := json.Marshal(x.con)
			var a bytes.Buffer
			if err != nil || json.Compact(&a, data) != nil || a.String() != string(want) {
				return sprintf("the configuration of controller %d is %s (%v), it has %s", k, short(data), err, short(want))
			}
			return ""
		})
	}
	for k := range sides {
		if s := saved(k); s != "" {
			r.Failf("%s", s)
			return
		}
	}
	// One of them has something to save, when nothing else goes on
	time.Sleep(11 * time.Second)
	n := 0
	for k := len(sides) - 1; k >= 0 && n < 2; k-- {
		x := sides[k]
		if x.file == "" {
			continue
		}
		n++
		id := c.Nets[k].Nodes[0].ID
		x.w.s.feed(reportFrame(byte(id), []byte{ccSensor, 0x05, 1, 1, byte(100 + k)})...)
		s := eventually(func() string {
			d := x.con.Nodes.Get(id)
			d.RLock()
			defer d.RUnlock()
			for _, v := range d.StateFloat {
				if v == float64(100+k) {
					return ""
				}
			}
			return sprintf("node %d of controller %d reported a temperature of %d, and has %v", id, k, 100+k, d.StateFloat)
		})
		if s == "" {
			s = saved(k)
		}
		if s != "" {
			r.Failf("%s", s)
			return
		}
	}
	r.Label("in real time")
	r.Nontrivial(true)
}

// settled says if nothing more is going to happen with a node by itself.
func (c netCase) settled(id int) bool {
	for i := range c.Nodes {
		if n := &c.Nodes[i]; n.ID == id {
			return n.listening() && !n.NoMS && !n.NoEP
		}
	}
	return c.inFile(id) != nil
}

// states are the states of all nodes of a controller that are settled.
func (x *c26side) states() string {
	all := x.con.Nodes.All()
	var ids []int
	for id := range all {
		if x.w.c.settled(id) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var b bytes.Buffer
	for _, id := range ids {
		j, err := json.Marshal(all[id])
		b.WriteString(sprintf("%d: %s %v\n", id, j, err))
	}
	return b.String()
}
