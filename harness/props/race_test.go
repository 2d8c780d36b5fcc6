package props

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
	"gozwaveverif/vsync"
	"pgregory.net/rapid"
)

// ---- C18

// The port of this check shares nothing between reading and writing: what is
// received, and when, is decided before. Answers of a simulated stick to what is
// written would order the library's accesses, and hide races.

type c18 struct {
	Port    []c18port  `json:"port"` // one for every time it is opened; the last one stays
	File    []fileNode `json:"file"`
	Bitmap  []int      `json:"bitmap"`
	Users   []c18user  `json:"users"`
	Verbose bool       `json:"verbose"` // everything is logged
	Seconds int        `json:"seconds"`
	Dwell   int        `json:"dwell,omitempty"` // of 16 locks that are taken, so many are kept for some ms
	Seed    int        `json:"seed,omitempty"`
}

type c18port struct {
	Fail bool    `json:"fail"` // it can not be opened
	Rx   []c18rx `json:"rx"`
	End  int     `json:"end"` // ms until reading fails; 0 never
}

type c18rx struct {
	Gap    int `json:"gap"` // 0.1 ms after the one before
	Data   Hex `json:"data"`
	Repeat int `json:"repeat"`
	Every  int `json:"every"` // ms
}

type c18user struct {
	Start int     `json:"start"` // ms
	Ops   []c18op `json:"ops"`
}

type c18op struct {
	Gap  int    `json:"gap"` // ms
	Do   string `json:"do"`
	Node int    `json:"node"`
}

// schedule is what is received, in order.
type c18event struct {
	at   time.Duration
	data []byte
}

func (p c18port) events() (l []c18event) {
	at := time.Duration(0)
	for _, x := range p.Rx {
		at += time.Duration(x.Gap) * time.Millisecond / 10
		for k := 0; k <= x.Repeat; k++ {
			l = append(l, c18event{at + time.Duration(k*x.Every)*time.Millisecond, x.Data})
		}
	}
	for i := 1; i < len(l); i++ { // by time
		for j := i; j > 0 && l[j].at < l[j-1].at; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return
}

// racePort is read by one goroutine and written by another one, and these do
// not meet in it.
type racePort struct {
	start  time.Time
	rx     []c18event // of the reader
	end    time.Duration
	closed chan struct{}
	calls  atomic.Int32
}

func (p *racePort) Read(b []byte) (int, error) {
	for {
		now := time.Since(p.start)
		if p.end > 0 && now >= p.end {
			return 0, io.ErrUnexpectedEOF
		}
		next := time.Hour
		if len(p.rx) > 0 {
			if p.rx[0].at <= now {
				n := copy(b, p.rx[0].data)
				if n == len(p.rx[0].data) {
					p.rx = p.rx[1:]
				} else {
					p.rx[0].data = p.rx[0].data[n:]
				}
				return n, nil
			}
			next = p.rx[0].at - now
		}
		if p.end > 0 && p.end-now < next {
			next = p.end - now
		}
		select {
		case <-time.After(next):
		case <-p.closed:
			return 0, os.ErrClosed
		}
	}
}

func (p *racePort) Write(b []byte) (int, error) { return len(b), nil }

func (p *racePort) Close() error {
	if p.calls.Add(1) == 1 {
		close(p.closed)
	}
	return nil
}

type raceOpener struct {
	ports []c18port
	n     atomic.Int32
}

func (o *raceOpener) Open() (io.ReadWriteCloser, error) {
	i := int(o.n.Add(1)) - 1
	if i >= len(o.ports) {
		i = len(o.ports) - 1
	}
	p := o.ports[i]
	if p.Fail {
		return nil, io.ErrClosedPipe
	}
	q := &racePort{start: time.Now(), rx: p.events(), closed: make(chan struct{})}
	if i < len(o.ports)-1 {
		q.end = time.Duration(p.End) * time.Millisecond
	}
	return q, nil
}

var c18ops = []string{"on", "off", "level", "endpoint", "all", "get", "read", "state", "json", "jsonnode", "save", "request", "report", "info", "write", "events", "connected", "class", "isclass", "protocol", "id", "process", "add", "load", "list"}

// do is one call of a user of the library. It shares nothing with the other ones.
func (o c18op) do(con *gozwave.Controller) {
	n := con.Nodes.Get(o.Node)
	switch o.Do {
	case "all":
		for id, x := range con.Nodes.All() {
			x.RLock()
			_ = x.Id == id && x.IsAwake
			x.RUnlock()
		}
	case "json":
		json.Marshal(con)
	case "list":
		json.Marshal(con.Nodes)
	case "save":
		con.SaveConfigurationToFile()
	case "load":
		con.LoadConfigurationFromFile()
	case "connected":
		con.Connection.RLock()
		_ = con.Connection.Connected
		con.Connection.RUnlock()
	case "events":
		ch := con.GetNextEvent()
		select {
		case <-ch:
		case <-time.After(50 * time.Millisecond):
		}
	case "request":
		if ch, err := con.Connection.WriteWithTimeout(serialapi.NewRaw([]byte{fnProtocolInfo, byte(o.Node)}), 700*time.Millisecond); err == nil && ch != nil {
			for m := range ch {
				_ = m
			}
		}
	case "report":
		raw := commands.NewRaw([]byte{ccSwitchBinary, 0x02})
		raw.SetNode(o.Node)
		if ch, err := con.Connection.WriteAndWaitForReport(raw, 900*time.Millisecond, 0x03); err == nil && ch != nil {
			for m := range ch {
				_ = m
			}
		}
	case "write":
		con.Connection.Write(serialapi.NewRaw([]byte{0x15}))
	case "add":
		x := nodes.New(o.Node)
		x.Setup(con.Connection, func(interface{}) {})
		con.Nodes.Add(x)
	}
	if n == nil {
		return
	}
	switch o.Do {
	case "on":
		n.On()
	case "off":
		n.Off()
	case "level":
		n.Level(float64(o.Node % 100))
	case "endpoint":
		if e := n.Endpoint(1 + o.Node%2); e != nil {
			e.On()
			e.Level(50)
			e.Off()
		}
	case "get", "read":
		n.RLock()
		_ = n.Brand + n.Product + n.Description
		for _, c := range n.CommandClasses {
			if c != nil {
				_ = c.ID
			}
		}
		for _, e := range n.Endpoints {
			_ = e.Id
		}
		if n.ManufacurerSpecific != nil {
			_ = n.ManufacurerSpecific.ID
		}
		n.RUnlock()
	case "state":
		n.RLock()
		x := 0.0
		for k, v := range n.StateFloat {
			x += v + float64(len(k))
		}
		for k := range n.StateBool {
			x += float64(len(k))
		}
		_ = n.IsAwake
		n.RUnlock()
	case "jsonnode":
		json.Marshal(n)
	case "info", "protocol":
		if p := n.ProtocolInfo(); p != nil {
			_ = p.Listening
		}
	case "class":
		n.HasCommand(commands.SwitchBinary)
	case "isclass":
		n.IsDeviceClass(0x10, 0x01)
	case "id":
		n.GetID()
	case "process":
		if rep, err := reports.New(commands.SwitchMultilevel, 0x03, []byte{20}); err == nil {
			n.ProcessEvent(rep)
		}
	}
}

func init() {
	reg("C18", "2 to 8 goroutines with 1 to 12 calls each of all kinds (switching, requests, listing, reading, encoding, saving, loading, events) at generated and often equal times, while generated traffic arrives (reports, answers to the identification, "+
		"ACK, NAK, CAN, noise), nodes are identified, and the port is lost and opened again, run under the race detector; the port of the check orders nothing between reading and writing; "+
		"non-trivial: at least 3 goroutines make calls on the same nodes",
		genC18, runC18)
}

func genC18(t *rapid.T) c18 {
	c := c18{Verbose: rapid.IntRange(0, 4).Draw(t, "verbose") == 0}
	ids := []int{2, 3, 9}[:rapid.IntRange(1, 3).Draw(t, "nodes")]
	c.Bitmap = ids
	used := map[int]bool{1: true}
	for k := rapid.IntRange(0, 2).Draw(t, "file"); k > 0; k-- {
		f := genFileNode(t, used)
		if k == 1 {
			f.ID = ids[0]
		}
		c.File = append(c.File, f)
	}
	id := func() int { return rapid.SampledFrom(ids).Draw(t, "id") }
	frame := func() Hex {
		switch rapid.IntRange(0, 13).Draw(t, "rx") {
		case 0, 1, 2:
			return reportFrame(byte(id()), genStatePayload().Draw(t, "state"))
		case 3:
			return protocolInfoFrame([]byte{rapid.SampledFrom([]byte{0x80, 0x00}).Draw(t, "listening"), 0, 0, 4, 0x10, 0x01})
		case 4:
			return reportFrame(byte(id()), append([]byte{ccManufacturer, 0x05}, genIDs(t)...))
		case 5:
			return reportFrame(byte(id()), []byte{ccMultiChannel, 0x08, 0, 2})
		case 6:
			return reportFrame(byte(id()), []byte{ccWakeUp, 0x07})
		case 7:
			return reportFrame(byte(id()), []byte{ccAlarm, 0x05, 1, 2, 0, 0xFF, 7, 8})
		case 8:
			return reportFrame(byte(id()), []byte{ccSwitchBinary, 0x03, 0xFF})
		case 9:
			return discoveryFrame(bitmapOf(ids))
		case 10:
			return Hex{rapid.SampledFrom([]byte{ack, ack, ack, can, nak}).Draw(t, "result")}
		case 11:
			return Hex(genBytes(1, 6).Draw(t, "noise"))
		case 12:
			return reportFrame(byte(id()), []byte{ccMultilevel, 0x03, 0x20})
		}
		return Hex{ack}
	}
	ports := rapid.IntRange(1, 3).Draw(t, "ports")
	if rapid.Bool().Draw(t, "steady") {
		ports = 1
	}
	for i := 0; i < ports; i++ {
		p := c18port{}
		if i > 0 && i < ports-1 {
			p.Fail = rapid.IntRange(0, 3).Draw(t, "fail") == 0
		}
		p.End = rapid.IntRange(400, 6000).Draw(t, "end")
		// The controller accepts commands
		p.Rx = append(p.Rx, c18rx{Gap: rapid.IntRange(0, 600).Draw(t, "phase"), Data: Hex{rapid.SampledFrom([]byte{ack, ack, ack, ack, can, nak}).Draw(t, "usual")}, Repeat: rapid.IntRange(50, 300).Draw(t, "acks"), Every: rapid.IntRange(17, 70).Draw(t, "pace")})
		if i == 0 {
			p.Rx = append(p.Rx, c18rx{Gap: 2600, Data: discoveryFrame(bitmapOf(ids)), Repeat: 3, Every: 90})
		}
		for k := rapid.IntRange(2, 14).Draw(t, "traffic"); k > 0; k-- {
			x := c18rx{Data: frame(), Gap: rapid.SampledFrom([]int{0, 0, 1, 10, 100, 500, 2000}).Draw(t, "gap")}
			if rapid.Bool().Draw(t, "again") {
				x.Repeat, x.Every = rapid.IntRange(1, 60).Draw(t, "repeat"), rapid.SampledFrom([]int{0, 1, 11, 50, 100, 333, 1000}).Draw(t, "every")
			}
			p.Rx = append(p.Rx, x)
		}
		c.Port = append(c.Port, p)
	}
	start := rapid.SampledFrom([]int{0, 60, 300, 3000}).Draw(t, "start")
	for u := rapid.IntRange(2, 8).Draw(t, "users"); u > 0; u-- {
		x := c18user{Start: start}
		if rapid.IntRange(0, 3).Draw(t, "apart") == 0 {
			x.Start += rapid.IntRange(0, 500).Draw(t, "later")
		}
		for k := rapid.IntRange(1, 12).Draw(t, "ops"); k > 0; k-- {
			x.Ops = append(x.Ops, c18op{rapid.SampledFrom([]int{0, 0, 0, 50, 100, 333}).Draw(t, "opgap"), rapid.SampledFrom(c18ops).Draw(t, "op"), id()})
		}
		c.Users = append(c.Users, x)
	}
	if rapid.IntRange(0, 2).Draw(t, "perturbed") == 0 {
		c.Dwell, c.Seed = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "dwell"), rapid.IntRange(1, 1<<30).Draw(t, "seed")
	}
	c.Seconds = rapid.SampledFrom([]int{3, 10, 25}).Draw(t, "seconds")
	return c
}

func runC18(c c18, r *R) {
	dir, err := os.MkdirTemp(scratch, "c18.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "nodes.json")
	if len(c.File) > 0 {
		all := map[string]interface{}{}
		for i := range c.File {
			all[sprintf("%d", i)] = c.File[i].tree()
		}
		b, _ := json.Marshal(map[string]interface{}{"Nodes": all})
		if err := os.WriteFile(file, b, 0666); err != nil {
			harnessBug(err)
		}
	}
	level := logrus.GetLevel()
	logrus.SetLevel(logrus.PanicLevel)
	if c.Verbose {
		logrus.SetLevel(logrus.DebugLevel)
	}
	defer logrus.SetLevel(level)

	kinds := map[string]bool{}
	touched := map[int]map[int]bool{}
	total := 0
	for i, u := range c.Users {
		for _, o := range u.Ops {
			kinds[o.Do] = true
			if touched[o.Node] == nil {
				touched[o.Node] = map[int]bool{}
			}
			touched[o.Node][i] = true
			total++
		}
	}
	if c.Dwell > 0 {
		vsync.Perturb(c.Dwell, uint64(c.Seed))
		defer vsync.Perturb(0, 0)
	}
	bubble(r, func() {
		connected := make(chan *gozwave.Controller, 1)
		go func() {
			con, err := gozwave.ConnectWithCustomPortOpener("x", file, &raceOpener{ports: c.Port})
			if err == nil {
				connected <- con
			} else {
				connected <- nil
			}
		}()
		var con *gozwave.Controller
		select {
		case con = <-connected:
		case <-time.After(20 * time.Second):
		}
		if con == nil {
			r.Failf("connecting did not succeed")
			return
		}
		ev := con.GetNextEvent()
		go func() {
			for range ev {
			}
		}()
		left := make([]atomic.Int32, len(c.Users))
		at := make([]atomic.Int32, len(c.Users))
		for i, u := range c.Users {
			left[i].Store(1)
			go func() {
				time.Sleep(time.Duration(u.Start) * time.Millisecond)
				for k, o := range u.Ops {
					time.Sleep(time.Duration(o.Gap) * time.Millisecond)
					at[i].Store(int32(k))
					o.do(con)
				}
				left[i].Store(0)
			}()
		}
		time.Sleep(time.Duration(c.Seconds) * time.Second)
		// Every command may wait for a second without ACK, behind all others and
		// those of the identification
		limit := time.Duration(20+total*5) * time.Second
		for end := time.Now().Add(limit); time.Now().Before(end); {
			n := 0
			for i := range left {
				n += int(left[i].Load())
			}
			if n == 0 {
				break
			}
			time.Sleep(time.Second)
		}
		synctest.Wait()
		for i := range left {
			if left[i].Load() != 0 {
				o := c.Users[i].Ops[at[i].Load()]
				r.Failf("the call %s of node %d has not returned after %v", o.Do, o.Node, limit)
			}
		}
		// Nothing that is locked stays locked
		done := make(chan bool, 1)
		go func() {
			con.Lock()
			con.Unlock()
			con.Connection.Lock()
			con.Connection.Unlock()
			con.Nodes.Lock()
			con.Nodes.Unlock()
			for _, n := range con.Nodes.All() {
				n.Lock()
				n.Unlock()
			}
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			r.Failf("a lock of the controller, the connection, the list or a node is held for ever")
		}
	})
	for k := range kinds {
		r.Label("call: %s", k)
	}
	lost := 0
	for i, p := range c.Port {
		if i < len(c.Port)-1 && !p.Fail {
			lost++
		}
	}
	r.LabelIf(lost > 0, "the port is lost")
	r.LabelIf(c.Dwell > 0, "locks are kept for some ms")
	r.LabelIf(c.Verbose, "everything is logged")
	for _, m := range touched {
		r.Nontrivial(len(m) >= 3)
	}
}
