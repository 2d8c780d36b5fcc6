package props

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"pgregory.net/rapid"
)

// A simulated network behind the stick: nodes that answer the requests of the
// identification, now and then not at once.

type netCase struct {
	Self    bool      `json:"self"`    // the controller lists itself
	Lag     int       `json:"lag"`     // ms until the node list is sent
	Disc    []string  `json:"disc"`    // what happens to the first requests of the node list
	Nodes   []netNode `json:"nodes"`   // the network
	File    []netFile `json:"file"`    // the configuration
	HasFile bool      `json:"hasfile"` // there is one
	Wakes   []netWake `json:"wakes"`
	Chatter []netTalk `json:"chatter"`
	Length  int       `json:"length"` // seconds
}

type netNode struct {
	ID        int      `json:"id"`
	Info      Hex      `json:"info"`
	IDs       Hex      `json:"ids"`
	Endpoints byte     `json:"endpoints"`
	Flags     byte     `json:"flags"`
	Delay     int      `json:"delay"`          // ms until it answers
	Slow      int      `json:"slow,omitempty"` // ms until it tells its manufacturer, if that is longer
	Status    bool     `json:"status"`
	InfoTries []string `json:"infotries"`
	MSTries   []string `json:"mstries"`
	EPTries   []string `json:"eptries"`
	STTries   []string `json:"sttries"`
	NoMS      bool     `json:"noms"` // never answers
	NoEP      bool     `json:"noep"`
	WakeEvery int      `json:"wakeevery"` // ms, 0 never
}

type netFile struct {
	ID        int                `json:"id"`
	Awake     bool               `json:"awake"`
	IDs       Hex                `json:"ids"` // none: not known
	Brand     string             `json:"brand"`
	Classes   Hex                `json:"classes"`
	Endpoints int                `json:"endpoints"` // -1: not known
	On        bool               `json:"on"`
	Float     map[string]float64 `json:"float"`
}

type netWake struct {
	At   int `json:"at"` // ms
	Node int `json:"node"`
}

type netTalk struct {
	At      int  `json:"at"`
	Node    byte `json:"node"`
	Payload Hex  `json:"payload"`
}

func (n *netNode) listening() bool { return n.Info[0] >= 0x80 }

// classes are the command classes the node has by the reference.
func (n *netNode) classes(ids []byte) (want []refClass, dev *refDevice) {
	for _, c := range mandatoryOnce()[classPair{n.Info[4], n.Info[5]}] {
		want = append(want, refClass{id: c})
	}
	if len(ids) == 6 {
		db, _ := dbOnce()
		dev = db[idKey(ids)]
		if dev != nil {
			want = append(want, dev.classes...)
		}
	}
	return
}

func idKey(ids []byte) string {
	s := hex.EncodeToString(ids)
	return s[:4] + "_" + s[4:8] + "_" + s[8:]
}

// netReq is a request of the identification, followed by the simulation.
type netReq struct {
	kind    string // info, ms, ep, st
	at      time.Duration
	timeout time.Duration
	end     time.Duration // when it ended, at the earliest
	last    time.Duration // at the latest
	ok      bool
	over    bool
}

type netState struct {
	node   *netNode
	reqs   []*netReq // in order
	wakes  []time.Duration
	tries  map[string]int
	st     map[byte]int // state requests by class
	others int          // frames to it that are none of these
}

func (x *netState) cur() *netReq {
	if len(x.reqs) == 0 {
		return nil
	}
	return x.reqs[len(x.reqs)-1]
}

// live is the request that is waiting at now, if it is of the kind.
func (x *netState) live(kind string, now time.Duration) *netReq {
	q := x.cur()
	if q == nil || q.kind != kind || q.over || now >= q.at+q.timeout {
		return nil
	}
	return q
}

type network struct {
	s        *sim
	c        netCase
	mu       sync.Mutex
	nodes    map[int]*netState
	unknown  []string // frames for nodes that are not there
	tick     int
	count    int           // commands
	asked    int           // requests of the node list
	list     *netReq       // the last of them
	early    string        // one came too early
	infoNext time.Duration // the answers about protocol info are in order
}

// unique is a fraction of a millisecond, different for every use.
func (w *network) unique() time.Duration {
	w.tick++
	return time.Duration(w.tick%991) * time.Microsecond
}

func (w *network) after(d time.Duration, f func()) { time.AfterFunc(d+w.unique(), f) }

func kindOf(body []byte) (kind string, node int) {
	switch {
	case len(body) == 1 && body[0] == fnDiscovery:
		return "discovery", 0
	case len(body) == 2 && body[0] == fnProtocolInfo:
		return "info", int(body[1])
	case len(body) >= 5 && body[0] == fnSendData:
		node = int(body[1])
		switch {
		case body[3] == ccManufacturer && body[4] == 0x04:
			return "ms", node
		case body[3] == ccMultiChannel && body[4] == 0x07:
			return "ep", node
		case (body[3] == ccSwitchBinary || body[3] == ccMultilevel) && body[4] == 0x02, body[3] == ccSensor && body[4] == 0x01:
			return "st", node
		}
	}
	if len(body) >= 2 {
		node = int(body[1])
	}
	return "other", node
}

func (w *network) bitmap() []byte {
	b := make([]byte, 29)
	if w.c.Self {
		b[0] = 1
	}
	for _, n := range w.c.Nodes {
		b[(n.ID-1)/8] |= 1 << ((n.ID - 1) % 8)
	}
	return b
}

// onCommand is called with every frame the library writes.
func (w *network) onCommand(f *write) {
	w.mu.Lock()
	defer w.mu.Unlock()
	body := f.body()
	kind, id := kindOf(body)
	if w.count++; w.count > 12000 { // The test of a controller that floods its network must end
		if w.count == 12001 {
			w.s.r.Failf("%d commands were sent within %v", w.count, f.at)
		}
		return
	}
	now := f.at
	feed := func(b ...byte) { w.s.feed(b...) }
	const ackAfter = 2 * time.Millisecond
	if kind == "discovery" {
		w.discovery(now)
		return
	}
	x := w.nodes[id]
	if x == nil {
		w.unknown = append(w.unknown, f.String())
		w.after(ackAfter, func() { feed(ack) })
		return
	}
	n := x.node
	if kind == "other" {
		x.others++
		w.after(ackAfter, func() { feed(ack) })
		return
	}
	if kind == "st" {
		x.st[body[3]]++
	}
	q := x.live(kind, now)
	if q == nil {
		q = &netReq{kind: kind, at: now, timeout: map[string]time.Duration{"info": 10 * time.Second, "ms": 10 * time.Second, "ep": 2 * time.Second, "st": 2 * time.Second}[kind]}
		q.end, q.last = now+q.timeout, now+q.timeout
		x.reqs = append(x.reqs, q)
	}
	list := map[string][]string{"info": n.InfoTries, "ms": n.MSTries, "ep": n.EPTries, "st": n.STTries}[kind]
	how := "ok"
	if k := x.tries[kind]; k < len(list) {
		how = list[k]
	} else if kind == "ms" && n.NoMS || kind == "ep" && n.NoEP {
		how = "mute"
	}
	if never := kind == "ms" && n.NoMS || kind == "ep" && n.NoEP; never && (how == "ok" || how == "early" || how == "dup" || how == "late") {
		how = "mute"
	}
	x.tries[kind]++

	// answered feeds a frame that answers the request. The next request may be written
	// before feed returns, and is seen after this one.
	answered := func(ok bool, frame []byte) {
		w.mu.Lock()
		defer w.mu.Unlock()
		feed(frame...)
		if l := x.live(kind, w.s.now()); l != nil {
			if ok {
				l.over, l.ok = true, true
				l.end, l.last = w.s.now(), w.s.now()
			} else {
				l.end = w.s.now() // or not before its timeout
			}
		}
	}
	delay := time.Duration(n.Delay) * time.Millisecond
	if kind == "ms" && n.Slow > n.Delay {
		delay = time.Duration(n.Slow) * time.Millisecond
	}
	answer := func(at time.Duration, good bool) {
		w.after(at, func() {
			switch kind {
			case "info":
				answered(true, protocolInfoFrame(n.Info))
			case "ms":
				if !good {
					answered(false, reportFrame(byte(id), []byte{ccManufacturer, 0x05, 1, 2, 3}))
					return
				}
				answered(true, reportFrame(byte(id), append([]byte{ccManufacturer, 0x05}, n.IDs...)))
			case "ep":
				if !good {
					answered(false, reportFrame(byte(id), []byte{ccMultiChannel, 0x08, 1}))
					return
				}
				answered(true, reportFrame(byte(id), []byte{ccMultiChannel, 0x08, n.Flags, n.Endpoints}))
			case "st":
				switch body[3] {
				case ccSwitchBinary:
					feed(reportFrame(byte(id), []byte{ccSwitchBinary, 0x03, 0xFF})...)
				case ccMultilevel:
					feed(reportFrame(byte(id), []byte{ccMultilevel, 0x03, 50})...)
				case ccSensor:
					feed(reportFrame(byte(id), []byte{ccSensor, 0x02, 0x01})...)
				}
			}
		})
	}
	accept := func() {
		w.after(ackAfter, func() {
			feed(ack)
			if n.Status {
				feed(refFrame([]byte{0x01, fnSendData, 0x01})...)
			}
		})
	}
	if kind == "info" && how == "ok" {
		accept()
		at := now + ackAfter + 2*time.Millisecond + time.Duration(n.Delay%40)*time.Millisecond
		if at < w.infoNext {
			at = w.infoNext
		}
		w.infoNext = at + 2*time.Millisecond // more than the jitter
		answer(at-now, true)
		return
	}
	switch how {
	case "ok":
		accept()
		answer(ackAfter+time.Millisecond+delay, true)
	case "early":
		answer(time.Millisecond/2, true)
		accept()
	case "dup":
		accept()
		answer(ackAfter+time.Millisecond+delay, true)
		answer(ackAfter+20*time.Millisecond+2*delay, true)
	case "bad":
		accept()
		answer(ackAfter+time.Millisecond+delay, false)
	case "late":
		accept()
		answer(q.timeout+300*time.Millisecond+time.Duration(9*n.Delay)*time.Millisecond, true)
	case "wrong": // somebody else, something else
		accept()
		w.after(ackAfter+time.Millisecond, func() {
			feed(reportFrame(233, append([]byte{ccManufacturer, 0x05}, 0, 1, 0, 2, 0, 3))...)
			feed(reportFrame(233, []byte{ccMultiChannel, 0x08, 0, 9})...)
			feed(reportFrame(byte(id), []byte{ccSensor, 0x05, 1, 0x01, 0x10})...)
		})
	case "mute":
		accept()
	case "nak":
		w.after(ackAfter, func() {
			answeredNak(w, x, kind)
		})
	case "can":
		w.after(ackAfter, func() { feed(can) })
	case "silent":
	}
}

// discovery answers a request of the node list, w.mu is held.
func (w *network) discovery(now time.Duration) {
	feed := func(b ...byte) { w.s.feed(b...) }
	const ackAfter = 2 * time.Millisecond
	how := "ok"
	if k := w.asked; k < len(w.c.Disc) {
		how = w.c.Disc[k]
	}
	w.asked++
	q := w.list
	if q == nil || q.over || now >= q.at+q.timeout { // or it is the same request, after a CAN
		q = &netReq{kind: "discovery", at: now, timeout: 5 * time.Second, end: now + 5*time.Second}
		if p := w.list; p != nil && now < p.end+10*time.Second-time.Millisecond && w.early == "" {
			w.early = sprintf("the nodes are asked for at %v again, the last request (ended well: %v) ended at %v", now, p.ok, p.end)
		}
		w.list = q
	}
	ended := func(ok bool, frame ...byte) {
		w.mu.Lock()
		defer w.mu.Unlock()
		feed(frame...)
		if now := w.s.now(); !q.over && now < q.at+q.timeout {
			q.over, q.ok, q.end = true, ok, now
		}
	}
	lag := time.Duration(w.c.Lag) * time.Millisecond
	if how != "nak" && how != "can" && how != "silent" {
		w.after(ackAfter, func() { feed(ack) })
	}
	good := func() {
		ended(true, discoveryFrame(w.bitmap())...)
	}
	switch how {
	case "ok":
		w.after(ackAfter+lag, good)
	case "early":
		w.after(time.Millisecond/2, good)
	case "dup":
		w.after(ackAfter+lag, good)
		w.after(2*ackAfter+2*lag, good)
	case "bad": // not decodable
		w.after(ackAfter+lag, func() {
			ended(false, discoveryFrame(w.bitmap()[:5])...)
		})
	case "late":
		w.after(q.timeout+time.Millisecond+lag, good)
	case "wrong":
		w.after(ackAfter+lag, func() { feed(refFrame([]byte{0x01, fnSendData, 0x01})...) })
	case "nak":
		w.after(ackAfter, func() {
			ended(false, nak)
		})
	case "can":
		w.after(ackAfter, func() { feed(can) })
	}
}

func answeredNak(w *network, x *netState, kind string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.s.feed(nak)
	if l := x.live(kind, w.s.now()); l != nil {
		l.over = true
		l.end, l.last = w.s.now(), w.s.now()
	}
}

func (w *network) wake(id int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.s.feed(reportFrame(byte(id), []byte{ccWakeUp, 0x07})...)
	if x := w.nodes[id]; x != nil {
		x.wakes = append(x.wakes, w.s.now())
	}
}

// configuration is the file of the case.
func (c netCase) configuration() []byte {
	all := map[string]interface{}{}
	for _, f := range c.File {
		var ms interface{}
		if len(f.IDs) == 6 {
			s := hex.EncodeToString(f.IDs)
			ms = map[string]string{"manufacturer": s[:4], "type": s[4:8], "id": s[8:]}
		}
		var classes []interface{}
		for _, cc := range f.Classes {
			classes = append(classes, map[string]interface{}{"ID": cc, "InNIF": cc%2 == 0, "Version": "3"})
		}
		var eps []interface{}
		for i := 1; i <= f.Endpoints; i++ {
			eps = append(eps, map[string]interface{}{"Id": i, "StateBool": map[string]bool{}, "StateFloat": map[string]float64{}})
		}
		var epv interface{}
		if f.Endpoints >= 0 {
			epv = append([]interface{}{}, eps...)
		}
		all[strconv.Itoa(f.ID)] = map[string]interface{}{
			"id": f.ID, "is_awake": f.Awake, "ManufacurerSpecific": ms, "Brand": f.Brand, "Product": "P" + f.Brand, "Description": "D" + f.Brand,
			"CommandClasses": classes, "Endpoints": epv, "StateBool": map[string]bool{"on": f.On}, "StateFloat": f.Float,
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Nodes": all}, "", "\t")
	if err != nil {
		harnessBug(err)
	}
	return b
}

func runNet(c netCase, r *R, judge func(w *network, con *gozwave.Controller, ev *eventLog)) {
	bubble(r, func() {
		file := ""
		if c.HasFile {
			file = filepath.Join(scratch, sprintf("net-%d.json", os.Getpid()))
			defer os.Remove(file)
		}
		if w, con, ev := c.start(file, r); con != nil {
			time.Sleep(time.Duration(c.Length) * time.Second)
			judge(w, con, ev)
		}
	})
}

// start connects to the network.
func (c netCase) start(file string, r *R) (w *network, con *gozwave.Controller, ev *eventLog) {
	s := newSim(r)
	w = &network{s: s, c: c, nodes: map[int]*netState{}}
	for i := range c.Nodes {
		n := &c.Nodes[i]
		w.nodes[n.ID] = &netState{node: n, tries: map[string]int{}, st: map[byte]int{}}
	}
	s.onCommand = w.onCommand
	if c.HasFile {
		if err := os.WriteFile(file, c.configuration(), 0666); err != nil {
			harnessBug(err)
		}
	}
	con = s.connect(file)
	if con == nil {
		return
	}
	ev = s.events(con)
	end := time.Duration(c.Length) * time.Second
	for _, k := range c.Wakes {
		id := k.Node
		w.after(time.Duration(k.At)*time.Millisecond, func() { w.wake(id) })
	}
	for _, k := range c.Chatter {
		w.after(time.Duration(k.At)*time.Millisecond, func() { s.feed(reportFrame(k.Node, k.Payload)...) })
	}
	for _, n := range c.Nodes {
		if n.WakeEvery == 0 {
			continue
		}
		id, every := n.ID, time.Duration(n.WakeEvery)*time.Millisecond+time.Duration(n.ID)*time.Microsecond
		var again func()
		again = func() {
			w.wake(id)
			if s.now() < end {
				time.AfterFunc(every, again)
			}
		}
		time.AfterFunc(every, again)
	}
	return
}

// contentDiffers compares an identified node with what it has answered.
func (w *network) contentDiffers(x *netState, n *nodes.Node, f *netFile) string {
	d := x.node
	info := n.ProtocolInfo()
	if info == nil {
		return "has no protocol info"
	}
	want := refProtocolInfo(d.Info)
	have := refInfo{info.Listening, info.Routing, info.Beaming, info.Flirs, info.Security, info.Version, info.MaxBaud, info.Basic, info.Generic, info.Specific}
	if have != want {
		return sprintf("has the protocol info %+v, should be %+v", have, want)
	}
	for i := 0; i < 256; i++ {
		g, sp := d.Info[4]^byte(i), d.Info[5]
		if n.IsDeviceClass(g, sp) != (i == 0) || n.IsDeviceClass(d.Info[4], sp^byte(i)) != (i == 0) {
			return sprintf("is of the device class %02x %02x, but IsDeviceClass differs (with a difference of %02x)", d.Info[4], sp, i)
		}
	}
	if s := hasCommandDiffers(n); s != "" {
		return s
	}
	n.RLock()
	defer n.RUnlock()
	if n.Id != d.ID {
		return sprintf("has the id %d", n.Id)
	}
	if n.IsAwake != want.listening {
		return sprintf("is awake: %v, but listening: %v", n.IsAwake, want.listening)
	}
	ids := []byte(d.IDs)
	if f != nil && len(f.IDs) == 6 {
		ids = f.IDs
	} else if d.NoMS {
		ids = nil
	}
	if len(ids) == 0 {
		if n.ManufacurerSpecific != nil {
			return sprintf("has the manufacturer %v, but has never told it", n.ManufacurerSpecific)
		}
	} else {
		if n.ManufacurerSpecific == nil {
			return "has no manufacturer"
		}
		if k := n.ManufacurerSpecific.Manufacturer + "_" + n.ManufacurerSpecific.Type + "_" + n.ManufacurerSpecific.ID; k != idKey(ids) {
			return sprintf("is a %s, should be %s", k, idKey(ids))
		}
	}
	classes, dev := d.classes(ids)
	brand, product, desc := "", "", ""
	if f != nil {
		brand, product, desc = f.Brand, "P"+f.Brand, "D"+f.Brand
	}
	if dev != nil {
		brand, product, desc = dev.brand, dev.product, dev.desc
	}
	if n.Brand != brand || n.Product != product || n.Description != desc {
		return sprintf("is a %q %q %q, should be %q %q %q", n.Brand, n.Product, n.Description, brand, product, desc)
	}
	// The same command classes, and each as it is listed
	wantIDs, haveIDs := map[byte]bool{}, map[byte]bool{}
	haveAll := map[refClass]bool{}
	for _, c := range n.CommandClasses {
		if c == nil {
			return "has a nil command class"
		}
		haveIDs[byte(c.ID)] = true
		haveAll[refClass{byte(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version}] = true
	}
	for _, c := range classes {
		wantIDs[c.id] = true
		if !haveIDs[c.id] {
			return sprintf("lacks the command class %v", c)
		}
	}
	if dev != nil {
		for _, c := range dev.classes {
			if !haveAll[c] {
				return sprintf("lacks the command class %v of its device", c)
			}
		}
	}
	for c := range haveIDs {
		if !wantIDs[c] {
			return sprintf("has the command class %02x, which it should not", c)
		}
	}
	if len(classes) == 0 {
		return "" // It is not asked for its endpoints
	}
	count := int(d.Endpoints)
	if f != nil && f.Endpoints >= 0 {
		count = f.Endpoints
	} else if d.NoEP || d.NoMS {
		return ""
	}
	if len(n.Endpoints) != count {
		return sprintf("has %d endpoints, should have %d", len(n.Endpoints), count)
	}
	got := map[int]bool{}
	for _, e := range n.Endpoints {
		if e == nil || got[e.Id] || e.Id < 1 || e.Id > count {
			return sprintf("has %d endpoints, but one of them is %+v", count, e)
		}
		got[e.Id] = true
	}
	return ""
}

// hasCommandDiffers compares HasCommand with the list of command classes.
func hasCommandDiffers(n *nodes.Node) string {
	have := map[commands.ZWaveCommand]bool{}
	n.RLock()
	for _, c := range n.CommandClasses {
		if c != nil {
			have[c.ID] = true
		}
	}
	n.RUnlock()
	for i := 0; i < 256; i++ {
		cc := commands.ZWaveCommand(i)
		if n.HasCommand(cc) != have[cc] {
			return sprintf("has the command class %02x: HasCommand gives %v, in the list: %v", i, !have[cc], have[cc])
		}
	}
	return ""
}

// fileDiffers compares a node with the configuration it was loaded from.
func (f *netFile) differs(n *nodes.Node) string {
	if n.ProtocolInfo() != nil {
		return "has a protocol info"
	}
	for _, p := range [][2]byte{{0, 0}, {1, 1}, {16, 1}, {17, 1}, {33, 1}, {255, 255}} {
		if n.IsDeviceClass(p[0], p[1]) {
			return sprintf("is of the device class %02x %02x, but has no protocol info", p[0], p[1])
		}
	}
	if s := hasCommandDiffers(n); s != "" {
		return s
	}
	n.RLock()
	defer n.RUnlock()
	if n.Id != f.ID || n.IsAwake != f.Awake || n.Brand != f.Brand || n.Product != "P"+f.Brand || n.Description != "D"+f.Brand {
		return sprintf("is id %d, awake %v, %q %q %q", n.Id, n.IsAwake, n.Brand, n.Product, n.Description)
	}
	if (len(f.IDs) == 6) != (n.ManufacurerSpecific != nil) {
		return sprintf("has manufacturer %v", n.ManufacurerSpecific)
	}
	if n.ManufacurerSpecific != nil {
		if k := n.ManufacurerSpecific.Manufacturer + "_" + n.ManufacurerSpecific.Type + "_" + n.ManufacurerSpecific.ID; k != idKey(f.IDs) {
			return sprintf("is a %s", k)
		}
	}
	if len(n.CommandClasses) != len(f.Classes) {
		return sprintf("has %d command classes", len(n.CommandClasses))
	}
	for i, c := range f.Classes {
		if g := n.CommandClasses[i]; byte(g.ID) != c || g.InNIF != (c%2 == 0) || g.Version != "3" || g.Secure || g.NonSecure {
			return sprintf("has command class %+v as number %d", g, i)
		}
	}
	if want := max(f.Endpoints, 0); len(n.Endpoints) != want {
		return sprintf("has %d endpoints", len(n.Endpoints))
	}
	for i, e := range n.Endpoints {
		if e.Id != i+1 {
			return sprintf("has endpoint %d as number %d", e.Id, i)
		}
	}
	return ""
}

// ---- generating networks

type netGen struct {
	max      int  // nodes
	sleepy   int  // of ten
	large    bool // now and then a large network
	unknown  int  // of ten
	noAnswer bool
	wakes    bool
}

func genNet(g netGen) func(t *rapid.T) netCase {
	return func(t *rapid.T) netCase {
		c := netCase{Self: rapid.Bool().Draw(t, "self"), Lag: rapid.IntRange(0, 400).Draw(t, "lag"), Length: 1000}
		if rapid.IntRange(0, 9).Draw(t, "lags") == 0 {
			c.Lag = rapid.IntRange(400, 4700).Draw(t, "longlag")
		}
		n := rapid.IntRange(1, g.max).Draw(t, "nodes")
		large := g.large && rapid.IntRange(0, 19).Draw(t, "large") == 7
		if large {
			n = rapid.IntRange(20, 231).Draw(t, "many")
		}
		cans := rapid.Bool().Draw(t, "cans")
		pool := []string{"ok", "nak", "mute", "bad", "wrong", "late", "early", "dup"}
		info := []string{"ok", "nak"}
		st := []string{"ok", "nak", "mute"}
		switch {
		case large:
		case cans: // a command is cancelled now and then
			pool, info, st = append(pool, "can", "can"), append(info, "can"), append(st, "can")
		default: // or it gets no ACK: the line is slow then
			pool, info, st = append(pool, "silent", "silent"), append(info, "silent"), append(st, "silent")
		}
		tries := func(name string, p []string, m int) []string {
			k := rapid.IntRange(0, m).Draw(t, name)
			var l []string
			for i := 0; i < k; i++ {
				l = append(l, rapid.SampledFrom(p).Draw(t, name))
			}
			return l
		}
		if rapid.IntRange(0, 5).Draw(t, "disctrouble") == 3 {
			c.Disc = tries("disc", append([]string(nil), pool...), 3)
		}
		used := map[int]bool{1: true}
		pick := func(name string) int {
			for {
				id := rapid.IntRange(2, 232).Draw(t, name)
				if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
					id = rapid.SampledFrom([]int{2, 8, 9, 16, 17, 128, 225, 231, 232}).Draw(t, name)
				}
				if !used[id] {
					used[id] = true
					return id
				}
				for id = 2; id <= 232; id++ {
					if !used[id] {
						used[id] = true
						return id
					}
				}
			}
		}
		if large {
			for id := 2; len(c.Nodes) < n && id <= 232; id++ {
				if 232-id < n-len(c.Nodes) || rapid.IntRange(0, 232).Draw(t, "in") < n {
					c.Nodes = append(c.Nodes, netNode{ID: id})
					used[id] = true
				}
			}
		} else {
			for i := 0; i < n; i++ {
				c.Nodes = append(c.Nodes, netNode{ID: pick("id")})
			}
		}
		for i := range c.Nodes {
			d := &c.Nodes[i]
			gen, spec := genPair(t)
			d.Info = Hex{rapid.Byte().Draw(t, "cap") & 0x7F, rapid.Byte().Draw(t, "sec"), 0, rapid.Byte().Draw(t, "basic"), gen, spec}
			if rapid.IntRange(0, 9).Draw(t, "sleepy") >= g.sleepy {
				d.Info[0] |= 0x80
			}
			d.IDs = genIDs(t)
			d.Endpoints = byte(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 9, 20, 127}).Draw(t, "endpoints"))
			d.Flags = rapid.SampledFrom([]byte{0, 0x40, 0x80, 0xC0}).Draw(t, "flags")
			d.Delay = rapid.IntRange(0, 90).Draw(t, "delay")
			if !large && rapid.IntRange(0, 4).Draw(t, "slow") == 0 {
				d.Delay = rapid.IntRange(90, 900).Draw(t, "delay2")
			}
			if !large && rapid.IntRange(0, 5).Draw(t, "slower") == 0 {
				d.Slow = rapid.IntRange(900, 9500).Draw(t, "slow")
			}
			d.Status = rapid.Bool().Draw(t, "status")
			if !large || rapid.IntRange(0, 19).Draw(t, "trouble") == 0 {
				d.InfoTries = tries("infotries", info, 2)
				d.MSTries = tries("mstries", pool, 2)
				d.EPTries = tries("eptries", pool, 2)
				d.STTries = tries("sttries", st, 2)
			}
			if rapid.IntRange(0, 29).Draw(t, "stubborn") == 17 { // It fails many times
				l := map[string]*[]string{"info": &d.InfoTries, "ms": &d.MSTries, "ep": &d.EPTries}[rapid.SampledFrom([]string{"info", "ms", "ep"}).Draw(t, "what fails")]
				how := rapid.SampledFrom([]string{"nak", "nak", "mute", "bad"}).Draw(t, "how")
				if l == &d.InfoTries {
					how = "nak"
				}
				for k := rapid.IntRange(3, 25).Draw(t, "times"); k > 0; k-- {
					*l = append(*l, how)
				}
				c.Length = 4000
			}
			if g.noAnswer && !large {
				d.NoMS = rapid.IntRange(0, 14).Draw(t, "noms") == 0
				d.NoEP = rapid.IntRange(0, 9).Draw(t, "noep") == 0
			}
			if !d.listening() {
				switch rapid.IntRange(0, 3).Draw(t, "wakes") {
				case 0:
				default:
					d.WakeEvery = rapid.IntRange(7000, 60000).Draw(t, "every")
				}
			}
		}
		if rapid.Bool().Draw(t, "file") {
			c.HasFile = true
			k := rapid.IntRange(0, 3).Draw(t, "infile")
			for i := 0; i < k && len(c.Nodes)+i < 8; i++ {
				f := netFile{Awake: rapid.Bool().Draw(t, "awake"), On: rapid.Bool().Draw(t, "on"), Brand: rapid.SampledFrom([]string{"", "ACME", "Ö\"x"}).Draw(t, "brand")}
				if rapid.Bool().Draw(t, "also") && i < len(c.Nodes) {
					f.ID = c.Nodes[i].ID
				} else {
					f.ID = pick("fid")
				}
				if rapid.Bool().Draw(t, "fms") {
					f.IDs = genIDs(t)
				}
				f.Classes = genBytes(0, 4).Draw(t, "fclasses")
				f.Endpoints = rapid.IntRange(-1, 3).Draw(t, "feps")
				f.Float = map[string]float64{"level": float64(rapid.IntRange(0, 99).Draw(t, "flevel"))}
				c.File = append(c.File, f)
			}
		}
		if g.wakes {
			k := rapid.IntRange(0, 12).Draw(t, "nwakes")
			for i := 0; i < k; i++ {
				id := c.Nodes[rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "waker")].ID
				if rapid.IntRange(0, 7).Draw(t, "stranger") == 0 {
					id = rapid.IntRange(2, 233).Draw(t, "strange")
				}
				at := rapid.IntRange(300, 3000).Draw(t, "wat")
				if rapid.Bool().Draw(t, "later") {
					at = rapid.IntRange(3000, 200000).Draw(t, "wlater")
				}
				c.Wakes = append(c.Wakes, netWake{at, id})
			}
			k = rapid.IntRange(0, 6).Draw(t, "talks")
			for i := 0; i < k; i++ {
				id := c.Nodes[rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "talker")].ID
				p := rapid.SampledFrom([]Hex{{ccSwitchBinary, 0x03, 0xFF}, {ccMultilevel, 0x03, 20}, {ccSensor, 0x05, 1, 1, 0x20}, {ccAlarm, 0x05, 1, 2}, {ccAlarm, 0x05, 1, 0, 0, 0xFF, 6, 0x16},
					{0x80, 0x03, 0x64}, {0x20, 0x01, 0xFF}}).Draw(t, "talk")
				c.Chatter = append(c.Chatter, netTalk{rapid.IntRange(300, 100000).Draw(t, "tat"), byte(id), p})
			}
		}
		return c
	}
}

func (c netCase) inFile(id int) *netFile {
	for i := range c.File {
		if c.File[i].ID == id {
			return &c.File[i]
		}
	}
	return nil
}

func (c netCase) labels(r *R) {
	how := map[string]bool{}
	for _, n := range c.Nodes {
		for _, l := range [][]string{n.InfoTries, n.MSTries, n.EPTries, n.STTries} {
			for _, h := range l {
				how[h] = true
			}
		}
		r.LabelIf(n.NoMS || n.NoEP, "a node never answers")
		r.LabelIf(!n.listening() && n.WakeEvery > 0, "a sleeping node wakes up regularly")
		r.LabelIf(!n.listening() && n.WakeEvery == 0, "a sleeping node wakes up seldom or never")
		db, _ := dbOnce()
		r.LabelIf(db[idKey(n.IDs)] != nil, "device in the database")
		r.LabelIf(db[idKey(n.IDs)] == nil, "device not in the database")
		if f := c.inFile(n.ID); f != nil {
			r.Label("a node in the network and the configuration")
		}
	}
	for h := range how {
		r.Label("answers: %s", h)
	}
	for _, h := range c.Disc {
		r.Label("node list: %s", h)
	}
	r.LabelIf(len(c.File) > 0, "nodes from the configuration")
	r.LabelIf(len(c.Nodes) > 8, "large network")
}

func init() {
	reg("C13", "a simulated network of 1 to 8, sometimes up to 231 nodes with known and unknown devices, device classes, endpoints, slow, lost, refused, late, wrong and repeated answers, sleeping nodes, "+
		"and a configuration file with nodes in and out of the network; non-trivial: at least two nodes, and one of them repeats a request or has an entry in the configuration",
		genNet(netGen{max: 8, sleepy: 2, large: true, noAnswer: true}),
		func(c netCase, r *R) {
			runNet(c, r, func(w *network, con *gozwave.Controller, ev *eventLog) {
				w.judgeNodes(con, ev, r)
			})
			c.labels(r)
			again := len(c.File) > 0
			for _, n := range c.Nodes {
				again = again || len(c.Disc)+len(n.InfoTries)+len(n.MSTries)+len(n.EPTries) > 0
			}
			r.Nontrivial(len(c.Nodes) > 1 && again)
		})

	reg("C14", "a simulated network of 1 to 6 mostly sleeping nodes with regular and arbitrary wake-ups of known and unknown nodes, other reports, and lost, refused, late, wrong and repeated answers; "+
		"non-trivial: a sleeping node is contacted after a wake-up, or wakes up while it is not waited for",
		genNet(netGen{max: 6, sleepy: 7, noAnswer: true, wakes: true}),
		func(c netCase, r *R) {
			contacted, ignored := 0, 0
			runNet(c, r, func(w *network, con *gozwave.Controller, ev *eventLog) {
				for _, n := range c.Nodes {
					x := w.nodes[n.ID]
					a, b := w.judgeWakes(x, c.inFile(n.ID), con, r)
					contacted += a
					ignored += b
					if r.Failed() {
						if os.Getenv("VERIF_TRACE") != "" {
							for _, q := range x.reqs {
								os.Stderr.WriteString(sprintf("%+v\n", *q))
							}
							os.Stderr.WriteString(sprintf("wakes %v\n", x.wakes))
						}
						return
					}
				}
			})
			c.labels(r)
			r.LabelIf(contacted > 0, "a sleeping node is contacted")
			r.LabelIf(ignored > 0, "a wake-up while nothing waits for it")
			r.Nontrivial(contacted > 0 || ignored > 0)
		})
}

// sync is for the race detector: what was done before is seen by what is done after.
func (w *network) sync() {
	w.mu.Lock()
	w.mu.Unlock()
}

// judgeNodes compares the nodes of the controller with the network and the
// configuration.
func (w *network) judgeNodes(con *gozwave.Controller, ev *eventLog, r *R) {
	c := w.c
	// The list
	want := map[int]bool{}
	for _, n := range c.Nodes {
		want[n.ID] = true
	}
	for _, f := range c.File {
		want[f.ID] = true
	}
	all := con.Nodes.All()
	var ids []int
	for id, n := range all {
		if !want[id] {
			r.Failf("node %d is in the list, but neither in the network nor in the configuration", id)
			return
		}
		if n == nil || con.Nodes.Get(id) != n {
			r.Failf("node %d in the list is %v, but Get gives %v", id, n, con.Nodes.Get(id))
			return
		}
	}
	for id := range want {
		if all[id] == nil {
			r.Failf("node %d is not in the list", id)
			return
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) <= 8 {
		seen := map[int]int{}
		for _, e := range ev.get() {
			if d, ok := e.ev.(events.NodeDiscoverd); ok {
				seen[d.Address]++
			}
		}
		for _, id := range ids {
			if seen[id] != 1 {
				r.Failf("there are %d discovery events for node %d", seen[id], id)
				return
			}
			delete(seen, id)
		}
		if len(seen) > 0 {
			r.Failf("there are discovery events for nodes that are not there: %v", seen)
			return
		}
	}
	if w.early != "" {
		r.Failf("%s", w.early)
		return
	}
	// The nodes
	for _, id := range ids {
		x, f := w.nodes[id], c.inFile(id)
		if x == nil {
			if s := f.differs(all[id]); s != "" {
				r.Failf("node %d of the configuration (not in the network) %s, the configuration says %+v", id, s, *f)
				return
			}
			continue
		}
		if !x.node.listening() && x.node.WakeEvery == 0 {
			continue // C14
		}
		if s := w.contentDiffers(x, all[id], f); s != "" {
			r.Failf("node %d %s", id, s)
			return
		}
		// It does not flood the line
		for i := 1; i < len(x.reqs); i++ {
			p, q := x.reqs[i-1], x.reqs[i]
			if p.kind == q.kind && p.kind != "st" && !p.ok && q.at < p.end+10*time.Second-time.Millisecond {
				r.Failf("node %d gets a request (%s) at %v again, the last one failed at %v", id, q.kind, q.at, p.end)
				return
			}
		}
		// It does not ask for what it has been told
		for i := 1; i < len(x.reqs); i++ {
			p, q := x.reqs[i-1], x.reqs[i]
			if p.kind == q.kind && p.kind != "st" && p.ok {
				r.Failf("node %d gets a request (%s) at %v again, which it has answered at %v", id, q.kind, q.at, p.end)
				return
			}
		}
		// It goes on trying
		if stuck := x.node.NoMS && (f == nil || len(f.IDs) == 0) || x.node.NoEP && (f == nil || f.Endpoints < 0); stuck {
			k := "ep"
			if x.node.NoMS && (f == nil || len(f.IDs) == 0) {
				k = "ms"
			}
			if cl, _ := x.node.classes(x.node.IDs); k == "ep" && len(cl) == 0 && (f == nil || len(f.IDs) == 0) {
				continue
			}
			if f != nil && len(f.IDs) == 6 {
				if cl, _ := x.node.classes(f.IDs); k == "ep" && len(cl) == 0 {
					continue
				}
			}
			if x.tries[k] < 3 || x.cur().at < time.Duration(c.Length-300)*time.Second {
				r.Failf("node %d does not answer, and the request was sent only %d times, the last time after %v", id, x.tries[k], x.cur().at)
				return
			}
		}
	}
	if len(w.unknown) > 0 {
		r.Failf("there are requests to nodes that are not in the network: %v", w.unknown[0])
	}
}

// judgeWakes goes through the requests to a node: every step needs a wake-up
// that was received after the previous one had ended, and every such wake-up is
// followed by the next step.
func (w *network) judgeWakes(x *netState, f *netFile, con *gozwave.Controller, r *R) (contacted, ignored int) {
	const slack = 120 * time.Second
	id, end := x.node.ID, w.s.now()
	sleeping := !x.node.listening()
	ids := []byte(nil)
	haveMS, haveEP, haveST := false, false, false
	if f != nil {
		if len(f.IDs) == 6 {
			haveMS, ids = true, f.IDs
		}
		haveEP = f.Endpoints >= 0
	}
	known := false
	var ready, surely time.Duration // the identification waits after ready, and surely after surely
	next := func() string {
		switch {
		case !haveMS:
			return "ms"
		case !haveEP:
			return "ep"
		case !haveST:
			return "st"
		}
		return ""
	}
	classes := func() []refClass {
		l, _ := x.node.classes(ids)
		return l
	}
	states := func() map[byte]bool {
		m := map[byte]bool{}
		for _, c := range classes() {
			if c.id == ccSwitchBinary || c.id == ccMultilevel || c.id == ccSensor {
				m[c.id] = true
			}
		}
		return m
	}
	var prev *netReq
	for _, q := range append(append([]*netReq(nil), x.reqs...), nil) {
		if q != nil && q.kind == "info" {
			if known {
				r.Failf("node %d is asked for its protocol info again at %v", id, q.at)
				return
			}
			if q.ok {
				known, ready, surely = true, q.end, q.end
			}
			continue
		}
		if q != nil && q.kind == "st" && prev != nil && prev.kind == "st" {
			continue // one step
		}
		if q != nil && !known {
			r.Failf("node %d gets a request (%s) at %v, but its protocol info is not known", id, q.kind, q.at)
			return
		}
		if q == nil && !known {
			return
		}
		kind := next()
		silentStep := kind == "ep" && len(classes()) == 0 || kind == "st" && len(states()) == 0
		// Wake-ups since the previous step
		first := time.Duration(-1)
		for _, k := range x.wakes {
			if k > surely+time.Millisecond && first < 0 {
				first = k
			}
		}
		if !sleeping {
			first = surely
		}
		if q == nil {
			// There was no other step
			if kind != "" && !silentStep && first >= 0 && first+slack < end {
				r.Failf("node %d: the identification waits since %v, a wake-up came at %v (listening: %v), but there is no further request (%s)", id, surely, first, !sleeping, kind)
			}
			break
		}
		if sleeping {
			woken := false
			for _, k := range x.wakes {
				if k > ready && k <= q.at {
					woken = true
				}
				if prev != nil && k > prev.at && k < prev.end {
					ignored++
				}
			}
			if !woken {
				r.Failf("node %d is not listening and gets a request (%s) at %v, but there was no wake-up since %v, when the identification came to wait for it; wake-ups: %v", id, q.kind, q.at, ready, x.wakes)
				return
			}
			contacted++
		}
		if first >= 0 && q.at > first+slack && !silentStep {
			r.Failf("node %d: the identification waits since %v, there was a wake-up at %v (listening: %v), but the next request came at %v", id, surely, first, !sleeping, q.at)
			return
		}
		if silentStep { // Nothing is known that could be asked for
			if q.kind != kind {
				haveEP = true
				kind = next()
			}
		}
		if q.kind != kind {
			r.Failf("node %d is asked for %s at %v, but %s is what is missing", id, q.kind, q.at, kind)
			return
		}
		switch {
		case q.kind == "st":
			haveST = true
		case q.ok:
			if q.kind == "ms" {
				haveMS, ids = true, x.node.IDs
			} else {
				haveEP = true
			}
			ready, surely = q.end, q.end
		default:
			ready, surely = q.end, q.last+10*time.Second
		}
		prev = q
	}
	if x.others > 0 {
		r.Failf("node %d got %d frames that are no requests of the identification", id, x.others)
		return
	}
	if w.c.Length < 900 || sleeping && x.node.WakeEvery == 0 {
		return
	}
	// It is complete
	n := con.Nodes.Get(id)
	if n == nil {
		r.Failf("node %d is not in the list", id)
		return
	}
	if s := w.contentDiffers(x, n, f); s != "" {
		r.Failf("node %d wakes up often enough (listening: %v), but it %s", id, !sleeping, s)
		return
	}
	if x.node.NoMS && (f == nil || len(f.IDs) == 0) || x.node.NoEP && (f == nil || f.Endpoints < 0) {
		return
	}
	for cc := range states() {
		if x.st[cc] == 0 {
			r.Failf("node %d wakes up often enough (listening: %v), but it is never asked for the state of command class %02x", id, !sleeping, cc)
			return
		}
	}
	return
}
