package props

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"pgregory.net/rapid"
)

// refState is the state of a node by the reference.
type refState struct {
	B      map[string]bool
	F      map[string]float64
	any    map[string]bool // values that have no meaning
	alarms []time.Duration // when alarms were received
}

func newRefState() *refState {
	return &refState{B: map[string]bool{}, F: map[string]float64{}, any: map[string]bool{}}
}

// apply folds a report into the state. It returns false when the report says
// nothing about the state.
func (s *refState) apply(r *refReport, now time.Duration) bool {
	if r == nil {
		return false
	}
	switch r.kind {
	case "alarm":
		if r.alarm[3] != 0xFF {
			return false
		}
		s.alarms = append(s.alarms, now)
		s.B["alarm"] = true
		if r.alarm[0] != 0 {
			s.F["alarm"] = float64(r.alarm[0])
			s.F["alarmLastType"] = float64(r.alarm[0])
		}
	case "binary1", "binary2":
		if !r.valid {
			return false
		}
		s.B["on"] = r.on
	case "level1", "level4":
		if !r.valid {
			return false
		}
		s.B["on"] = r.level > 0
		s.F["level"] = r.level
	case "sensor":
		s.F[r.stateKey()] = r.value
		s.any[r.stateKey()] = r.anyValue
	default:
		return false
	}
	return true
}

// differs compares the state of a node with the reference.
func (s *refState) differs(b map[string]bool, f map[string]float64, now time.Duration) string {
	// An alarm ends a second after it. When alarms overlap the first end may be the end of all.
	var pending, running bool
	for _, t := range s.alarms {
		if now < t+960*time.Millisecond {
			running = true
		}
		if now >= t+960*time.Millisecond {
			pending = true
		}
	}
	var unsure bool
	if n := len(s.alarms); n > 0 {
		last := s.alarms[n-1]
		unsure = running && pending && last != s.alarms[0] || now >= last+960*time.Millisecond && now < last+1100*time.Millisecond
		// An end that was scheduled before the last alarm and is still to come
		if running && n > 1 && s.alarms[n-2]+960*time.Millisecond > last {
			unsure = unsure || now >= s.alarms[n-2]+960*time.Millisecond
		}
	}
	keysB, keysF := map[string]bool{}, map[string]bool{}
	for k := range s.B {
		keysB[k] = true
	}
	for k := range b {
		keysB[k] = true
	}
	for k := range s.F {
		keysF[k] = true
	}
	for k := range f {
		keysF[k] = true
	}
	for _, k := range sorted(keysB) {
		want, wok := s.B[k]
		got, gok := b[k]
		if k == "alarm" {
			if len(s.alarms) == 0 {
				if got {
					return "there is an alarm without an alarm report"
				}
				continue
			}
			if unsure {
				continue
			}
			if want = running; want != got {
				return sprintf("the alarm is %t instead of %t", got, want)
			}
			continue
		}
		if want != got || wok != gok {
			return sprintf("%s is %t (%t) instead of %t (%t)", k, got, gok, want, wok)
		}
	}
	for _, k := range sorted(keysF) {
		want, wok := s.F[k]
		got, gok := f[k]
		if k == "alarm" {
			if unsure {
				continue
			}
			if !running {
				want, wok, gok = 0, true, true
			}
		}
		if wok != gok || (!s.any[k] && !close2(want, got)) {
			return sprintf("%s is %v (%t) instead of %v (%t)", k, got, gok, want, wok)
		}
	}
	return ""
}

func sorted(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// nodeState copies the state of a node.
func nodeState(n *nodes.Node) (map[string]bool, map[string]float64) {
	n.RLock()
	defer n.RUnlock()
	b, f := map[string]bool{}, map[string]float64{}
	for k, v := range n.StateBool {
		b[k] = v
	}
	for k, v := range n.StateFloat {
		f[k] = v
	}
	return b, f
}

// eventCount counts the update events of each node.
type eventCount struct {
	mu sync.Mutex
	n  map[int]int
	no []string
}

func (e *eventCount) push(ev interface{}) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if u, ok := ev.(events.NodeUpdated); ok {
		e.n[u.Address]++
	}
}

func (e *eventCount) get(id int) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.n[id]
}

func (e *eventCount) copy() map[int]int {
	e.mu.Lock()
	defer e.mu.Unlock()
	m := map[int]int{}
	for k, v := range e.n {
		m[k] = v
	}
	return m
}

// withNodes connects to a stick with nodes that are known by the way of mode: 0
// added by the program, 1 discovered, 2 loaded from a file.
func (s *sim) withNodes(mode int, ids []int) (*gozwave.Controller, *eventCount) {
	ev := &eventCount{n: map[int]int{}}
	file := ""
	if mode == 2 {
		file = filepath.Join(scratch, sprintf("nodes-%d.json", os.Getpid()))
		l := map[string]interface{}{}
		for _, id := range ids {
			l[strconv.Itoa(id)] = map[string]interface{}{"id": id, "is_awake": id%2 == 0, "StateBool": map[string]bool{}, "StateFloat": map[string]float64{}}
		}
		b, _ := json.Marshal(map[string]interface{}{"Nodes": l})
		if err := os.WriteFile(file, b, 0666); err != nil {
			harnessBug(err)
		}
	}
	bitmap := make([]byte, 29)
	bitmap[0] = 1
	if mode == 1 {
		for _, id := range ids {
			bitmap[(id-1)/8] |= 1 << ((id - 1) % 8)
		}
	}
	s.onCommand = func(w *write) {
		disc := w.isDiscovery()
		time.AfterFunc(time.Millisecond, func() {
			s.feed(ack)
			if disc {
				s.feed(discoveryFrame(bitmap)...)
			}
		})
	}
	c := s.connect(file)
	if c == nil {
		return nil, nil
	}
	ch := c.GetNextEvent()
	go func() {
		for e := range ch {
			ev.push(e)
		}
	}()
	wait(100)
	if mode == 0 {
		for _, id := range ids {
			n := nodes.New(id)
			n.Setup(c.Connection, ev.push)
			c.Nodes.Add(n)
		}
	}
	// The requests of the identification are sent, and not answered
	wait(200 + 60*float64(len(ids)))
	s.onCommand = func(w *write) { s.feed(ack) }
	if got := len(c.Nodes.All()); got != len(ids) {
		s.r.Failf("there are %d nodes instead of %d", got, len(ids))
		return nil, nil
	}
	s.clear()
	return c, ev
}

func harnessBug(err error) {
	os.Stderr.WriteString("HARNESS: " + err.Error() + "\n")
	os.Exit(exitBug)
}

// genPoll makes the time after which reads return without bytes, mostly never.
func genPoll(t *rapid.T) int {
	if rapid.IntRange(0, 5).Draw(t, "polls") != 4 {
		return 0
	}
	return rapid.OneOf(rapid.IntRange(1, 60), rapid.SampledFrom([]int{10, 39, 41, 100, 1000})).Draw(t, "poll")
}

// polls makes reads return without bytes after so many ms.
func (s *sim) polls(ms int) {
	if ms > 0 {
		s.poll = time.Duration(ms)*time.Millisecond + time.Duration(ms%2)
	}
}

// ---- C06

type c06 struct {
	IDs    []int `json:",omitempty"` // of the nodes 2, 3, 4 and 5
	Frames []c06frame
	Cuts   []c06cut // how the bytes are split into reads; the rest in one
	Drip   int      `json:",omitempty"` // in reads of so many bytes
	Lost   bool     `json:",omitempty"` // the last read gives the last bytes and fails
	Poll   int      `json:",omitempty"` // reads return without bytes after so many ms
}

type c06frame struct {
	Frame Hex
	Pause int // ms before it
}

type c06cut struct {
	N     int // bytes in the read
	Delay int // ms after it
}

// genNodeFrame makes a frame for nodes 2..5, mostly with a report.
func genNodeFrame() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 11).Draw(t, "what") {
		case 0:
			return []byte{rapid.SampledFrom([]byte{ack, nak, can}).Draw(t, "control")}
		case 1:
			return refFrame(genContent().Draw(t, "content"))
		case 2: // The function is unknown
			n := rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 245)).Draw(t, "n")
			return refFrame(append([]byte{rapid.ByteRange(0, 1).Draw(t, "type"), rapid.SampledFrom([]byte{0x15, 0x13, 0x49, 0x20}).Draw(t, "fn")}, genBytes(n, n).Draw(t, "args")...))
		case 3: // No content that can be decoded
			return reportFrame(rapid.ByteRange(2, 5).Draw(t, "node"), genBytes(0, 8).Draw(t, "payload"))
		case 4:
			// A long report
			n := rapid.IntRange(100, 240).Draw(t, "n")
			return reportFrame(rapid.ByteRange(2, 5).Draw(t, "node"), append([]byte{ccSensor, 5, 1, 0x22}, genBytes(n, n).Draw(t, "value")...))
		}
		return reportFrame(rapid.ByteRange(2, 6).Draw(t, "node"), genStatePayload().Draw(t, "report"))
	})
}

// genStatePayload makes reports that change the state, often the same part of it.
func genStatePayload() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 0xfe, 1, 99, 100, 101, 50}), rapid.Byte())
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0:
			return []byte{ccSwitchBinary, 3, b.Draw(t, "value")}
		case 1:
			return []byte{ccSwitchBinary, 3, b.Draw(t, "value"), b.Draw(t, "target"), b.Draw(t, "duration")}
		case 2:
			return []byte{ccMultilevel, 3, b.Draw(t, "value")}
		case 3:
			return []byte{ccMultilevel, 3, b.Draw(t, "value"), b.Draw(t, "target"), b.Draw(t, "duration")}
		case 4, 5:
			typ := rapid.OneOf(rapid.ByteRange(1, 3), rapid.Byte()).Draw(t, "type")
			return append([]byte{ccSensor, 5, typ, rapid.ByteRange(0, 1).Draw(t, "scale")<<3 | 0x42}, genBytes(2, 2).Draw(t, "value")...)
		case 6:
			return []byte{ccAlarm, 5, rapid.ByteRange(0, 3).Draw(t, "type"), 1, 0, rapid.SampledFrom([]byte{0xff, 0xff, 0}).Draw(t, "status"), b.Draw(t, "sensor"), b.Draw(t, "event")}
		default:
			return genPayload().Draw(t, "any")
		}
	})
}

// foldFrames is the state of the nodes after some frames.
func foldFrame(states map[int]*refState, f []byte, now time.Duration) (node int, update bool) {
	if len(f) < 2 || f[0] != sof || !refContentOK(f) || f[3] != fnReport {
		return 0, false
	}
	s := states[int(f[5])]
	if s == nil {
		return 0, false
	}
	p := f[7 : 7+int(f[6])]
	return int(f[5]), s.apply(refDecode(p[0], p[1], p[2:]), now)
}

// c06node is the node a frame is from, or 0.
func c06node(f []byte) int {
	if len(f) < 7 || f[0] != sof {
		return 0
	}
	return int(f[5])
}

// isWakeUp says if a frame is a wake-up report.
var streamNodes = []int{2, 3, 4, 5}

// genStreamIDs makes ids for the nodes of a stream, or none.
func genStreamIDs(t *rapid.T) []int {
	if rapid.Bool().Draw(t, "usual nodes") {
		return nil
	}
	id := rapid.OneOf(rapid.IntRange(2, 232), rapid.SampledFrom([]int{2, 127, 128, 129, 130, 131, 232})).Filter(func(n int) bool { return n != 6 })
	return rapid.SliceOfNDistinct(id, 4, 4, rapid.ID[int]).Draw(t, "ids")
}

// streamID maps the nodes 2 to 5 to those.
func streamID(ids []int) func(byte) byte {
	return func(n byte) byte {
		if n >= 2 && int(n) < 2+len(ids) {
			return byte(ids[n-2])
		}
		for i, id := range ids { // An unknown node must not be one of them
			if id == int(n) {
				return byte(2 + i)
			}
		}
		return n
	}
}

func init() {
	reg("C06",
		"1-25 valid frames (reports of 4 known and one unknown node, unknown functions, undecodable content, up to 250 bytes long) and ACK, NAK, CAN bytes, back to back or with pauses between them, split into reads of 1-128 bytes at generated places, reads inside of a frame up to 35 ms apart; now and then the last read fails and gives the last bytes nevertheless. Non-trivial: at least 2 frames and a read that ends inside of a frame",
		func(t *rapid.T) c06 {
			c := c06{IDs: genStreamIDs(t)}
			n := rapid.IntRange(1, 25).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Frames = append(c.Frames, c06frame{
					genNodeFrame().Draw(t, "frame"),
					rapid.SampledFrom([]int{0, 0, 0, 0, 5, 39, 41, 200, 1500}).Draw(t, "pause"),
				})
			}
			c.Cuts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c06cut {
				return c06cut{
					rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 3), rapid.IntRange(1, 128)).Draw(t, "n"),
					rapid.SampledFrom([]int{0, 0, 1, 10, 35}).Draw(t, "delay"),
				}
			}), 0, 60).Draw(t, "cuts")
			if rapid.IntRange(0, 5).Draw(t, "drips") == 3 {
				c.Drip = rapid.IntRange(1, 3).Draw(t, "drip")
			}
			c.Lost = rapid.IntRange(0, 7).Draw(t, "lost") == 3
			c.Poll = genPoll(t)
			return c
		},
		func(c c06, r *R) {
			ids := streamNodes
			if len(c.IDs) == len(ids) {
				ids = c.IDs
				frames := c.Frames
				c.Frames = nil
				for _, f := range frames {
					c.Frames = append(c.Frames, c06frame{readdressed(f.Frame, streamID(ids)), f.Pause})
				}
			}
			type outcome struct {
				acks   int
				states map[int][2]string
				events map[int]int
			}
			valid, split := 0, 0
			var run func(own bool) *outcome
			run = func(own bool) (o *outcome) {
				bubble(r, func() {
					s := newSim(r)
					s.polls(c.Poll)
					con, ev := s.withNodes(0, ids)
					if con == nil {
						return
					}
					states := map[int]*refState{}
					for _, id := range ids {
						states[id] = newRefState()
					}
					before := ev.copy()
					updates, changes, alarms := map[int]int{}, map[int]int{}, map[int]int{}
					valid, split = 0, 0
					cuts := c.Cuts
					var pending []byte
					send := func(last bool) { // What has to be there before a pause
						for len(pending) > 0 {
							n, d := 128, 0
							if c.Drip > 0 && !own {
								n = c.Drip
							}
							if !own && len(cuts) > 0 {
								n, d = cuts[0].N, cuts[0].Delay
								cuts = cuts[1:]
							}
							if n < 1 {
								n = 1
							}
							if d > 35 {
								d = 35
							}
							if n > len(pending) {
								n = len(pending)
							}
							if last && c.Lost && n == len(pending) {
								s.loseWith(io.EOF, pending...)
							} else {
								s.feed(pending[:n]...)
							}
							pending = pending[n:]
							if len(pending) > 0 && d > 0 {
								wait(float64(d))
							}
							split++
						}
						wait(1)
					}
					for _, f := range c.Frames {
						if len(f.Frame) == 0 {
							continue
						}
						if f.Pause > 0 || own {
							send(false)
							wait(float64(f.Pause))
						}
						pending = append(pending, f.Frame...)
						if f.Frame[0] == sof && refLength(f.Frame) == len(f.Frame) {
							valid++
						}
						old := ""
						if st := states[c06node(f.Frame)]; st != nil {
							old = st.String()
						}
						if id, update := foldFrame(states, f.Frame, s.now()); update {
							updates[id]++
							if states[id].String() != old {
								changes[id]++
							}
						}
					}
					send(true)
					wait(3000) // All alarms are over
					o = &outcome{acks: s.ackCount(), states: map[int][2]string{}, events: ev.copy()}
					for k, v := range before {
						o.events[k] -= v
					}
					if c.Lost && o.acks < valid {
						o.acks = valid // The port is gone for the last ones
					}
					if o.acks != valid {
						r.Failf("%d frames were answered with %d ACK", valid, o.acks)
					}
					for _, id := range ids {
						alarms[id] = len(states[id].alarms)
						if n := o.events[id]; n < changes[id] || n > updates[id]+alarms[id] {
							r.Failf("%d of %d reports changed node %d, and there were %d updates (with %d ends of alarms)", changes[id], updates[id], id, n, alarms[id])
						}
						b, f := nodeState(con.Nodes.Get(id))
						if d := states[id].differs(b, f, s.now()); d != "" {
							r.Failf("after all frames %s of node %d", d, id)
						}
						for k := range f {
							if states[id].any[k] {
								delete(f, k)
							}
						}
						jb, _ := json.Marshal(b)
						jf, _ := json.Marshal(f)
						o.states[id] = [2]string{string(jb), string(jf)}
					}
				})
				return
			}
			o1 := run(false)
			r.LabelIf(c.Drip > 0, "a few bytes at a time")
			r.LabelIf(c.Lost, "the last read fails and gives bytes")
			r.LabelIf(c.Poll > 0, "reads without bytes")
			r.Nontrivial(valid >= 2 && split > 1 && len(c.Cuts) > 0)
			r.LabelIf(valid > 10, "more than 10 frames")
			if r.Failed() || o1 == nil {
				return
			}
			o2 := run(true)
			if r.Failed() || o2 == nil {
				return
			}
			for _, id := range ids {
				if o1.events[id] != o2.events[id] {
					r.Failf("node %d had %d updates, with every frame in a read of its own it has %d", id, o1.events[id], o2.events[id])
				}
				if o1.states[id] != o2.states[id] {
					r.Failf("node %d has the state %v, with every frame in a read of its own it has %v", id, o1.states[id], o2.states[id])
				}
			}
		})

	reg("C07",
		"2-20 chunks of bytes: noise, start bytes with any length, frames with a wrong checksum, frames cut off, valid frames, several in a chunk, with pauses of 0-35 or 45-500 ms between them, and a valid report at the end; one case in six is a history of commands and requests instead, with noise in the reads of their results and answers. Non-trivial: some bytes of it are no part of a valid frame, and at least one valid frame is received before the last",
		func(t *rapid.T) c07 {
			var c c07
			if rapid.IntRange(0, 5).Draw(t, "requests") == 0 {
				conn := genNoisyConn(t)
				c.Conn = &conn
				return c
			}
			c.Poll = genPoll(t)
			n := rapid.IntRange(2, 20).Draw(t, "n")
			for i := 0; i < n; i++ {
				var d []byte
				switch rapid.IntRange(0, 9).Draw(t, "what") {
				case 0:
					d = genBytes(1, 12).Draw(t, "noise")
					if rapid.IntRange(0, 4).Draw(t, "much") == 3 { // without start bytes, which may hide what follows
						d = bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0xff, 0x80, 0x55}).Draw(t, "byte")}, rapid.IntRange(13, 1000).Draw(t, "much noise"))
					}
				case 1:
					d = rapid.SliceOfN(rapid.SampledFrom([]byte{sof, ack, nak, can, 0, 2, 3, 0xff}), 1, 8).Draw(t, "noise")
				case 2:
					d = genNodeFrame().Draw(t, "frame")
					d[rapid.IntRange(0, len(d)-1).Draw(t, "at")] ^= rapid.ByteMin(1).Draw(t, "xor")
				case 3, 4:
					d = genNodeFrame().Draw(t, "frame")
					d = d[:rapid.IntRange(1, len(d)).Draw(t, "cut")]
				case 5:
					d = append([]byte{sof, rapid.ByteRange(0, 40).Draw(t, "len")}, genBytes(0, 6).Draw(t, "rest")...)
				case 6:
					// A frame inside of a broken one
					in := genNodeFrame().Draw(t, "frame")
					if len(in) > 100 {
						in = in[:100]
					}
					d = append([]byte{sof, byte(len(in) + 1)}, in...)
					d = append(d, rapid.Byte().Draw(t, "checksum"))
				default:
					d = genNodeFrame().Draw(t, "frame")
				}
				c.Chunks = append(c.Chunks, c07chunk{d, rapid.SampledFrom([]int{0, 0, 1, 10, 35, 35, 45, 60, 500}).Draw(t, "pause")})
			}
			return c
		},
		func(c c07, r *R) {
			if c.Conn != nil {
				noisy := 0
				for _, reqs := range c.Conn.Callers {
					for _, q := range reqs {
						for _, b := range q.Behave {
							if len(b.Noise) > 0 {
								noisy++
							}
						}
					}
				}
				r.Nontrivial(noisy > 0)
				r.Label("noise around the results of requests")
				runConn(*c.Conn, r, "any")
				return
			}
			bubble(r, func() {
				s := newSim(r)
				s.polls(c.Poll)
				con, ev := s.withNodes(0, streamNodes)
				if con == nil {
					return
				}
				states := map[int]*refState{}
				for _, id := range streamNodes {
					states[id] = newRefState()
				}
				wait(100)
				var buf []byte
				last := s.now()
				valid, noise := 0, 0
				receive := func(d []byte) {
					if s.now()-last > 40*time.Millisecond {
						noise += len(buf)
						buf = nil
					}
					last = s.now()
					buf = append(buf, d...)
					for len(buf) > 0 {
						n := refLength(buf)
						if n > len(buf) {
							break
						}
						if n == -1 {
							buf = buf[1:]
							noise++
							continue
						}
						if n > 1 {
							valid++
							foldFrame(states, buf[:n], s.now())
						}
						buf = buf[n:]
					}
				}
				check := func(when string) {
					if r.Failed() {
						return
					}
					if got := s.ackCount(); got != valid {
						r.Failf("%s %d frames were received and %d ACK sent", when, valid, got)
					}
					for _, id := range streamNodes {
						b, f := nodeState(con.Nodes.Get(id))
						if d := states[id].differs(b, f, s.now()); d != "" {
							r.Failf("%s %s of node %d", when, d, id)
						}
					}
				}
				for i, ch := range c.Chunks {
					p := ch.Pause
					if p > 35 && p < 45 {
						p = 45
					}
					if p > 0 {
						wait(float64(p))
					}
					for d := ch.Data; len(d) > 0; {
						n := len(d)
						if n > 128 {
							n = 128 // What one read gives
						}
						s.feed(d[:n]...)
						receive(d[:n])
						d = d[n:]
					}
					wait(0.1)
					check(sprintf("after chunk %d", i))
				}
				r.Nontrivial(noise > 0 && valid > 0)
				r.LabelIf(noise > 0, "noise")
				r.LabelIf(c.Poll > 0, "reads without bytes")
				r.LabelIf(valid > 0, "valid frames")
				r.LabelIf(len(buf) > 0, "incomplete at the end")
				wait(3000)
				n := ev.get(3)
				level := byte(42)
				if _, now := nodeState(con.Nodes.Get(3)); now["level"] == 42 {
					level++
				}
				f := reportFrame(3, []byte{ccMultilevel, 3, level})
				s.feed(f...)
				receive(f)
				wait(10)
				check("in the end")
				if got := ev.get(3); got != n+1 {
					r.Failf("the last report made %d updates", got-n)
				}
			})
		})

	reg("C12",
		"1-40 reports of all kinds (known and unknown values, alarms, sensors of all types, other reports) of 4 nodes and an unknown one, 0-3000 ms apart, to nodes added by the program, discovered, or loaded from a file. Non-trivial: at least 3 reports change the state, of at least 2 nodes",
		func(t *rapid.T) c12 {
			c := c12{Mode: rapid.IntRange(0, 2).Draw(t, "mode"), IDs: genStreamIDs(t)}
			n := rapid.IntRange(1, 40).Draw(t, "n")
			if rapid.IntRange(0, 19).Draw(t, "monotonous") == 13 { // Many of one kind from one node
				id := rapid.SampledFrom([]byte{2, 3}).Draw(t, "node")
				first := genStatePayload().Draw(t, "report")
				if rapid.Bool().Draw(t, "alarms") {
					first = []byte{ccAlarm, 5, 1, 1, 0, 0xff, 1, 1}
				}
				sensors := rapid.IntRange(0, 2).Draw(t, "sensors") == 2 // of one kind after the other
				typ := rapid.Byte().Draw(t, "type")
				for i := rapid.IntRange(20, 300).Draw(t, "many"); i > 0; i-- {
					p := append(Hex(nil), first...)
					if sensors {
						typ++
						p = Hex{ccSensor, 5, typ, byte(i%4)<<3 | 0x42, byte(i), byte(i * 7)}
					}
					if rapid.Bool().Draw(t, "same") && len(p) > 2 {
						p[len(p)-1] = rapid.Byte().Draw(t, "last")
					}
					c.Steps = append(c.Steps, c12step{Node: id, Payload: p, Pause: rapid.SampledFrom([]int{50, 50, 300, 1200, 3000}).Draw(t, "pause")})
				}
				return c
			}
			if rapid.IntRange(0, 9).Draw(t, "hold") == 0 {
				h := &c12hold{Node: rapid.IntRange(0, 3).Draw(t, "held"), From: rapid.IntRange(0, n-1).Draw(t, "from")}
				h.To = rapid.IntRange(h.From, n-1).Draw(t, "to")
				if rapid.IntRange(0, 3).Draw(t, "flood") == 0 {
					h.Flood = rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(100, 600)).Draw(t, "reports")
				}
				c.Hold = h
			}
			for i := 0; i < n; i++ {
				st := c12step{
					Node:  rapid.SampledFrom([]byte{2, 2, 2, 3, 3, 4, 5, 6, 1}).Draw(t, "node"),
					Pause: rapid.SampledFrom([]int{0, 0, 0, 1, 50, 300, 700, 1200, 3000}).Draw(t, "pause"),
				}
				st.Payload = genStatePayload().Draw(t, "report")
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		func(c c12, r *R) {
			ids := streamNodes
			if len(c.IDs) == len(ids) {
				ids = c.IDs
			}
			bubble(r, func() {
				s := newSim(r)
				con, ev := s.withNodes(c.Mode, ids)
				if con == nil {
					return
				}
				r.Label("mode %d", c.Mode)
				states := map[int]*refState{}
				for _, id := range ids {
					states[id] = newRefState()
				}
				changed, who := 0, map[int]bool{}
				var held *nodes.Node
				check := func(when string) {
					if held != nil {
						return
					}
					for _, id := range ids {
						b, f := nodeState(con.Nodes.Get(id))
						if d := states[id].differs(b, f, s.now()); d != "" {
							r.Failf("%s %s of node %d", when, d, id)
						}
					}
				}
				burst := map[int]int{} // updates that have not been checked
				reports := 0           // in this burst
				before := ev.copy()
				for i, st := range c.Steps {
					f := reportFrame(streamID(ids)(st.Node), st.Payload)
					if c.Hold != nil && c.Hold.From == i && held == nil && c.Hold.Node < len(ids) {
						wait(0.5)
						check(sprintf("before report %d", i))
						held = con.Nodes.Get(ids[c.Hold.Node])
						held.RLock()
						r.Label("reports while a node is read")
					}
					if held != nil {
						if len(st.Payload) == 0 || st.Payload[0] != ccAlarm { // Those would begin later
							wait(float64(st.Pause))
							s.feed(f...)
							if id, update := foldFrame(states, f, s.now()); update {
								changed++
								who[id] = true
							}
						}
						if c.Hold.To <= i || i+1 == len(c.Steps) {
							for k := 0; k < c.Hold.Flood; k++ {
								f := reportFrame(byte(ids[(c.Hold.Node+k/50)%len(ids)]), []byte{ccMultilevel, 3, byte(k % 97)})
								s.feed(f...)
								if k%8 == 7 {
									wait(0.5)
								}
								id, _ := foldFrame(states, f, s.now())
								who[id] = true
							}
							wait(1)
							held.RUnlock()
							held = nil
							wait(1)
							check(sprintf("after the node %d was read until report %d", ids[c.Hold.Node], i))
							before, burst, reports = ev.copy(), map[int]int{}, 0
							if i+1 < len(c.Steps) && c.Steps[i+1].Pause == 0 {
								wait(100)
								before = ev.copy()
							}
						}
						if r.Failed() {
							return
						}
						continue
					}
					if st.Pause > 0 {
						check(sprintf("before report %d", i))
						wait(float64(st.Pause))
						check(sprintf("%d ms later, before report %d", st.Pause, i))
						before = ev.copy()
						burst = map[int]int{}
						reports = 0
					}
					reports++
					s.feed(f...)
					old := ""
					if st := states[int(f[5])]; st != nil {
						old = st.String()
					}
					id, update := foldFrame(states, f, s.now())
					if update {
						changed++
						who[id] = true
						if states[id].String() != old {
							burst[id]++
						}
					}
					if i+1 == len(c.Steps) || c.Steps[i+1].Pause > 0 {
						wait(0.5)
						check(sprintf("after report %d", i))
						for id, n := range burst {
							if c.Mode != 0 && reports+pendingAlarms(states, s.now()) > 8 {
								break // The queue holds ten events, the rest is lost when they come faster than they are taken
							}
							if got := ev.get(id) - before[id]; got < n {
								r.Failf("node %d changed %d times, but there were %d update events (up to report %d)", id, n, got, i)
							}
						}
						after := ev.copy()
						for _, id := range ids {
							if _, ok := burst[id]; !ok && after[id] != before[id] && !who[id] {
								r.Failf("there was an update event for node %d, which had no report yet (report %d)", id, i)
							}
						}
					}
					if r.Failed() {
						return
					}
				}
				r.Nontrivial(changed >= 3 && len(who) >= 2)
				// When alarms end, this is announced
				before = ev.copy()
				ending := map[int]bool{}
				many := pendingAlarms(states, s.now())
				for id, st := range states {
					if n := len(st.alarms); n > 0 && s.now() < st.alarms[n-1]+900*time.Millisecond {
						ending[id] = true
						r.Label("an alarm ends")
					}
				}
				wait(2000)
				check("in the end")
				for id := range ending {
					if c.Mode != 0 && many > 8 {
						break
					}
					if ev.get(id) == before[id] {
						r.Failf("the alarm of node %d ended without an update event", id)
					}
				}
			})
		})
}

// pendingAlarms is the number of alarms that have not ended yet, or just now.
func pendingAlarms(states map[int]*refState, now time.Duration) (n int) {
	for _, st := range states {
		for _, a := range st.alarms {
			if a > now-1100*time.Millisecond {
				n++
			}
		}
	}
	return
}

// String has the state apart from what time changes.
func (s *refState) String() string {
	known := map[string]float64{}
	for k, v := range s.F {
		if !s.any[k] {
			known[k] = v
		}
	}
	b, _ := json.Marshal(s.B)
	f, _ := json.Marshal(known)
	return string(b) + string(f)
}

type c07 struct {
	Chunks []c07chunk
	Conn   *connCase `json:",omitempty"` // instead: requests, with noise around their results and answers
	Poll   int       `json:",omitempty"` // reads return without bytes after so many ms
}

var genNoisyConn = genConn(connWeights{callers: 2, requests: 4, results: []byte{ack, ack, ack, ack, 0, nak, can}, answers: 2, maxTimeout: 2500, line: 3, noise: 6,
	kinds: []string{"cmd", "cmd", "report", "pi", "msg"}, delays: []int{1, 2, 5, 10, 30, 60, 200}})

type c07chunk struct {
	Data  Hex
	Pause int
}

type c12 struct {
	Mode  int
	IDs   []int    `json:",omitempty"` // of the nodes 2, 3, 4 and 5
	Hold  *c12hold `json:",omitempty"`
	Steps []c12step
}

// c12hold is someone who reads a node for a while
type c12hold struct {
	Node     int // index
	From, To int // steps
	Flood    int // reports before the last of them
}

type c12step struct {
	Node    byte
	Payload Hex
	Pause   int
}
