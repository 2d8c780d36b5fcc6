package props

import (
	"bytes"
	"encoding/json"
	"math"
	"strconv"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"pgregory.net/rapid"
)

// ---- C15

type c15 struct {
	Port  bool      `json:"port"` // through a connection, else to a fake writer
	Nodes []c15node `json:"nodes"`
	Calls []c15call `json:"calls"`
}

type c15node struct {
	ID        int    `json:"id"`
	How       string `json:"how"` // added, json, identified
	Classes   Hex    `json:"classes,omitempty"`
	Flags     byte   `json:"flags,omitempty"` // of the classes
	Endpoints []int  `json:"endpoints,omitempty"`
	Generic   byte   `json:"generic,omitempty"`
	Specific  byte   `json:"specific,omitempty"`
	IDs       Hex    `json:"ids,omitempty"`
	Count     byte   `json:"count,omitempty"`
}

// class is a command class: what else is known about it does not matter.
func (d c15node) class(id byte) *database.CommandClass {
	f := d.Flags ^ id
	x := &database.CommandClass{ID: commands.ZWaveCommand(id), InNIF: f&1 != 0, Secure: f&2 != 0, NonSecure: f&4 != 0}
	if f&8 != 0 {
		x.Version = "2"
	}
	return x
}

type c15call struct {
	Node     int     `json:"node"`
	Op       string  `json:"op"` // on, off, level, write, classes
	Wrapped  bool    `json:"wrapped"`
	Endpoint int     `json:"endpoint"`
	Level    float64 `json:"level,omitempty"`
	Data     Hex     `json:"data,omitempty"`
}

var _ = []gozwave.Controllable{(*nodes.Node)(nil), (*nodes.Endpoint)(nil)}

func genClasses(t *rapid.T) Hex {
	var l Hex
	if rapid.Bool().Draw(t, "bin") {
		l = append(l, ccSwitchBinary)
	}
	if rapid.Bool().Draw(t, "multi") {
		l = append(l, ccMultilevel)
	}
	if rapid.Bool().Draw(t, "swap") {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	for k := rapid.IntRange(0, 3).Draw(t, "more"); k > 0; k-- {
		c := rapid.SampledFrom([]byte{0x00, 0x20, 0x24, 0x27, 0x28, 0x29, 0x30, 0x31, 0x60, 0x72, 0x85, 0xA5, 0xA6}).Draw(t, "class")
		at := rapid.IntRange(0, len(l)).Draw(t, "at")
		l = append(l[:at], append(Hex{c}, l[at:]...)...)
	}
	return l
}

func genEndpointID(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 10, 100, 127, 128, -1, 255, 256, 257, math.MaxInt, math.MinInt}).Draw(t, "endpoint")
}

// isIn says if b has the byte.
func isIn(c byte, b []byte) bool { return bytes.IndexByte(b, c) >= 0 }

func init() {
	reg("C15", "1 to 4 nodes with generated command classes and endpoints (ids with gaps and in any order), added by the program, decoded from JSON or identified, and 1 to 30 calls of On, Off, Level and Write "+
		"on nodes and endpoints and of Endpoint with any integer, through a fake writer or a connection, with changes of the command classes in between; "+
		"non-trivial: at least one command that is sent, one that is not sent, and one for an endpoint",
		func(t *rapid.T) c15 {
			c := c15{Port: rapid.IntRange(0, 2).Draw(t, "port") == 0}
			n := rapid.IntRange(1, 4).Draw(t, "nodes")
			used := map[int]bool{}
			for i := 0; i < n; i++ {
				d := c15node{ID: rapid.IntRange(1, 232).Draw(t, "id"), How: rapid.SampledFrom([]string{"added", "json", "identified"}).Draw(t, "how")}
				if used[d.ID] {
					continue
				}
				used[d.ID] = true
				if d.How == "identified" {
					d.Generic, d.Specific = genPair(t)
					d.IDs = genIDs(t)
					d.Count = byte(rapid.SampledFrom([]int{0, 1, 2, 3, 9, 127}).Draw(t, "count"))
				} else {
					d.Classes = genClasses(t)
					d.Flags = rapid.Byte().Draw(t, "flags")
					d.Endpoints = rapid.SliceOfNDistinct(rapid.IntRange(1, 127), 0, 6, rapid.ID[int]).Draw(t, "endpoints")
					if rapid.Bool().Draw(t, "low") {
						d.Endpoints = rapid.SliceOfNDistinct(rapid.IntRange(1, 7), 0, 7, rapid.ID[int]).Draw(t, "lowendpoints")
					}
				}
				c.Nodes = append(c.Nodes, d)
			}
			k := rapid.IntRange(1, 30).Draw(t, "calls")
			for i := 0; i < k; i++ {
				q := c15call{Node: rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "node"), Op: rapid.SampledFrom([]string{"on", "off", "level", "level", "write", "classes"}).Draw(t, "op")}
				q.Wrapped = rapid.Bool().Draw(t, "wrapped")
				switch q.Op {
				case "level":
					q.Level = genLevel().Draw(t, "level")
					if math.IsInf(q.Level, 0) {
						q.Level = math.Copysign(1e308, q.Level)
					}
				case "write":
					q.Wrapped = true
					q.Data = genBytes(1, 20).Draw(t, "data")
					if rapid.IntRange(0, 9).Draw(t, "long") == 7 {
						q.Data = append(q.Data, genLong(150).Draw(t, "more")...)
					}
				case "classes":
					q.Wrapped = false
					q.Data = genClasses(t)
				}
				if q.Wrapped {
					q.Endpoint = genEndpointID(t)
					if d := c.Nodes[q.Node]; len(d.Endpoints) > 0 && rapid.IntRange(0, 3).Draw(t, "existing") > 0 {
						q.Endpoint = rapid.SampledFrom(d.Endpoints).Draw(t, "of")
					}
				}
				c.Calls = append(c.Calls, q)
			}
			return c
		},
		func(c c15, r *R) {
			sent, unsent, wrapped := 0, 0, 0
			bubble(r, func() {
				list := nodes.NewList()
				fake := &fakeWriter{}
				var s *sim
				var out interfaces.Writer = fake
				if c.Port {
					s = newSim(r)
					s.onCommand = func(w *write) {
						disc := w.isDiscovery()
						time.AfterFunc(time.Millisecond, func() {
							s.feed(ack)
							if disc {
								s.feed(discoveryFrame(make([]byte, 29))...)
							}
						})
					}
					con := s.connect("")
					if con == nil {
						return
					}
					wait(200)
					s.clear()
					out, list = con.Connection, con.Nodes
				}
				take := func() (l [][]byte) {
					if !c.Port {
						return fake.take()
					}
					wait(120)
					for _, w := range s.commands() {
						l = append(l, append([]byte(nil), w.body()...))
					}
					s.clear()
					return
				}
				classes := map[int][]byte{}
				endpoints := map[int]map[int]bool{}
				for _, d := range c.Nodes {
					eps := map[int]bool{}
					cls := []byte(d.Classes)
					switch d.How {
					case "added":
						n := nodes.New(d.ID)
						for _, cc := range d.Classes {
							n.CommandClasses = append(n.CommandClasses, d.class(cc))
						}
						for _, e := range d.Endpoints {
							n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: e})
							eps[e] = true
						}
						n.Setup(out, func(interface{}) {})
						list.Add(n)
					case "json":
						var cl, ep []interface{}
						for _, cc := range d.Classes {
							x := d.class(cc)
							cl = append(cl, map[string]interface{}{"ID": cc, "InNIF": x.InNIF, "Secure": x.Secure, "NonSecure": x.NonSecure, "Version": x.Version})
						}
						for _, e := range d.Endpoints {
							ep = append(ep, map[string]interface{}{"Id": e})
							eps[e] = true
						}
						b, _ := json.Marshal(map[string]interface{}{strconv.Itoa(d.ID): map[string]interface{}{"id": d.ID, "CommandClasses": cl, "Endpoints": ep}})
						l := nodes.NewList()
						if err := json.Unmarshal(b, l); err != nil {
							r.Failf("the node list %s is not loaded: %v", b, err)
							return
						}
						n := l.Get(d.ID)
						if n == nil {
							r.Failf("the node list %s does not have node %d", b, d.ID)
							return
						}
						n.Setup(out, func(interface{}) {})
						list.Add(n)
					case "identified":
						f := &netNode{ID: d.ID, Info: Hex{0x80, 0, 0, 4, d.Generic, d.Specific}, IDs: d.IDs}
						want, _ := f.classes(d.IDs)
						cls = nil
						for _, x := range want {
							cls = append(cls, x.id)
						}
						var n *nodes.Node
						done := make(chan struct{})
						go func() {
							defer close(done)
							n = identifiedAs(d.ID, f.Info, d.IDs, d.Count)
						}()
						select {
						case <-done:
						case <-time.After(time.Hour):
							return // C13
						}
						if len(want) > 0 {
							for i := 1; i <= int(d.Count); i++ {
								eps[i] = true
							}
						}
						n.Setup(out, func(interface{}) {})
						list.Add(n)
					}
					classes[d.ID], endpoints[d.ID] = cls, eps
				}
				for i, q := range c.Calls {
					id := c.Nodes[q.Node].ID
					n := list.Get(id)
					if n == nil {
						r.Failf("node %d is not in the list", id)
						return
					}
					what := sprintf("call %d, %s on node %d (command classes %x)", i, q.Op, id, classes[id])
					var on gozwave.Controllable = n
					var e *nodes.Endpoint
					if q.Op == "classes" {
						n.Lock()
						n.CommandClasses = nil
						for _, cc := range q.Data {
							n.CommandClasses = append(n.CommandClasses, c.Nodes[q.Node].class(cc))
						}
						n.Unlock()
						classes[id] = q.Data
						continue
					}
					if q.Wrapped {
						what = sprintf("call %d, %s on endpoint %d of node %d (endpoints %v, command classes %x)", i, q.Op, q.Endpoint, id, c.Nodes[q.Node].Endpoints, classes[id])
						e = n.Endpoint(q.Endpoint)
						if (e != nil) != endpoints[id][q.Endpoint] {
							r.Failf("%s: the endpoint exists: %v, should be %v", what, e != nil, endpoints[id][q.Endpoint])
							return
						}
						if list.Get(233).Endpoint(q.Endpoint) != nil {
							r.Failf("no node has an endpoint %d", q.Endpoint)
							return
						}
						if e == nil {
							r.Label("no such endpoint")
							continue
						}
						if e.Id != q.Endpoint {
							r.Failf("%s: it is endpoint %d", what, e.Id)
							return
						}
						on = e
					}
					bin, multi := isIn(ccSwitchBinary, classes[id]), isIn(ccMultilevel, classes[id])
					var want []byte
					done := make(chan struct{})
					var call func()
					switch q.Op {
					case "on", "off":
						v, l := byte(0), byte(0)
						if q.Op == "on" {
							v, l = 0xFF, 99
							call = on.On
						} else {
							call = on.Off
						}
						if bin {
							want = []byte{fnSendData, byte(id), 3, ccSwitchBinary, 1, v, 0x25}
						} else if multi {
							want = []byte{fnSendData, byte(id), 3, ccMultilevel, 1, l, 0x25}
						}
					case "level":
						call = func() { on.Level(q.Level) }
						if multi {
							want = []byte{fnSendData, byte(id), 3, ccMultilevel, 1, refLevel(q.Level), 0x25}
						}
						what += sprintf(" value %v", q.Level)
					case "write":
						cmd := commands.NewRaw(q.Data)
						cmd.SetNode(id)
						want = append([]byte{fnSendData, byte(id), byte(len(q.Data) + 1)}, q.Data...)
						call = func() { e.Write(cmd) }
					}
					if want != nil && q.Wrapped {
						want = append([]byte{want[0], want[1], want[2] + 4, ccMultiChannel, 0x0d, 1, byte(q.Endpoint)}, want[3:]...)
						wrapped++
					}
					go func() {
						defer close(done)
						call()
					}()
					select {
					case <-done:
					case <-time.After(10 * time.Second):
						r.Failf("%s: does not return", what)
						return
					}
					got := take()
					if want == nil {
						unsent++
						if len(got) != 0 {
							r.Failf("%s: sends %x, should send nothing", what, got)
							return
						}
						continue
					}
					sent++
					if len(got) != 1 || !bytes.Equal(got[0], want) {
						r.Failf("%s: sends %x, should send exactly %x", what, got, want)
						return
					}
				}
			})
			r.LabelIf(c.Port, "through a connection")
			for _, d := range c.Nodes {
				r.Label("node %s", d.How)
			}
			r.Evals(len(c.Calls) - 1)
			r.Nontrivial(sent > 0 && unsent > 0 && wrapped > 0)
		})
}
