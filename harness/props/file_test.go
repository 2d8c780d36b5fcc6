package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"pgregory.net/rapid"
)

// The configuration file: C16 (what is in it) and C17 (when and how it is written).

type fileClass struct {
	ID     byte   `json:"id"`
	NIF    bool   `json:"nif,omitempty"`
	Secure bool   `json:"secure,omitempty"`
	Non    bool   `json:"non,omitempty"`
	Ver    string `json:"ver,omitempty"`
}

type fileEndpoint struct {
	ID      int                `json:"id"`
	Classes []fileClass        `json:"classes,omitempty"`
	Bools   map[string]bool    `json:"bools,omitempty"`
	Floats  map[string]float64 `json:"floats,omitempty"`
}

// fileNode is a node as it is saved.
type fileNode struct {
	ID        int                `json:"id"`
	Awake     bool               `json:"awake,omitempty"`
	MS        []string           `json:"ms,omitempty"` // manufacturer, type, id
	Brand     string             `json:"brand,omitempty"`
	Product   string             `json:"product,omitempty"`
	Desc      string             `json:"desc,omitempty"`
	Classes   []fileClass        `json:"classes,omitempty"`
	Asked     bool               `json:"asked,omitempty"` // the endpoints are known, though there may be none
	Endpoints []fileEndpoint     `json:"endpoints,omitempty"`
	Bools     map[string]bool    `json:"bools,omitempty"`
	Floats    map[string]float64 `json:"floats,omitempty"`
}

func (f fileClass) real() *database.CommandClass {
	return &database.CommandClass{ID: commands.ZWaveCommand(f.ID), InNIF: f.NIF, Secure: f.Secure, NonSecure: f.Non, Version: f.Ver}
}

func realClasses(l []fileClass) (r []*database.CommandClass) {
	for _, c := range l {
		r = append(r, c.real())
	}
	return
}

// fill makes a node what f says.
func (f *fileNode) fill(n *nodes.Node) {
	n.Lock()
	defer n.Unlock()
	n.IsAwake = f.Awake
	if f.MS != nil {
		n.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: f.MS[0], Type: f.MS[1], ID: f.MS[2]}
	}
	n.Brand, n.Product, n.Description = f.Brand, f.Product, f.Desc
	n.CommandClasses = realClasses(f.Classes)
	if f.Asked {
		n.Endpoints = []*nodes.Endpoint{}
	}
	for _, e := range f.Endpoints {
		n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: e.ID, CommandClasses: realClasses(e.Classes), StateBool: e.Bools, StateFloat: e.Floats})
	}
	for k, v := range f.Bools {
		n.StateBool[k] = v
	}
	for k, v := range f.Floats {
		n.StateFloat[k] = v
	}
}

// tree is the node in the form it has in the file.
func (f *fileNode) tree() map[string]interface{} {
	classes := func(l []fileClass) interface{} {
		if l == nil {
			return nil
		}
		r := []interface{}{}
		for _, c := range l {
			r = append(r, map[string]interface{}{"ID": float64(c.ID), "InNIF": c.NIF, "Secure": c.Secure, "NonSecure": c.Non, "Version": c.Ver})
		}
		return r
	}
	bools := func(m map[string]bool) interface{} {
		r := map[string]interface{}{}
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	floats := func(m map[string]float64) interface{} {
		r := map[string]interface{}{}
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	t := map[string]interface{}{
		"id": float64(f.ID), "is_awake": f.Awake, "ManufacurerSpecific": nil, "Brand": f.Brand, "Product": f.Product, "Description": f.Desc,
		"CommandClasses": classes(f.Classes), "Endpoints": nil, "StateBool": bools(f.Bools), "StateFloat": floats(f.Floats),
	}
	if f.MS != nil {
		t["ManufacurerSpecific"] = map[string]interface{}{"manufacturer": f.MS[0], "type": f.MS[1], "id": f.MS[2]}
	}
	if f.Asked || len(f.Endpoints) > 0 {
		l := []interface{}{}
		for _, e := range f.Endpoints {
			l = append(l, map[string]interface{}{"Id": float64(e.ID), "CommandClasses": classes(e.Classes), "StateBool": bools(e.Bools), "StateFloat": floats(e.Floats)})
		}
		t["Endpoints"] = l
	}
	return t
}

// snapNode is what a saved node has to be after loading; empty and missing parts
// are the same.
func snapNode(n *nodes.Node) (f fileNode) {
	n.RLock()
	defer n.RUnlock()
	f = fileNode{ID: n.Id, Awake: n.IsAwake, Brand: n.Brand, Product: n.Product, Desc: n.Description, Classes: snapClasses(n.CommandClasses),
		Bools: copyBools(n.StateBool), Floats: copyFloats(n.StateFloat), Asked: n.Endpoints != nil}
	if m := n.ManufacurerSpecific; m != nil {
		f.MS = []string{m.Manufacturer, m.Type, m.ID}
	}
	for _, e := range n.Endpoints {
		f.Endpoints = append(f.Endpoints, fileEndpoint{e.Id, snapClasses(e.CommandClasses), copyBools(e.StateBool), copyFloats(e.StateFloat)})
	}
	return
}

func copyBools(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func copyFloats(m map[string]float64) map[string]float64 {
	r := map[string]float64{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func snapClasses(l []*database.CommandClass) (r []fileClass) {
	for _, c := range l {
		if c == nil {
			r = append(r, fileClass{Ver: "null"})
			continue
		}
		r = append(r, fileClass{byte(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version})
	}
	return
}

func snapAll(con *gozwave.Controller) map[int]fileNode {
	m := map[int]fileNode{}
	for id, n := range con.Nodes.All() {
		m[id] = snapNode(n)
	}
	return m
}

// snapsDiffer compares two sets of nodes.
func snapsDiffer(want, have map[int]fileNode) string {
	for id, w := range want {
		h, ok := have[id]
		if !ok {
			return sprintf("node %d is missing", id)
		}
		if !reflect.DeepEqual(w, h) {
			a, _ := json.Marshal(w)
			b, _ := json.Marshal(h)
			return sprintf("node %d is %s, should be %s", id, b, a)
		}
	}
	for id := range have {
		if _, ok := want[id]; !ok {
			return sprintf("there is a node %d that should not be there", id)
		}
	}
	return ""
}

// ---- generators

func genText() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 3).Draw(t, "text") {
		case 0:
			return rapid.SampledFrom([]string{"", "ACME", "Fibar Group", "on", "level", "temperature_°c", "alarm", "alarmLastType", "0086", "\"", "\\", "</script>", "\u2028\u2029", "\x00\x1f", "null", "é\u0301", "\U0001F600", "\ufffd"}).Draw(t, "sample")
		case 1:
			return sprintf("%04x", rapid.Uint16().Draw(t, "word"))
		case 2:
			if rapid.IntRange(0, 99).Draw(t, "long text") == 77 {
				return strings.Repeat("long ü ", rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(500, 20000)).Draw(t, "times"))
			}
		}
		return strings.ToValidUTF8(rapid.StringN(0, 12, -1).Draw(t, "string"), "?")
	})
}

func genFloat() *rapid.Generator[float64] {
	return rapid.Custom(func(t *rapid.T) float64 {
		switch rapid.IntRange(0, 3).Draw(t, "float") {
		case 0:
			return float64(rapid.IntRange(0, 100).Draw(t, "level"))
		case 1:
			return rapid.SampledFrom([]float64{0, -1, 0.1, 21.5, -327.68, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, -214748364.8}).Draw(t, "special")
		}
		f := rapid.Float64().Draw(t, "any")
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 1
		}
		return f
	})
}

func genFileClasses(t *rapid.T) (l []fileClass) {
	for k := rapid.IntRange(0, 4).Draw(t, "classes"); k > 0; k-- {
		c := fileClass{ID: rapid.SampledFrom([]byte{ccSwitchBinary, ccMultilevel, 0x20, 0x31, 0x60, 0x72, 0x85, 0, 255}).Draw(t, "class")}
		if rapid.Bool().Draw(t, "other") {
			c.ID = rapid.Byte().Draw(t, "anyclass")
		}
		c.NIF, c.Secure, c.Non = rapid.Bool().Draw(t, "nif"), rapid.Bool().Draw(t, "secure"), rapid.Bool().Draw(t, "non")
		c.Ver = rapid.SampledFrom([]string{"", "1", "2", "4", "x\"y", "ü"}).Draw(t, "version")
		l = append(l, c)
	}
	return
}

func genStates(t *rapid.T) (b map[string]bool, f map[string]float64) {
	for k := rapid.IntRange(0, 3).Draw(t, "bools"); k > 0; k-- {
		if b == nil {
			b = map[string]bool{}
		}
		b[genText().Draw(t, "key")] = rapid.Bool().Draw(t, "bool")
	}
	for k := rapid.IntRange(0, 3).Draw(t, "floats"); k > 0; k-- {
		if f == nil {
			f = map[string]float64{}
		}
		f[genText().Draw(t, "key")] = genFloat().Draw(t, "value")
	}
	return
}

func genFileNode(t *rapid.T, used map[int]bool) fileNode {
	f := fileNode{ID: rapid.IntRange(2, 232).Draw(t, "id"), Awake: rapid.Bool().Draw(t, "awake")}
	for used[f.ID] {
		f.ID = f.ID%232 + 1
	}
	used[f.ID] = true
	switch rapid.IntRange(0, 3).Draw(t, "ms") {
	case 0:
	case 1:
		f.MS = []string{genText().Draw(t, "m"), genText().Draw(t, "m"), genText().Draw(t, "m")}
	default:
		s := hex.EncodeToString(genIDs(t))
		f.MS = []string{s[:4], s[4:8], s[8:]}
	}
	f.Brand, f.Product, f.Desc = genText().Draw(t, "brand"), genText().Draw(t, "product"), genText().Draw(t, "desc")
	f.Classes = genFileClasses(t)
	f.Asked = rapid.Bool().Draw(t, "asked")
	for k := rapid.IntRange(0, 4).Draw(t, "endpoints"); k > 0; k-- {
		e := fileEndpoint{ID: rapid.IntRange(1, 6).Draw(t, "eid"), Classes: genFileClasses(t)}
		if rapid.IntRange(0, 3).Draw(t, "high") == 0 {
			e.ID = rapid.IntRange(7, 127).Draw(t, "ehigh")
		}
		for _, o := range f.Endpoints {
			if o.ID == e.ID {
				e.ID = 0
			}
		}
		if e.ID == 0 {
			continue
		}
		e.Bools, e.Floats = genStates(t)
		f.Endpoints = append(f.Endpoints, e)
	}
	f.Bools, f.Floats = genStates(t)
	return f
}

// jsonPaths lists the places in a tree, as functions that replace or delete it.
type jsonPlace struct {
	get func() interface{}
	set func(v interface{})
	del func()
}

func jsonPlaces(v interface{}, self jsonPlace, out *[]jsonPlace) {
	*out = append(*out, self)
	switch x := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			jsonPlaces(x[k], jsonPlace{func() interface{} { return x[k] }, func(v interface{}) { x[k] = v }, func() { delete(x, k) }}, out)
		}
	case []interface{}:
		for i := range x {
			jsonPlaces(x[i], jsonPlace{func() interface{} { return x[i] }, func(v interface{}) { x[i] = v }, func() { x[i] = nil }}, out)
		}
	}
}

func genJSON(depth int) *rapid.Generator[interface{}] {
	return rapid.Custom(func(t *rapid.T) interface{} {
		k := rapid.IntRange(0, 8).Draw(t, "kind")
		if depth == 0 && k > 5 {
			k -= 5
		}
		switch k {
		case 0, 1:
			return nil
		case 2:
			return rapid.Bool().Draw(t, "bool")
		case 3:
			return rapid.SampledFrom([]float64{0, 1, -1, 5, 232, 233, 255, 256, 65536, 1.5, 1e300, -9e18, 1 << 62}).Draw(t, "number")
		case 4:
			return genText().Draw(t, "text")
		case 5:
			return []interface{}{}
		case 6:
			l := []interface{}{}
			for k := rapid.IntRange(0, 3).Draw(t, "items"); k > 0; k-- {
				l = append(l, genJSON(depth-1).Draw(t, "item"))
			}
			return l
		}
		m := map[string]interface{}{}
		for k := rapid.IntRange(0, 4).Draw(t, "keys"); k > 0; k-- {
			key := rapid.SampledFrom([]string{"Nodes", "nodes", "id", "Id", "ID", "is_awake", "ManufacurerSpecific", "manufacturer", "type", "Brand", "CommandClasses", "Endpoints", "StateBool", "StateFloat", "Connection", "RWMutex", "5", "300", "", "x"}).Draw(t, "key")
			m[key] = genJSON(depth-1).Draw(t, "value")
		}
		return m
	})
}

// genFileContent is anything that can be in a file, mostly near what was saved.
func genFileContent(t *rapid.T) (content []byte, kind string) {
	used := map[int]bool{1: true}
	all := map[string]interface{}{}
	for k := rapid.IntRange(0, 5).Draw(t, "nodes"); k > 0; k-- {
		f := genFileNode(t, used)
		all[strconv.Itoa(f.ID)] = f.tree()
	}
	var tree interface{} = map[string]interface{}{"Nodes": all}
	kind = rapid.SampledFrom([]string{"tree", "tree", "tree", "tree", "bytes", "bytes", "cut", "json", "junk", "special", "valid"}).Draw(t, "kind")
	encode := func() []byte {
		b, err := json.MarshalIndent(tree, "", "\t")
		if err != nil {
			harnessBug(err)
		}
		return b
	}
	switch kind {
	case "tree":
		for k := rapid.IntRange(1, 5).Draw(t, "changes"); k > 0; k-- {
			var places []jsonPlace
			jsonPlaces(tree, jsonPlace{func() interface{} { return tree }, func(v interface{}) { tree = v }, func() { tree = nil }}, &places)
			p := places[rapid.IntRange(0, len(places)-1).Draw(t, "place")]
			switch rapid.IntRange(0, 5).Draw(t, "change") {
			case 0, 1:
				p.set(nil)
			case 2:
				p.del()
			case 3:
				p.set(genJSON(2).Draw(t, "new"))
			case 4: // a copy of another part
				q := places[rapid.IntRange(0, len(places)-1).Draw(t, "other")]
				b, _ := json.Marshal(q.get())
				var v interface{}
				json.Unmarshal(b, &v)
				p.set(v)
			case 5: // more members
				if m, ok := p.get().(map[string]interface{}); ok {
					m[rapid.SampledFrom([]string{"id", "x", "7", "ID", "Endpoints", "report", "node", "Nodes"}).Draw(t, "key")] = genJSON(2).Draw(t, "member")
				} else if l, ok := p.get().([]interface{}); ok {
					p.set(append(l, nil))
				}
			}
		}
		content = encode()
	case "bytes":
		content = encode()
		for k := rapid.IntRange(1, 4).Draw(t, "edits"); k > 0 && len(content) > 0; k-- {
			i := rapid.IntRange(0, len(content)-1).Draw(t, "at")
			switch rapid.IntRange(0, 3).Draw(t, "edit") {
			case 0:
				content[i] = rapid.Byte().Draw(t, "byte")
			case 1:
				content[i] = rapid.SampledFrom([]byte("{}[]\",:0-n\\\x00\xff")).Draw(t, "punct")
			case 2:
				n := rapid.IntRange(1, min(30, len(content)-i)).Draw(t, "n")
				content = append(content[:i:i], content[i+n:]...)
			case 3:
				content = append(content[:i:i], append([]byte(rapid.SampledFrom([]string{"null", "{", "}", "[", "]", ",", "\"", "1e999", "{}", "\x00"}).Draw(t, "insert")), content[i:]...)...)
			}
		}
	case "cut":
		content = encode()
		content = content[:rapid.IntRange(0, len(content)-1).Draw(t, "length")]
	case "json":
		tree = genJSON(4).Draw(t, "json")
		content = encode()
	case "junk":
		content = genLong(200).Draw(t, "junk")
	case "special":
		content = []byte(rapid.SampledFrom([]string{"", "null", "{}", "[]", "0", `""`, `{"Nodes":null}`, `{"Nodes":{}}`, `{"Nodes":{"5":null}}`, `{"Nodes":{"5":{}}}`, `{"Nodes":[]}`, `{"Nodes":[{"id":5}]}`, "\xef\xbb\xbf{}", " ", "\n\t{\"Nodes\":{}}\n",
			`{"Nodes":{"5":{"id":5}}}`, `{"Nodes":{"5":{"id":5,"CommandClasses":[null,null],"Endpoints":[null,null]}}}`, `{"Nodes":{"5":{"id":5,"Endpoints":[{"Id":1,"CommandClasses":[null]}]}}}`,
			`{"Nodes":{"5":{"id":5},"6":{"id":5}}}`, `{"Nodes":{"5":{"id":-1}}}`, `{"Nodes":{"5":{"id":0}}}`, `{"Nodes":{"5":{"id":5,"StateBool":null,"StateFloat":null}}}`, `{"Nodes":{"5":{"id":5}}}{"Nodes":null}`,
			`{"Nodes":{"5":{"id":5}}} trailing`, strings.Repeat("[", 20000), `{"Nodes":` + strings.Repeat(`{"5":`, 11000), `{"Nodes":{"5":{"id":5,"ManufacurerSpecific":{}}}}`, `{"Nodes":{"5":{"id":5,"Brand":null,"is_awake":null}}}`, `{"nodes":{"5":{"id":5}},"Connection":{"Connected":true}}`}).Draw(t, "special"))
	case "valid":
		content = encode()
	}
	return content, kind
}

// ---- C16

type c16 struct {
	Saved   []fileNode `json:"saved,omitempty"` // nodes that are saved
	Net     []c16net   `json:"net,omitempty"`   // or nodes that are discovered, and saved
	Content *Hex       `json:"content,omitempty"`
	Kind    string     `json:"kind"` // where it comes from: saved, learned, or the kind of content
	InNet   []int      `json:"innet,omitempty"`
	Value   int        `json:"value"` // to tell reports apart
}

type c16net struct {
	ID        int  `json:"id"`
	Info      Hex  `json:"info"`
	IDs       Hex  `json:"ids"`
	Endpoints byte `json:"endpoints"`
	Level     byte `json:"level"`
}

// refSwitch is the command that On or Off sends to a node with the classes.
func refSwitch(classes []fileClass, node int, on bool) []byte {
	for _, c := range classes {
		if c.ID == ccSwitchBinary {
			v := byte(0)
			if on {
				v = 0xFF
			}
			return []byte{fnSendData, byte(node), 3, ccSwitchBinary, 1, v, 0x25}
		}
	}
	for _, c := range classes {
		if c.ID == ccMultilevel {
			v := byte(0)
			if on {
				v = 99
			}
			return []byte{fnSendData, byte(node), 3, ccMultilevel, 1, v, 0x25}
		}
	}
	return nil
}

// refWrap is a command for an endpoint.
func refWrap(b []byte, endpoint int) []byte {
	return append([]byte{fnSendData, b[1], b[2] + 4, 0x60, 0x0D, 0x01, byte(endpoint)}, b[3:]...)
}

func bitmapOf(ids []int) []byte {
	b := make([]byte, 29)
	b[0] = 1
	for _, id := range ids {
		b[(id-1)/8] |= 1 << ((id - 1) % 8)
	}
	return b
}

// exercise uses every node of a controller that has been loaded: all of its parts
// have to work.
func exercise(r *R, s *sim, con *gozwave.Controller, ev *eventLog, value int) {
	var ids []int
	all := con.Nodes.All()
	for id := range all {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	sent := func() (l [][]byte) {
		wait(400)
		for _, w := range s.commands() {
			if k, _ := kindOf(w.body()); k == "other" {
				l = append(l, w.body())
			}
		}
		s.clear()
		return
	}
	sent()
	if len(ids) > 12 {
		ids = ids[:12]
	}
	for _, id := range ids {
		n := all[id]
		before := snapNode(n)
		usual := id >= 1 && id <= 232
		expect := func(what string, want []byte) {
			got := sent()
			if !usual {
				return
			}
			if want == nil && len(got) > 0 || want != nil && (len(got) != 1 || !bytes.Equal(got[0], want)) {
				r.Failf("%s on node %d (classes %v) of the configuration sent %x, should send %x", what, id, before.Classes, got, want)
			}
		}
		// It is switched
		n.On()
		expect("On", refSwitch(before.Classes, id, true))
		n.Off()
		expect("Off", refSwitch(before.Classes, id, false))
		n.Level(20)
		sent()
		for i, e := range before.Endpoints {
			if i >= 3 {
				break
			}
			x := n.Endpoint(e.ID)
			if x == nil {
				r.Failf("node %d has an endpoint %d, which is not found", id, e.ID)
				return
			}
			x.On()
			want := refSwitch(before.Classes, id, true)
			if want != nil {
				want = refWrap(want, e.ID)
			}
			if e.ID < 1 || e.ID > 127 {
				sent()
				continue
			}
			expect(sprintf("On of endpoint %d", e.ID), want)
		}
		// It receives reports
		if id < 0 || id > 255 {
			continue
		}
		m := len(ev.get())
		on := value%2 == 0
		b := byte(0)
		if on {
			b = 0xFF
		}
		s.feed(reportFrame(byte(id), []byte{ccSwitchBinary, 0x03, b})...)
		s.feed(reportFrame(byte(id), []byte{ccSensor, 0x05, 1, 0x01, byte(value)})...)
		s.feed(reportFrame(byte(id), []byte{ccAlarm, 0x05, 1, 2, 0, 0xFF, 7, 8})...)
		s.feed(reportFrame(byte(id), []byte{ccWakeUp, 0x07})...)
		wait(1500)
		if !usual {
			continue
		}
		n.RLock()
		key := "temperature_c"
		got, has := n.StateFloat[key]
		gotOn := n.StateBool["on"]
		known := len(n.StateFloat)
		n.RUnlock()
		want := float64(int8(byte(value)))
		if gotOn != on || has && got != want {
			r.Failf("node %d of the configuration has on %v and %s %v after reports of %v and %v", id, gotOn, key, got, on, want)
		}
		if !has {
			r.Failf("node %d of the configuration has no %q (%d values) after a report of it", id, key, known)
		}
		updates := 0
		for _, e := range ev.get()[m:] {
			if u, ok := e.ev.(events.NodeUpdated); ok && u.Address == id {
				updates++
			}
		}
		if updates < 2 {
			r.Failf("node %d of the configuration got 2 reports, and there were %d update events", id, updates)
		}
		if r.Failed() {
			return
		}
	}
}

func init() {
	reg("C16", "nodes with generated content (any text, numbers, classes, endpoints, states), added by the program or identified in a simulated network, saved, loaded and saved again; or a file with generated content: "+
		"a saved configuration with parts replaced, removed, null or of another type, damaged bytes, cut off, arbitrary JSON, arbitrary bytes; then every node is switched, gets reports and is saved; "+
		"non-trivial: at least one node with classes, endpoints or states, or content that is not a saved configuration",
		func(t *rapid.T) c16 {
			c := c16{Value: rapid.IntRange(1, 127).Draw(t, "value")}
			used := map[int]bool{1: true}
			switch rapid.IntRange(0, 4).Draw(t, "what") {
			case 0, 1:
				c.Kind = "saved"
				for k := rapid.IntRange(0, 5).Draw(t, "nodes"); k > 0; k-- {
					c.Saved = append(c.Saved, genFileNode(t, used))
				}
				if rapid.IntRange(0, 19).Draw(t, "large") == 17 {
					for k := rapid.IntRange(10, 200).Draw(t, "more nodes"); k > 0; k-- {
						c.Saved = append(c.Saved, genFileNode(t, used))
					}
				}
			case 2:
				c.Kind = "learned"
				for k := rapid.IntRange(1, 4).Draw(t, "nodes"); k > 0; k-- {
					n := c16net{ID: rapid.IntRange(2, 232).Draw(t, "id"), IDs: genIDs(t), Endpoints: byte(rapid.SampledFrom([]int{0, 1, 2, 5, 127}).Draw(t, "endpoints")), Level: rapid.Byte().Draw(t, "level")}
					if used[n.ID] {
						continue
					}
					used[n.ID] = true
					gen, spec := genPair(t)
					n.Info = Hex{rapid.Byte().Draw(t, "cap") | 0x80, rapid.Byte().Draw(t, "sec"), 0, 4, gen, spec}
					c.Net = append(c.Net, n)
				}
			default:
				b, kind := genFileContent(t)
				h := Hex(b)
				c.Content, c.Kind = &h, kind
			}
			for k := rapid.IntRange(0, 2).Draw(t, "innet"); k > 0; k-- {
				id := rapid.IntRange(2, 232).Draw(t, "netid")
				if len(c.Saved) > 0 && rapid.Bool().Draw(t, "known") {
					id = c.Saved[rapid.IntRange(0, len(c.Saved)-1).Draw(t, "which")].ID
				}
				c.InNet = append(c.InNet, id)
			}
			return c
		},
		func(c c16, r *R) {
			dir, err := os.MkdirTemp(scratch, "c16.")
			if err != nil {
				harnessBug(err)
			}
			defer os.RemoveAll(dir)
			file := filepath.Join(dir, "nodes.json")
			bubble(r, func() {
				known := map[int]fileNode{} // what is in the file
				exact := false
				connect := func(ids []int) (*sim, *gozwave.Controller) {
					s := newSim(r)
					s.onCommand = func(w *write) {
						disc := w.isDiscovery()
						time.AfterFunc(time.Millisecond, func() {
							s.feed(ack)
							if disc {
								s.feed(discoveryFrame(bitmapOf(ids))...)
							}
						})
					}
					con := s.connect(file)
					if con == nil && !r.Failed() {
						r.Failf("no connection")
					}
					return s, con
				}
				save := func(con *gozwave.Controller) bool {
					if err := con.SaveConfigurationToFile(); err != nil {
						r.Failf("saving the configuration failed: %v", err)
						return false
					}
					known, exact = snapAll(con), true
					return true
				}
				// What is loaded
				switch {
				case c.Content != nil:
					if err := os.WriteFile(file, *c.Content, 0666); err != nil {
						harnessBug(err)
					}
				case len(c.Net) > 0:
					nc := netCase{Self: true, Length: 60}
					for _, n := range c.Net {
						nc.Nodes = append(nc.Nodes, netNode{ID: n.ID, Info: n.Info, IDs: n.IDs, Endpoints: n.Endpoints})
					}
					s := newSim(r)
					w := &network{s: s, c: nc, nodes: map[int]*netState{}}
					for i := range nc.Nodes {
						d := &nc.Nodes[i]
						w.nodes[d.ID] = &netState{node: d, tries: map[string]int{}, st: map[byte]int{}}
					}
					s.onCommand = w.onCommand
					con := s.connect(file)
					if con == nil {
						return
					}
					s.events(con)
					time.Sleep(20 * time.Second)
					for _, n := range c.Net {
						s.feed(reportFrame(byte(n.ID), []byte{ccMultilevel, 0x03, n.Level})...)
					}
					wait(5000)
					if !save(con) {
						return
					}
					s.lose(io.EOF) // it is not needed any more
				default:
					_, con := connect(nil)
					if con == nil {
						return
					}
					wait(100)
					for i := range c.Saved {
						n := nodes.New(c.Saved[i].ID)
						c.Saved[i].fill(n)
						n.Setup(con.Connection, func(interface{}) {})
						con.Nodes.Add(n)
					}
					if !save(con) {
						return
					}
				}

				s, con := connect(c.InNet)
				if con == nil {
					return
				}
				ev := s.events(con)
				wait(20)
				loaded := snapAll(con)
				for _, id := range c.InNet {
					if _, ok := known[id]; !ok {
						delete(loaded, id)
					}
				}
				if exact {
					if d := snapsDiffer(known, loaded); d != "" {
						r.Failf("after loading, %s", d)
						return
					}
				}
				wait(1000)
				for _, id := range c.InNet {
					if con.Nodes.Get(id) == nil {
						r.Failf("node %d of the network is not there", id)
						return
					}
				}
				announced := map[int]bool{}
				for _, e := range ev.get() {
					if d, ok := e.ev.(events.NodeDiscoverd); ok {
						announced[d.Address] = true
					}
				}
				if len(loaded)+len(c.InNet) <= 8 {
					for id := range con.Nodes.All() {
						if !announced[id] {
							r.Failf("node %d was not announced with a discovery event", id)
							return
						}
					}
				}
				exercise(r, s, con, ev, c.Value)
				if r.Failed() {
					return
				}
				// Loading it another time says what it is
				if c.Content != nil {
					if err := os.WriteFile(file, *c.Content, 0666); err != nil {
						harnessBug(err)
					}
					err := con.LoadConfigurationFromFile()
					var v interface{}
					refErr := json.NewDecoder(bytes.NewReader(*c.Content)).Decode(&v)
					r.LabelIf(err != nil, "loading gives an error")
					r.LabelIf(err == nil, "loading gives no error")
					if err == nil && refErr != nil {
						r.Failf("the file is damaged (%v), and loading it gave no error", refErr)
						return
					}
					if err == nil {
						for _, id := range wellFormedIDs(v) {
							if con.Nodes.Get(id) == nil {
								r.Failf("loading gave no error, but there is no node %d", id)
								return
							}
						}
					}
					wait(100)
				}
				// Save, and load again
				if !save(con) {
					return
				}
				_, con = connect(nil)
				if con == nil {
					return
				}
				if d := snapsDiffer(known, snapAll(con)); d != "" {
					r.Failf("after saving and loading again, %s", d)
				}
			})
			r.Label("%s", c.Kind)
			rich := false
			for _, n := range c.Saved {
				if len(n.Classes) > 0 || len(n.Endpoints) > 0 || len(n.Bools) > 0 {
					rich = true
				}
			}
			r.LabelIf(len(c.InNet) > 0, "with nodes in the network")
			r.Nontrivial(rich || len(c.Net) > 0 || c.Content != nil && c.Kind != "valid")
		})
}

// wellFormedIDs lists the nodes of a decoded configuration.
func wellFormedIDs(v interface{}) (ids []int) {
	top, _ := v.(map[string]interface{})
	all, _ := top["Nodes"].(map[string]interface{})
	for _, n := range all {
		m, _ := n.(map[string]interface{})
		for k := range m {
			if k != "id" && strings.EqualFold(k, "id") {
				m = nil
				break
			}
		}
		if f, ok := m["id"].(float64); ok && f == math.Trunc(f) && math.Abs(f) < 1<<31 {
			ids = append(ids, int(f))
		}
	}
	return
}
