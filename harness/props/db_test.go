package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
	"pgregory.net/rapid"
)

// The reference of the device database: the JSON files it is made from, and the
// text with the mandatory command classes.

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type refClass struct {
	id                     byte
	nif, secure, nonSecure bool
	version                string
}

func (c refClass) String() string {
	return sprintf("%02x(nif %v, secure %v, nonsecure %v, version %q)", c.id, c.nif, c.secure, c.nonSecure, c.version)
}

type refValue struct {
	from, to int64
	desc     string
}

type refParam struct {
	id     int
	name   string
	size   int
	values []refValue
}

type refDevice struct {
	file                     string
	brand, product, desc     string
	manufacturer, typ, idStr string
	classes                  []refClass
	params                   []refParam
}

type jsonDevice struct {
	Label        string   `json:"label"`
	Name         string   `json:"manufacturer_name"`
	Manufacturer string   `json:"manufacturer_id"`
	Refs         []string `json:"device_ref"`
	Description  string   `json:"decription"`
	Endpoints    []struct {
		Classes []struct {
			ID        string `json:"id"`
			Version   string `json:"version"`
			Nif       bool   `json:"nif"`
			Secure    bool   `json:"secure"`
			NonSecure bool   `json:"nonsecure"`
		} `json:"commandclasses"`
	} `json:"endpoints"`
	Parameters []struct {
		ID      int    `json:"id"`
		Label   string `json:"label"`
		Size    int    `json:"size"`
		Min     int64  `json:"value_min"`
		Max     int64  `json:"value_max"`
		Options []struct {
			Value int64  `json:"value"`
			Label string `json:"label"`
		} `json:"options"`
	} `json:"parameters"`
}

// refDatabase reads a directory of device files: the devices by
// manufacturer_type_id in lower case.
func refDatabase(dir string) (map[string]*refDevice, error) {
	files, err := filepath.Glob(filepath.Join(dir, "*.json"))
	if err != nil || len(files) == 0 {
		return nil, fmt.Errorf("no device files in %s: %v", dir, err)
	}
	sort.Slice(files, func(i, j int) bool { return filepath.Base(files[i]) < filepath.Base(files[j]) })
	db := map[string]*refDevice{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var d jsonDevice
		if err := json.Unmarshal(b, &d); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for _, ref := range d.Refs {
			typ, id, _ := strings.Cut(ref, ":")
			r := &refDevice{file: filepath.Base(f), brand: d.Name, product: d.Label, desc: d.Description,
				manufacturer: d.Manufacturer, typ: typ, idStr: id}
			if len(d.Endpoints) > 0 {
				for _, c := range d.Endpoints[0].Classes {
					x := refClass{nif: c.Nif, secure: c.Secure, nonSecure: c.NonSecure, version: c.Version}
					if c.ID != "" {
						v, err := strconv.ParseUint(c.ID, 16, 8)
						if err != nil {
							return nil, fmt.Errorf("%s: %v", f, err)
						}
						x.id = byte(v)
					}
					r.classes = append(r.classes, x)
				}
			}
			for _, p := range d.Parameters {
				x := refParam{id: p.ID, name: p.Label, size: p.Size}
				for _, o := range p.Options {
					x.values = append(x.values, refValue{o.Value, o.Value, o.Label})
				}
				if len(p.Options) == 0 {
					x.values = []refValue{{p.Min, p.Max, ""}}
				}
				r.params = append(r.params, x)
			}
			key := strings.ToLower(d.Manufacturer + "_" + typ + "_" + id)
			if db[key] == nil {
				db[key] = r
			}
		}
	}
	return db, nil
}

// dbOnce is the database of the repository, and its keys in order.
var dbOnce = sync.OnceValues(func() (map[string]*refDevice, []string) {
	db, err := refDatabase(filepath.Join(repoDir(), "database", "json"))
	if err != nil {
		harnessBug(err)
	}
	var keys []string
	for k := range db {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return db, keys
})

func classDiffers(c *database.CommandClass, want refClass) string {
	if c == nil {
		return "is nil, should be " + want.String()
	}
	have := refClass{byte(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version}
	if have != want {
		return sprintf("is %v, should be %v", have, want)
	}
	return ""
}

// differs compares a device of the library with the file it is listed in.
func (d *refDevice) differs(g *database.Device) string {
	if g == nil {
		return "it is not found"
	}
	for _, x := range [][3]string{{"brand", g.Brand, d.brand}, {"product", g.Product, d.product}, {"description", g.Description, d.desc},
		{"manufacturer id", strings.ToLower(g.ManufacturerID), strings.ToLower(d.manufacturer)},
		{"product type", strings.ToLower(g.ProductType), strings.ToLower(d.typ)},
		{"product id", strings.ToLower(g.ProductID), strings.ToLower(d.idStr)}} {
		if x[1] != x[2] {
			return sprintf("its %s is %q, should be %q", x[0], x[1], x[2])
		}
	}
	if len(g.CommandClasses) != len(d.classes) {
		return sprintf("it has %d command classes, should have %d", len(g.CommandClasses), len(d.classes))
	}
	for i, c := range d.classes {
		if s := classDiffers(g.CommandClasses[i], c); s != "" {
			return sprintf("command class %d %s", i, s)
		}
	}
	if len(g.Parameters) != len(d.params) {
		return sprintf("it has %d parameters, should have %d", len(g.Parameters), len(d.params))
	}
	for i, p := range d.params {
		q := g.Parameters[i]
		if q == nil || q.Name != p.name || q.Size != p.size || (p.id >= 0 && q.ID != p.id) {
			return sprintf("parameter %d is %+v, should have id %d, name %q, size %d", i, q, p.id, p.name, p.size)
		}
		if len(q.Values) != len(p.values) {
			return sprintf("parameter %d has %d values, should have %d", i, len(q.Values), len(p.values))
		}
		for j, v := range p.values {
			if w := q.Values[j]; w.From != v.from || w.To != v.to || w.Desc != v.desc {
				return sprintf("value %d of parameter %d is %+v, should be %+v", j, i, w, v)
			}
		}
	}
	return ""
}

// spoil changes everything of a device.
func spoil(g *database.Device) {
	g.Brand, g.Product, g.Description, g.ManufacturerID, g.ProductType, g.ProductID = "x", "x", "x", "x", "x", "x"
	for _, c := range g.CommandClasses {
		if c != nil {
			*c = database.CommandClass{ID: 0xEE, Version: "99"}
		}
	}
	for _, p := range g.Parameters {
		if p != nil {
			p.ID, p.Name = -7, "spoiled"
			for i := range p.Values {
				p.Values[i].Desc = "spoiled"
			}
		}
	}
	g.CommandClasses, g.Parameters = nil, nil
}

// ---- C19

type c19 struct {
	Sweep   bool        `json:"sweep"`
	Threads int         `json:"threads"`
	Lookups [][3]string `json:"lookups"`
}

func hasUpper(s string) bool { return strings.ToLower(s) != s }

func init() {
	reg("C19", "a batch of lookups: listed ids, listed ids with one part changed, swapped, cut, extended or in upper case, arbitrary strings; some batches look up every listed id, "+
		"some from several goroutines; non-trivial: at least one listed id and one near miss, or the sweep over all ids",
		func(t *rapid.T) c19 {
			_, keys := dbOnce()
			c := c19{Sweep: rapid.IntRange(0, 99).Draw(t, "sweep") == 42, Threads: rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "threads")}
			n := rapid.IntRange(4, 24).Draw(t, "n")
			for i := 0; i < n; i++ {
				var q [3]string
				copy(q[:], strings.SplitN(keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")], "_", 3))
				switch rapid.IntRange(0, 9).Draw(t, "kind") {
				case 0: // a part of another device
					o := strings.SplitN(keys[rapid.IntRange(0, len(keys)-1).Draw(t, "other")], "_", 3)
					p := rapid.IntRange(0, 2).Draw(t, "part")
					q[p] = o[p]
				case 1: // one digit changed
					p := rapid.IntRange(0, 2).Draw(t, "part")
					if len(q[p]) > 0 {
						i := rapid.IntRange(0, len(q[p])-1).Draw(t, "digit")
						q[p] = q[p][:i] + rapid.SampledFrom(strings.Split("0123456789abcdef", "")).Draw(t, "d") + q[p][i+1:]
					}
				case 2: // swapped
					a, b := rapid.IntRange(0, 2).Draw(t, "a"), rapid.IntRange(0, 2).Draw(t, "b")
					q[a], q[b] = q[b], q[a]
				case 3: // cut or extended
					p := rapid.IntRange(0, 2).Draw(t, "part")
					switch rapid.IntRange(0, 3).Draw(t, "how") {
					case 0:
						q[p] = strings.TrimLeft(q[p], "0")
					case 1:
						q[p] = q[p] + "0"
					case 2:
						q[p] = " " + q[p]
					case 3:
						q[p] = ""
					}
				case 4:
					p := rapid.IntRange(0, 2).Draw(t, "part")
					q[p] = strings.ToUpper(q[p])
				case 5: // arbitrary
					q = [3]string{rapid.String().Draw(t, "m"), rapid.StringMatching(`[0-9a-f]{0,4}`).Draw(t, "t"), rapid.StringMatching(`[0-9a-f_]{0,9}`).Draw(t, "p")}
				}
				c.Lookups = append(c.Lookups, q)
			}
			return c
		},
		func(c c19, r *R) {
			db, keys := dbOnce()
			list := append([][3]string(nil), c.Lookups...)
			if c.Sweep {
				for _, k := range keys {
					var q [3]string
					copy(q[:], strings.SplitN(k, "_", 3))
					list = append(list, q)
				}
				r.Label("all ids")
			}
			hits, misses := 0, 0
			var mu sync.Mutex
			try := func(q [3]string) {
				defer func() {
					if e := recover(); e != nil {
						r.Failf("looking up %q panics: %v", q, e)
					}
				}()
				want := db[q[0]+"_"+q[1]+"_"+q[2]]
				if strings.Contains(q[0]+q[1]+q[2], "_") {
					want = nil
				}
				a := database.New(q[0], q[1], q[2])
				if want == nil {
					if a != nil {
						r.Failf("looking up %q gives a device (%s %s), but it is not listed", q, a.Brand, a.Product)
					}
					mu.Lock()
					misses++
					mu.Unlock()
					return
				}
				if s := want.differs(a); s != "" {
					r.Failf("looking up %q (%s): %s", q, want.file, s)
					return
				}
				b := database.New(q[0], q[1], q[2])
				spoil(a)
				if s := want.differs(b); s != "" {
					r.Failf("looking up %q again and changing the first device: %s", q, s)
					return
				}
				if s := want.differs(database.New(q[0], q[1], q[2])); s != "" {
					r.Failf("looking up %q after changing a device: %s", q, s)
				}
				mu.Lock()
				hits++
				mu.Unlock()
			}
			if c.Threads <= 1 {
				for _, q := range list {
					try(q)
				}
			} else {
				var wg sync.WaitGroup
				for k := 0; k < c.Threads; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := range list {
							try(list[(i+k*3)%len(list)])
						}
					}()
				}
				wg.Wait()
				r.Label("concurrent")
			}
			r.Evals(len(list) - 1)
			r.Nontrivial(c.Sweep || hits > 0 && misses > 0)
		})
}

// ---- mandatory command classes

var deviceTypes = map[string]byte{
	"GENERIC_TYPE_AV_CONTROL_POINT": 0x03, "GENERIC_TYPE_DISPLAY": 0x04, "GENERIC_TYPE_ENTRY_CONTROL": 0x40,
	"GENERIC_TYPE_GENERIC_CONTROLLER": 0x01, "GENERIC_TYPE_METER": 0x31, "GENERIC_TYPE_REPEATER_SLAVE": 0x0F,
	"GENERIC_TYPE_SENSOR_MULTILEVEL": 0x21, "GENERIC_TYPE_SENSOR_NOTIFICATION": 0x07, "GENERIC_TYPE_STATIC_CONTROLLER": 0x02,
	"GENERIC_TYPE_SWITCH_BINARY": 0x10, "GENERIC_TYPE_SWITCH_MULTILEVEL": 0x11, "GENERIC_TYPE_THERMOSTAT": 0x08,
	"GENERIC_TYPE_WALL_CONTROLLER": 0x18,

	"SPECIFIC_TYPE_BASIC_WALL_CONTROLLER": 0x01, "SPECIFIC_TYPE_CLASS_A_MOTOR_CONTROL": 0x05, "SPECIFIC_TYPE_CLASS_B_MOTOR_CONTROL": 0x06,
	"SPECIFIC_TYPE_CLASS_C_MOTOR_CONTROL": 0x07, "SPECIFIC_TYPE_FAN_SWITCH": 0x08, "SPECIFIC_TYPE_GATEWAY": 0x07,
	"SPECIFIC_TYPE_IRRIGATION_CONTROLLER": 0x07, "SPECIFIC_TYPE_NOTIFICATION_SENSOR": 0x01, "SPECIFIC_TYPE_PC_CONTROLLER": 0x01,
	"SPECIFIC_TYPE_PORTABLE_REMOTE_CONTROLLER": 0x01, "SPECIFIC_TYPE_POWER_STRIP": 0x04, "SPECIFIC_TYPE_POWER_SWITCH_BINARY": 0x01,
	"SPECIFIC_TYPE_POWER_SWITCH_MULTILEVEL": 0x01, "SPECIFIC_TYPE_REMOTE_CONTROL_AV": 0x04, "SPECIFIC_TYPE_REMOTE_CONTROL_SIMPLE": 0x06,
	"SPECIFIC_TYPE_REPEATER_SLAVE": 0x01, "SPECIFIC_TYPE_ROUTING_MULTILEVEL_SENSOR": 0x01, "SPECIFIC_TYPE_SECURE_BARRIER_ADDON": 0x07,
	"SPECIFIC_TYPE_SECURE_BARRIER_CLOSE_ONLY": 0x09, "SPECIFIC_TYPE_SECURE_BARRIER_OPEN_ONLY": 0x08, "SPECIFIC_TYPE_SECURE_DOOR": 0x05,
	"SPECIFIC_TYPE_SECURE_GATE": 0x06, "SPECIFIC_TYPE_SECURE_KEYPAD": 0x0B, "SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK": 0x03,
	"SPECIFIC_TYPE_SECURE_LOCKBOX": 0x0A, "SPECIFIC_TYPE_SETBACK_THERMOSTAT": 0x05, "SPECIFIC_TYPE_SET_TOP_BOX": 0x04,
	"SPECIFIC_TYPE_SIMPLE_DISPLAY": 0x01, "SPECIFIC_TYPE_SIMPLE_METER": 0x01, "SPECIFIC_TYPE_SIREN": 0x05,
	"SPECIFIC_TYPE_SUB_SYSTEM_CONTROLLER": 0x05, "SPECIFIC_TYPE_THERMOSTAT_GENERAL_V2": 0x06, "SPECIFIC_TYPE_TV": 0x06,
	"SPECIFIC_TYPE_VALVE_OPEN_CLOSE": 0x06, "SPECIFIC_TYPE_WHOLE_HOME_METER_SIMPLE": 0x03,
}

// classNames are the command classes the library knows by the names in the
// text, without what follows in parentheses or after a dash.
var classNames = map[string]byte{
	"Application Status": 0x22, "Association Group Information": 0x59, "Association": 0x85, "Basic": 0x20,
	"Binary Switch": 0x25, "Central Scene": 0x5B, "CRC16": 0x56, "Device Reset Locally": 0x5A,
	"Manufacturer Specific": 0x72, "Meter": 0x32, "Multichannel Association": 0x8E, "Multi Channel": 0x60,
	"Multilevel Sensor": 0x31, "Multilevel Switch": 0x26, "Notification": 0x71, "Power Level": 0x73,
	"Security": 0x98, "Version": 0x86, "Z-Wave Plus Info": 0x5E,
}

func classByName(line string) byte {
	s := strings.ReplaceAll(line, "–", " - ")
	if i := strings.Index(s, "("); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, " - "); i >= 0 {
		s = s[:i]
	}
	return classNames[strings.TrimSpace(s)]
}

type classPair struct{ g, s byte }

// refMandatory reads the text: blocks of device classes ("# name - generic -
// specific") and their command classes ("- name").
func refMandatory(text string) map[classPair][]byte {
	out := map[classPair][]byte{}
	var defs []classPair
	list := []byte{}
	end := func() {
		for _, d := range defs {
			out[d] = list
		}
		defs, list = nil, []byte{}
	}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
			end()
		case strings.HasPrefix(l, "#"):
			p := strings.Split(l, "-")
			g, s := strings.TrimSpace(p[len(p)-2]), strings.TrimSpace(p[len(p)-1])
			if s == "SPECIFIC_TYPE_NOT_USED" {
				continue // such device classes are left out
			}
			gv, ok1 := deviceTypes[g]
			sv, ok2 := deviceTypes[s]
			if !ok1 || !ok2 {
				harnessBug(fmt.Errorf("unknown device class %s %s", g, s))
			}
			defs = append(defs, classPair{gv, sv})
		case strings.HasPrefix(l, "- "):
			if c := classByName(l[2:]); c != 0 {
				list = append(list, c)
			}
		}
	}
	end()
	return out
}

var mandatoryOnce = sync.OnceValue(func() map[classPair][]byte {
	b, err := os.ReadFile(filepath.Join(repoDir(), "database", "mandatory.txt"))
	if err != nil {
		harnessBug(err)
	}
	return refMandatory(string(b))
})

// mandatoryPairs are the pairs in the text, in order.
var mandatoryPairs = sync.OnceValue(func() []classPair {
	var l []classPair
	for p := range mandatoryOnce() {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return int(l[i].g)<<8+int(l[i].s) < int(l[j].g)<<8+int(l[j].s) })
	return l
})

func idsDiffer(have []*database.CommandClass, want []byte) string {
	var h []byte
	for _, c := range have {
		if c == nil {
			return "there is a nil command class"
		}
		h = append(h, byte(c.ID))
		if *c != (database.CommandClass{ID: c.ID}) {
			return sprintf("command class %02x has flags or a version: %+v", byte(c.ID), *c)
		}
	}
	if string(h) != string(want) {
		return sprintf("%x, should be %x", h, want)
	}
	return ""
}

// ---- a fake connection

// fakeWriter answers like a connection, at once.
type fakeWriter struct {
	mu     sync.Mutex
	bodies [][]byte
	answer func(body []byte, match byte) interface{}
}

func (f *fakeWriter) add(m interfaces.Encodable) []byte {
	b := append([]byte(nil), m.Encode()...)
	f.mu.Lock()
	defer f.mu.Unlock()
	f.bodies = append(f.bodies, b)
	return b
}

func (f *fakeWriter) take() [][]byte {
	f.mu.Lock()
	defer f.mu.Unlock()
	b := f.bodies
	f.bodies = nil
	return b
}

func (f *fakeWriter) Write(m interfaces.Encodable) error {
	f.add(m)
	return nil
}

func (f *fakeWriter) WriteWithTimeout(m interfaces.Encodable, d time.Duration) (<-chan *serialapi.Message, error) {
	ch := make(chan *serialapi.Message, 1)
	if f.answer != nil {
		if a, ok := f.answer(f.add(m), 0).(*serialapi.Message); ok {
			ch <- a
		}
	}
	close(ch)
	return ch, nil
}

func (f *fakeWriter) WriteAndWaitForReport(m interfaces.Encodable, d time.Duration, match byte) (<-chan reports.Report, error) {
	ch := make(chan reports.Report, 1)
	if f.answer != nil {
		if a, ok := f.answer(f.add(m), match).(reports.Report); ok {
			ch <- a
		}
	}
	close(ch)
	return ch, nil
}

// identified runs the identification of a node that answers everything.
func identified(info, ids []byte, endpoints byte) *nodes.Node {
	return identifiedAs(5, info, ids, endpoints)
}

func identifiedAs(id int, info, ids []byte, endpoints byte) *nodes.Node {
	n := nodes.New(id)
	f := &fakeWriter{}
	f.answer = func(body []byte, match byte) interface{} {
		if body[0] == fnProtocolInfo {
			_, m, _ := serialapi.Decode(protocolInfoFrame(info))
			return m
		}
		var rep reports.Report
		switch match {
		case 0x05:
			rep, _ = reports.New(commands.ZWaveCommand(ccManufacturer), 0x05, ids)
		case 0x08:
			rep, _ = reports.New(commands.ZWaveCommand(ccMultiChannel), 0x08, []byte{0, endpoints})
		}
		if rep == nil {
			return nil
		}
		return rep
	}
	n.Setup(f, func(interface{}) {})
	n.Identify()
	return n
}

// ---- C20

type c20 struct {
	Sweep bool    `json:"sweep"`
	Ops   []c20op `json:"ops"`
}

type c20op struct {
	Generic   byte `json:"generic"`
	Specific  byte `json:"specific"`
	Identify  bool `json:"identify"`
	IDs       Hex  `json:"ids,omitempty"`
	Endpoints byte `json:"endpoints,omitempty"`
	Twice     bool `json:"twice,omitempty"`
}

func genPair(t *rapid.T) (byte, byte) {
	all := mandatoryPairs()
	p := all[rapid.IntRange(0, len(all)-1).Draw(t, "pair")]
	switch rapid.IntRange(0, 9).Draw(t, "pairkind") {
	case 0:
		return p.g, rapid.Byte().Draw(t, "specific")
	case 1:
		return rapid.Byte().Draw(t, "generic"), p.s
	case 2:
		return p.s, p.g
	case 3:
		return rapid.Byte().Draw(t, "generic"), rapid.Byte().Draw(t, "specific")
	}
	return p.g, p.s
}

// genIDs draws manufacturer, type and product id.
func genIDs(t *rapid.T) Hex {
	_, keys := dbOnce()
	if rapid.IntRange(0, 4).Draw(t, "known") == 0 {
		return genBytes(6, 6).Draw(t, "ids")
	}
	k := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "device")]
	b, err := unhex(strings.ReplaceAll(k, "_", ""))
	if err != nil || len(b) != 6 {
		return Hex{0, 1, 2, 3, 4, 5}
	}
	return b
}

func unhex(s string) (h Hex, err error) {
	err = h.UnmarshalText([]byte(s))
	return
}

func init() {
	reg("C20", "a history of lookups of pairs (listed, with one half changed, swapped, arbitrary) and of identifications of nodes of such classes; some cases go through all 65536 pairs; "+
		"every earlier result is compared with the text after every step; non-trivial: a listed pair is looked up and an identification follows, or all pairs",
		func(t *rapid.T) c20 {
			c := c20{Sweep: rapid.IntRange(0, 199).Draw(t, "sweep") == 142}
			n := rapid.IntRange(1, 12).Draw(t, "n")
			for i := 0; i < n; i++ {
				var o c20op
				o.Generic, o.Specific = genPair(t)
				if i > 0 && rapid.Bool().Draw(t, "same") {
					k := rapid.IntRange(0, i-1).Draw(t, "as")
					o.Generic, o.Specific = c.Ops[k].Generic, c.Ops[k].Specific
				}
				o.Identify = rapid.Bool().Draw(t, "identify")
				if o.Identify {
					o.IDs = genIDs(t)
					o.Endpoints = byte(rapid.IntRange(0, 5).Draw(t, "endpoints"))
					o.Twice = rapid.Bool().Draw(t, "twice")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		func(c c20, r *R) {
			ref := mandatoryOnce()
			var held [][]*database.CommandClass
			var want [][]byte
			var what []string
			looked, after := false, false
			// The identification may wait: it runs on a virtual clock
			bubble(r, func() {
				for i, o := range c.Ops {
					p := classPair{o.Generic, o.Specific}
					if o.Identify {
						rounds := 1
						if o.Twice {
							rounds = 2
						}
						for k := 0; k < rounds; k++ {
							done := make(chan struct{})
							go func() {
								defer close(done)
								identified([]byte{0x80, 0, 0, 4, o.Generic, o.Specific}, o.IDs, o.Endpoints)
							}()
							select {
							case <-done:
							case <-time.After(time.Hour): // C13 has an opinion about it
							}
						}
						after = after || looked
					}
					got := database.GetMandatoryCommandClasses(o.Generic, o.Specific)
					held, want = append(held, got), append(want, ref[p])
					what = append(what, sprintf("%02x/%02x", p.g, p.s))
					looked = looked || ref[p] != nil
					for k := range held {
						if s := idsDiffer(held[k], want[k]); s != "" {
							if k == i {
								r.Failf("the mandatory command classes of %s are %s", what[k], s)
							} else {
								r.Failf("the mandatory command classes of %s that were asked for in step %d are after step %d %s", what[k], k, i, s)
							}
							return
						}
					}
				}
			})
			r.Evals(len(c.Ops) - 1)
			if c.Sweep {
				for g := 0; g < 256; g++ {
					for s := 0; s < 256; s++ {
						got := database.GetMandatoryCommandClasses(byte(g), byte(s))
						if d := idsDiffer(got, ref[classPair{byte(g), byte(s)}]); d != "" {
							r.Failf("the mandatory command classes of %02x/%02x are %s", g, s, d)
							return
						}
					}
				}
				r.Evals(65536)
				r.Label("all 65536 pairs")
			}
			r.LabelIf(after, "identification after a lookup")
			r.Nontrivial(c.Sweep || after)
		})
}
