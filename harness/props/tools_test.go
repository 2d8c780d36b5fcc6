package props

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"
	"pgregory.net/rapid"
)

// tool gives the path of a command built from the repository.
func tool(name string) string {
	p := os.Getenv("VERIF_TOOL_" + name)
	if p == "" {
		harnessBug(fmt.Errorf("VERIF_TOOL_%s is not set", name))
	}
	return p
}

// runTool runs a command with a limit on its time.
func runTool(dir string, env []string, path string, args ...string) (stdout, stderr []byte, code int, err error) {
	cmd := exec.Command(path, args...)
	cmd.Dir, cmd.Env = dir, append(os.Environ(), env...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		harnessBug(err)
	}
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		return nil, nil, -1, errors.New("it does not end")
	}
	return out.Bytes(), errs.Bytes(), cmd.ProcessState.ExitCode(), nil
}

// crashed says if a Go program ended with a panic.
func crashed(stderr []byte, code int) bool {
	return code == 2 && (bytes.Contains(stderr, []byte("goroutine ")) || bytes.Contains(stderr, []byte("panic:"))) ||
		code != 0 && bytes.Contains(stderr, []byte("\ngoroutine "))
}

func short(b []byte) string {
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// ---- C21

type c21 struct {
	Units []c21unit `json:"units"`
}

type c21unit struct {
	Files  []c21file `json:"files"`
	Text   string    `json:"text"` // the mandatory command classes
	Stdout bool      `json:"stdout,omitempty"`
	Damage string    `json:"damage,omitempty"` // afterwards: cut, garbage, empty (a device file), nodir, notext, noout
	Victim int       `json:"victim,omitempty"`
}

type c21file struct {
	Name string `json:"name"`
	Text string `json:"text"`
}

var (
	c21manufacturers = []string{"0086", "00AB", "00ab", "010F", "010f", ""}
	c21types         = []string{"0001", "000A", "000a", "0B00", ""}
	c21ids           = []string{"0001", "1b0C", "1B0c", "1b0c", ""}
)

func genName() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "Switch", "A \"quoted\" name", `back\slash`, `\`, `\"`, "line\nbreak", "line\r\nbreak", "tab\tand\vmore", "nul\x00byte", "\ufeffmark",
			"back`tick", "{{ .Package }}", "}}", "%s%d%!", "<b>&amp;'", "Größe 5°", "日本語", "\u2028\u2029", "\x7f\x01", "// comment", "/* comment */", `\u0041\n\x41`, "\U0001F4A1", "$1 $&"}),
		rapid.String(),
		rapid.StringMatching(`[ -~]{0,30}`),
		rapid.StringMatching("[\"\\\\\n\r\x00`'{}%]{0,6}"),
	)
}

func genDeviceFile(t *rapid.T) string {
	has := func(name string) bool { return rapid.IntRange(0, 7).Draw(t, "has "+name) != 0 }
	d := map[string]interface{}{}
	if has("label") {
		d["label"] = genName().Draw(t, "label")
	}
	if has("name") {
		d["manufacturer_name"] = genName().Draw(t, "name")
	}
	if has("manufacturer") {
		d["manufacturer_id"] = rapid.SampledFrom(c21manufacturers).Draw(t, "manufacturer")
	}
	if has("description") {
		d["decription"] = genName().Draw(t, "description")
	}
	if has("more") {
		d["overview"], d["inclusion"], d["version_max"], d["listening"] = genName().Draw(t, "overview"), "<p>x</p>", 255.99, true
		d["something else"] = []interface{}{1, nil, "x"}
	}
	if has("refs") {
		refs := []string{}
		for k := rapid.IntRange(0, 4).Draw(t, "nrefs"); k > 0; k-- {
			ref := rapid.SampledFrom(c21types).Draw(t, "type")
			if rapid.IntRange(0, 9).Draw(t, "both") != 0 {
				ref += ":" + rapid.SampledFrom(c21ids).Draw(t, "id")
			}
			refs = append(refs, ref)
		}
		if rapid.IntRange(0, 49).Draw(t, "many refs") == 33 {
			for k := rapid.IntRange(5, 100).Draw(t, "more refs"); k > 0; k-- {
				refs = append(refs, fmt.Sprintf("%s:%04X", rapid.SampledFrom(c21types).Draw(t, "type"), k))
			}
		}
		d["device_ref"] = refs
	}
	if has("endpoints") {
		list := []interface{}{}
		for k := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(t, "endpoints"); k > 0; k-- {
			classes := []interface{}{}
			for j := rapid.IntRange(0, 4).Draw(t, "nclasses"); j > 0; j-- {
				c := map[string]interface{}{"name": "COMMAND_CLASS_" + genName().Draw(t, "class name")}
				if rapid.IntRange(0, 9).Draw(t, "has class") != 0 {
					c["id"] = rapid.SampledFrom([]string{"20", "25", "5E", "5e", "FF", "0", "7", "8f", "00"}).Draw(t, "class")
				}
				for _, f := range []string{"nif", "secure", "nonsecure", "basic"} {
					if rapid.Bool().Draw(t, f) {
						c[f] = rapid.Bool().Draw(t, f+" value")
					}
				}
				if rapid.Bool().Draw(t, "has version") {
					c["version"] = rapid.SampledFrom([]string{"", "1", "2", "10"}).Draw(t, "version")
				}
				classes = append(classes, c)
			}
			e := map[string]interface{}{"basic_class": map[string]interface{}{"id": 4, "name": genName().Draw(t, "basic")}}
			if rapid.IntRange(0, 9).Draw(t, "has classes") != 0 {
				e["commandclasses"] = classes
			}
			list = append(list, e)
		}
		d["endpoints"] = list
	}
	if has("parameters") {
		list := []interface{}{}
		for k := rapid.IntRange(0, 3).Draw(t, "nparameters"); k > 0; k-- {
			number := rapid.SampledFrom([]int{0, 1, 2, 99, -1, -128, 255, 65535, 2147483647, -2147483648, 4294967295})
			p := map[string]interface{}{"description": genName().Draw(t, "parameter description")}
			if has("parameter") {
				p["id"] = rapid.SampledFrom([]int{0, 1, 2, 255}).Draw(t, "parameter id")
				p["label"] = genName().Draw(t, "parameter")
				p["size"] = rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(t, "size")
			}
			if has("range") {
				p["value_min"], p["value_max"] = number.Draw(t, "min"), number.Draw(t, "max")
			}
			options := []interface{}{}
			for j := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "noptions"); j > 0; j-- {
				options = append(options, map[string]interface{}{"value": number.Draw(t, "value"), "label": genName().Draw(t, "option")})
			}
			p["options"] = options
			list = append(list, p)
		}
		d["parameters"] = list
	}
	b, err := json.Marshal(d)
	if err != nil {
		harnessBug(err)
	}
	return string(b)
}

// The lines of the text of the repository, known to the library or not.
var c21lines = []string{
	"Application Status", "Association (version 2 or newer)", "Association Group Information", "Basic", "Binary Switch", "CRC16",
	"CRC16 - if CSC", "CRC16 – if CSC", "Central Scene", "Device Reset Locally (*)", "Device Reset Locally (if the device can be reset, refer to [1])",
	"Manufacturer Specific", "Meter (version 2 or newer)", "Multi Channel (version 4 or newer)", "Multichannel Association (version 3 or newer)",
	"Multilevel Sensor", "Multilevel Switch", "Multilevel Switch (v3 or newer)", "Notification", "Power Level", "Security", "Security - if CSC",
	"Version (v2 or newer)", "Z-Wave Plus Info",
	"Basic Tariff Information", "Basic Window Covering", "Manufacturer Specific Data", "Notification Sensor", "Power Level Extended",
	"Screen Meta Data", "Simple AV", "Simple AV Control", "Thermostat Mode", "Thermostat Set Point", "Thermostat Setback",
}

func genMandatory(t *rapid.T) string {
	var generic, specific []string
	for n := range deviceTypes {
		if strings.HasPrefix(n, "GENERIC_") {
			generic = append(generic, n)
		} else {
			specific = append(specific, n)
		}
	}
	sort.Strings(generic)
	sort.Strings(specific)
	used := map[classPair]bool{}
	var b strings.Builder
	eol := rapid.SampledFrom([]string{"\n", "\n", "\n", "\r\n"}).Draw(t, "eol")
	space := func() string { return rapid.SampledFrom([]string{"", "", "", " ", "\t"}).Draw(t, "space") }
	n := rapid.IntRange(0, 6).Draw(t, "blocks")
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "title") {
			b.WriteString("Motorized barrier devices" + eol)
		}
		for k := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "classes"); k > 0; k-- {
			g, s := rapid.SampledFrom(generic).Draw(t, "generic"), rapid.SampledFrom(specific).Draw(t, "specific")
			pair := classPair{deviceTypes[g], deviceTypes[s]}
			if rapid.IntRange(0, 11).Draw(t, "unused") == 0 {
				s = "SPECIFIC_TYPE_NOT_USED"
			} else if used[pair] {
				continue
			} else {
				used[pair] = true
			}
			name := rapid.SampledFrom([]string{"AV control point", "Motorized Barrier - Add-ON", "On/Off Power Switch", "Valve - open/close", "X-Y-Z"}).Draw(t, "name")
			b.WriteString(space() + "# " + name + " - " + g + " - " + s + space() + eol)
		}
		lines := rapid.IntRange(0, 10).Draw(t, "nlines")
		if rapid.IntRange(0, 4).Draw(t, "long") == 3 {
			lines = rapid.IntRange(10, 40).Draw(t, "nlines2")
		}
		for k := lines; k > 0; k-- {
			l := rapid.SampledFrom(c21lines).Draw(t, "line")
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0:
				b.WriteString("//- " + l + eol)
			case 1:
				b.WriteString("+ " + l + eol)
			case 2:
				b.WriteString("++ " + l + eol)
			default:
				b.WriteString(space() + "- " + l + space() + eol)
			}
		}
		if i < n-1 {
			for k := rapid.IntRange(1, 3).Draw(t, "empty"); k > 0; k-- {
				b.WriteString(space() + eol)
			}
		}
	}
	s := b.String()
	if rapid.Bool().Draw(t, "no end of line") {
		s = strings.TrimSuffix(s, eol)
	}
	return s
}

func init() {
	reg("C21", "1 to 8 databases, generated and compiled together: each 0 to 8 (now and then 150) device files with missing fields, names with quotes, backslashes, control characters, template syntax and any unicode, "+
		"ids of small pools repeated in several files, in upper and lower case and within a file, several endpoints, other files in the directory; and a mandatory text of 0 to 6 blocks of the lines of the real one; "+
		"all combinations of ids and all 65536 device classes are looked up in the program; non-trivial: a repeated id or a name that needs escaping, or several blocks",
		func(t *rapid.T) c21 {
			var c c21
			for k := rapid.IntRange(1, 8).Draw(t, "units"); k > 0; k-- {
				var u c21unit
				n := rapid.IntRange(0, 8).Draw(t, "files")
				if rapid.IntRange(0, 29).Draw(t, "many") == 17 {
					n = 150
				}
				names := map[string]bool{}
				for i := 0; i < n; i++ {
					name := rapid.StringMatching(`[a-zA-Z0-9 _é.-]{1,8}`).Draw(t, "file") + ".json"
					if names[strings.ToLower(name)] || strings.HasPrefix(name, ".") {
						continue
					}
					names[strings.ToLower(name)] = true
					u.Files = append(u.Files, c21file{name, genDeviceFile(t)})
				}
				for k := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "others"); k > 0; k-- {
					name := rapid.SampledFrom([]string{"readme.txt", "json", "a.json.bak", "b.jsonx", "c.xml", "x.json~", "README"}).Draw(t, "other")
					if !names[name] {
						names[name] = true
						u.Files = append(u.Files, c21file{name, rapid.SampledFrom([]string{"", "not json", `{"manufacturer_id":"0086","device_ref":["0001:0001"],"label":"other"}`}).Draw(t, "content")})
					}
				}
				u.Text = genMandatory(t)
				u.Stdout = rapid.IntRange(0, 4).Draw(t, "stdout") == 0
				u.Damage = rapid.SampledFrom([]string{"", "cut", "cut", "garbage", "empty", "nodir", "notext", "noout"}).Draw(t, "damage")
				u.Victim = rapid.IntRange(0, 99).Draw(t, "victim")
				c.Units = append(c.Units, u)
			}
			return c
		}, runC21)
}

type c21result struct {
	Devices   map[string]*c21device
	Mandatory map[string][]int
}

type c21device struct {
	Brand, Product, Description            string
	ManufacturerID, ProductType, ProductID string
	CommandClasses                         []*struct {
		ID                       int
		InNIF, Secure, NonSecure bool
		Version                  string
	}
	Parameters []*struct {
		ID     int
		Name   string
		Size   int
		Values []struct {
			From, To int64
			Desc     string
		}
	}
}

const c21main = `
func str(s string) string { return s }

func main() {
	var all []map[string]interface{}
	for _, u := range units {
		m := map[string]interface{}{}
		devices := map[string]interface{}{}
		for _, q := range u.lookups {
			devices[q[0]+"|"+q[1]+"|"+q[2]] = u.device(q[0], q[1], q[2])
		}
		m["Devices"] = devices
		mandatory := map[string][]int{}
		for g := 0; g < 256; g++ {
			for s := 0; s < 256; s++ {
				if l := u.mandatory(byte(g), byte(s)); l != nil {
					mandatory[fmt.Sprintf("%02x%02x", g, s)] = l
				}
			}
		}
		m["Mandatory"] = mandatory
		all = append(all, m)
	}
	if err := json.NewEncoder(os.Stdout).Encode(all); err != nil {
		panic(err)
	}
}

type unit struct {
	lookups   [][3]string
	device    func(a, b, c string) interface{}
	mandatory func(g, s byte) []int
}
`

// damaged runs the generators again with something that is wrong: that is an
// error, and leaves what was generated before as it was.
func damaged(dir string, i int, u c21unit, r *R) {
	pkg := fmt.Sprintf("u%d", i)
	name, out, flag, in := "DATABASE", pkg+"/devices.go", "-databasedir", "in/"+pkg
	switch u.Damage {
	case "":
		return
	case "nodir":
		in = "in/nothing"
	case "notext":
		name, out, flag, in = "COMMANDCLASSES", pkg+"/mandatory.go", "-mandatoryfile", "in/nothing.txt"
	case "noout":
		if u.Victim%2 == 0 {
			name, flag, in = "COMMANDCLASSES", "-mandatoryfile", "in/"+pkg+".txt"
		}
		out = pkg + "/nothing/out.go"
	default:
		var l []c21file
		for _, f := range u.Files {
			if strings.HasSuffix(f.Name, ".json") {
				l = append(l, f)
			}
		}
		if len(l) == 0 {
			return
		}
		f := l[u.Victim%len(l)]
		text := ""
		switch u.Damage {
		case "cut":
			text = f.Text[:len(f.Text)*u.Victim/100]
		case "garbage":
			text = "}" + f.Text
		}
		var any interface{}
		if json.NewDecoder(strings.NewReader(text)).Decode(&any) == nil {
			return
		}
		p := filepath.Join(dir, in, f.Name)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			harnessBug(err)
		}
		defer os.WriteFile(p, []byte(f.Text), 0o644)
	}
	r.Label("then: %s", u.Damage)
	before, _ := os.ReadFile(filepath.Join(dir, out))
	_, stderr, code, err := runTool(dir, nil, tool(name), "-file="+out, flag+"="+in, "-package=database")
	after, _ := os.ReadFile(filepath.Join(dir, out))
	if err != nil || code == 0 || len(stderr) == 0 {
		r.Failf("database %d, %s: the generator ends with %d, %v: %s", i, u.Damage, code, err, short(stderr))
		return
	}
	if string(before) != string(after) {
		r.Failf("database %d, %s: the generator failed, and %s is another one", i, u.Damage, out)
	}
}

func runC21(c c21, r *R) {
	dir, err := os.MkdirTemp(scratch, "c21.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	write := func(name, text string) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			harnessBug(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			harnessBug(err)
		}
	}
	// What the generated files are used with
	rest := map[string]string{}
	files, err := filepath.Glob(filepath.Join(repoDir(), "database", "*.go"))
	if err != nil || len(files) == 0 {
		harnessBug(fmt.Errorf("no files in database: %v", err))
	}
	for _, f := range files {
		switch b := filepath.Base(f); {
		case strings.HasSuffix(b, "_test.go"), b == "devices.go", b == "mandatory.go":
		default:
			s, err := os.ReadFile(f)
			if err != nil {
				harnessBug(err)
			}
			rest[b] = string(s)
		}
	}
	mod, err := os.ReadFile(filepath.Join(repoDir(), "go.mod"))
	if err != nil {
		harnessBug(err)
	}
	sum, _ := os.ReadFile(filepath.Join(repoDir(), "go.sum"))
	goline := "go 1.21"
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "go ") {
			goline = l
		}
	}
	write("go.mod", "module gen\n\n"+goline+"\n\nrequire github.com/stampzilla/gozwave v0.0.0\n\nreplace github.com/stampzilla/gozwave => "+repoDir()+"\n")
	write("go.sum", string(sum))

	var imports, units strings.Builder
	want := make([]map[string]*refDevice, len(c.Units))
	for i, u := range c.Units {
		pkg := fmt.Sprintf("u%d", i)
		for n, s := range rest {
			write(pkg+"/"+n, s)
		}
		in := "in/" + pkg
		if err := os.MkdirAll(filepath.Join(dir, in), 0o755); err != nil {
			harnessBug(err)
		}
		devices := 0
		for _, f := range u.Files {
			write(in+"/"+f.Name, f.Text)
			if strings.HasSuffix(f.Name, ".json") {
				devices++
			}
		}
		write("in/"+pkg+".txt", u.Text)
		want[i] = map[string]*refDevice{}
		if devices > 0 {
			want[i], err = refDatabase(filepath.Join(dir, in))
			if err != nil {
				harnessBug(err)
			}
		}
		for _, g := range []struct{ name, out, flag, in string }{
			{"DATABASE", "devices.go", "-databasedir", in}, {"COMMANDCLASSES", "mandatory.go", "-mandatoryfile", "in/" + pkg + ".txt"},
		} {
			out := pkg + "/" + g.out
			flag := out
			if u.Stdout {
				flag = ""
			}
			stdout, stderr, code, err := runTool(dir, nil, tool(g.name), "-file="+flag, g.flag+"="+g.in, "-package=database")
			if err != nil || code != 0 {
				r.Failf("database %d: the generator of %s ends with %d, %v: %s", i, g.out, code, err, short(stderr))
				return
			}
			if u.Stdout {
				write(out, string(stdout))
			}
		}
		fmt.Fprintf(&imports, "\t%s %q\n", pkg, "gen/"+pkg)
		fmt.Fprintf(&units, "\t{lookups: [][3]string{")
		for _, q := range c21lookups(want[i]) {
			fmt.Fprintf(&units, "{%q, %q, %q}, ", q[0], q[1], q[2])
		}
		fmt.Fprintf(&units, "},\n\t\tdevice: func(a, b, c string) interface{} {\n\t\t\tif d := %s.New(a, b, c); d != nil {\n\t\t\t\treturn d\n\t\t\t}\n\t\t\treturn nil\n\t\t},\n", pkg)
		fmt.Fprintf(&units, "\t\tmandatory: func(g, s byte) []int {\n\t\t\tl := %s.GetMandatoryCommandClasses(g, s)\n\t\t\tif l == nil {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tids := []int{}\n"+
			"\t\t\tfor _, c := range l {\n\t\t\t\tif c == nil {\n\t\t\t\t\tids = append(ids, -1)\n\t\t\t\t} else {\n\t\t\t\t\tids = append(ids, int(c.ID))\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn ids\n\t\t}},\n", pkg)
	}
	for i, u := range c.Units {
		if damaged(dir, i, u, r); r.Failed() {
			return
		}
	}
	write("main.go", "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n"+imports.String()+")\n\nvar units = []unit{\n"+units.String()+"}\n"+c21main)

	bin := filepath.Join(dir, "prog")
	_, stderr, code, err := runTool(dir, nil, "go", "build", "-ldflags=-s -w", "-o", bin, ".")
	if err != nil {
		harnessBug(fmt.Errorf("go build: %v", err))
	}
	if code != 0 {
		text := string(stderr)
		if !strings.Contains(text, ".go:") {
			harnessBug(fmt.Errorf("go build: %s", short(stderr)))
		}
		r.Failf("the generated code does not compile: %s", short(stderr))
		return
	}
	out, stderr, code, err := runTool(dir, nil, bin)
	if err != nil || code != 0 {
		r.Failf("the program with the generated code ends with %d, %v: %s", code, err, short(stderr))
		return
	}
	var res []c21result
	if err := json.Unmarshal(out, &res); err != nil || len(res) != len(c.Units) {
		harnessBug(fmt.Errorf("%d results, %v", len(res), err))
	}
	dup, special, blocks := false, false, false
	for i, u := range c.Units {
		found := 0
		for _, q := range c21lookups(want[i]) {
			have := res[i].Devices[q[0]+"|"+q[1]+"|"+q[2]]
			w := want[i][q[0]+"_"+q[1]+"_"+q[2]]
			switch {
			case w == nil && have != nil:
				r.Failf("database %d: looking up %q gives a device (%s %s), but it is not listed", i, q, have.Brand, have.Product)
			case w != nil:
				found++
				if s := w.differsC21(have); s != "" {
					r.Failf("database %d: looking up %q (%s): %s", i, q, w.file, s)
				}
			}
		}
		wantMandatory := refMandatory(u.Text)
		for p, l := range wantMandatory {
			have, ok := res[i].Mandatory[fmt.Sprintf("%02x%02x", p.g, p.s)]
			ids := []int{}
			for _, b := range l {
				ids = append(ids, int(b))
			}
			if !ok && len(ids) > 0 || fmt.Sprint(have) != fmt.Sprint(ids) {
				r.Failf("database %d: the device class %02x %02x has the command classes %v, should have %v", i, p.g, p.s, have, ids)
			}
		}
		for k, l := range res[i].Mandatory {
			var p classPair
			fmt.Sscanf(k, "%02x%02x", &p.g, &p.s)
			if _, ok := wantMandatory[p]; !ok {
				r.Failf("database %d: the device class %s is not in the text, and has the command classes %v", i, k, l)
			}
		}
		refs := 0
		for _, f := range u.Files {
			var d jsonDevice
			if strings.HasSuffix(f.Name, ".json") && json.Unmarshal([]byte(f.Text), &d) == nil {
				refs += len(d.Refs)
				special = special || len(d.Refs) > 0 && strings.ContainsAny(d.Label+d.Name+d.Description, "\"\\\n\r\x00\ufeff`")
			}
		}
		dup = dup || refs > found
		blocks = blocks || len(wantMandatory) > 1
		r.LabelIf(devicesOf(u) == 0, "no device file")
		r.LabelIf(devicesOf(u) > 100, "many device files")
	}
	r.LabelIf(dup, "an id listed more than once")
	r.LabelIf(special, "a name that needs escaping")
	r.LabelIf(blocks, "several device classes")
	r.Evals(len(c.Units) - 1)
	r.Nontrivial(dup || special || blocks)
}

func devicesOf(u c21unit) (n int) {
	for _, f := range u.Files {
		if strings.HasSuffix(f.Name, ".json") {
			n++
		}
	}
	return
}

// c21lookups are all combinations of the ids in lower case.
func c21lookups(db map[string]*refDevice) (l [][3]string) {
	seen := map[[3]string]bool{}
	for _, m := range c21manufacturers {
		for _, t := range c21types {
			for _, p := range c21ids {
				q := [3]string{strings.ToLower(m), strings.ToLower(t), strings.ToLower(p)}
				if !seen[q] {
					seen[q] = true
					l = append(l, q)
				}
			}
		}
	}
	var more []string
	for k := range db {
		more = append(more, k)
	}
	sort.Strings(more)
	for _, k := range more { // The others that are listed
		d := db[k]
		q := [3]string{strings.ToLower(d.manufacturer), strings.ToLower(d.typ), strings.ToLower(d.idStr)}
		if !seen[q] {
			seen[q] = true
			l = append(l, q)
		}
	}
	return l
}

func (d *refDevice) differsC21(g *c21device) string {
	if g == nil {
		return "it is not found"
	}
	for _, x := range [][3]string{{"brand", g.Brand, d.brand}, {"product", g.Product, d.product}, {"description", g.Description, d.desc},
		{"manufacturer id", strings.ToLower(g.ManufacturerID), strings.ToLower(d.manufacturer)},
		{"product type", strings.ToLower(g.ProductType), strings.ToLower(d.typ)},
		{"product id", strings.ToLower(g.ProductID), strings.ToLower(d.idStr)}} {
		if x[1] != x[2] {
			return sprintf("its %s is %q, should be %q", x[0], x[1], x[2])
		}
	}
	if len(g.CommandClasses) != len(d.classes) {
		return sprintf("it has %d command classes, should have %d", len(g.CommandClasses), len(d.classes))
	}
	for i, c := range d.classes {
		h := g.CommandClasses[i]
		if h == nil || (refClass{byte(h.ID), h.InNIF, h.Secure, h.NonSecure, h.Version}) != c {
			return sprintf("command class %d is %+v, should be %v", i, h, c)
		}
	}
	if len(g.Parameters) != len(d.params) {
		return sprintf("it has %d parameters, should have %d", len(g.Parameters), len(d.params))
	}
	for i, p := range d.params {
		q := g.Parameters[i]
		if q == nil || q.Name != p.name || q.Size != p.size || q.ID != p.id || len(q.Values) != len(p.values) {
			return sprintf("parameter %d is %+v, should be %+v", i, q, p)
		}
		for j, v := range p.values {
			if w := q.Values[j]; w.From != v.from || w.To != v.to || w.Desc != v.desc {
				return sprintf("value %d of parameter %d is %+v, should be %+v", j, i, w, v)
			}
		}
	}
	return ""
}

// ---- C23

type c23 struct {
	Rows    []c23row `json:"rows"`
	NoRead  bool     `json:"noread,omitempty"`
	NoWrite bool     `json:"nowrite,omitempty"`
	Short   bool     `json:"short,omitempty"`
	Zone    int      `json:"zone,omitempty"` // minutes
	Damage  string   `json:"damage,omitempty"`
	At      int      `json:"at,omitempty"` // permille of the file
	Bytes   Hex      `json:"bytes,omitempty"`
}

type c23row struct {
	Gap   int64 `json:"gap"` // ns after the row before in its direction
	Write bool  `json:"write,omitempty"`
	Data  Hex   `json:"data,omitempty"`
}

func init() {
	reg("C23", "recordings of 0 to 25 (now and then 200) rows of both directions in any order, with gaps around a millisecond between the rows of a direction, 0 to 40 (now and then 3000) bytes each; "+
		"with and without the reads or writes; a quarter damaged: cut, bytes changed, inserted or appended; non-trivial: rows of both directions joined and not joined, or damaged",
		func(t *rapid.T) c23 {
			c := c23{NoRead: rapid.IntRange(0, 3).Draw(t, "noread") == 0, NoWrite: rapid.IntRange(0, 3).Draw(t, "nowrite") == 0, Short: rapid.IntRange(0, 4).Draw(t, "short") == 0,
				Zone: rapid.SampledFrom([]int{0, 0, 0, 60, -330}).Draw(t, "zone")}
			back := rapid.IntRange(0, 19).Draw(t, "clock set back") == 17
			n := rapid.IntRange(0, 25).Draw(t, "rows")
			if rapid.IntRange(0, 49).Draw(t, "many") == 33 {
				n = 200
			}
			for i := 0; i < n; i++ {
				row := c23row{Write: rapid.Bool().Draw(t, "write"),
					Gap: rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 999_998, 999_999, 1_000_000, 1_000_001, 500_000, 600_000, 2_000_000, 3_600_000_000_000}), rapid.Int64Range(0, 2_500_000)).Draw(t, "gap")}
				if back && rapid.IntRange(0, 4).Draw(t, "back") == 3 {
					row.Gap = -row.Gap
				}
				switch rapid.IntRange(0, 29).Draw(t, "size") {
				case 0:
				case 1:
					row.Data = bytes.Repeat([]byte{byte(i)}, rapid.IntRange(100, 3000).Draw(t, "length"))
				default:
					row.Data = genBytes(1, 40).Draw(t, "data")
				}
				c.Rows = append(c.Rows, row)
			}
			if rapid.IntRange(0, 3).Draw(t, "damage") == 0 {
				c.Damage = rapid.SampledFrom([]string{"cut", "cut", "change", "insert", "append", "replace", "missing", "directory", "unnamed"}).Draw(t, "how")
				c.At = rapid.IntRange(0, 1000).Draw(t, "at")
				c.Bytes = rapid.OneOf(genBytes(1, 20), rapid.SampledFrom([][]byte{{0xFF}, {0xF8, 0x7F, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, {0}, {0x80}})).Draw(t, "bytes")
			}
			return c
		}, runC23)
}

func runC23(c c23, r *R) {
	loc := time.UTC
	if c.Zone != 0 {
		loc = time.FixedZone("", c.Zone*60)
	}
	var file bytes.Buffer
	enc := gob.NewEncoder(&file)
	start := time.Date(2024, 2, 29, 23, 59, 58, 0, loc)
	last := [2]time.Time{start, start.Add(300 * time.Microsecond)}
	for _, row := range c.Rows {
		d := 0
		if row.Write {
			d = 1
		}
		last[d] = last[d].Add(time.Duration(row.Gap))
		if err := enc.Encode(&serialrecorder.Row{Timestamp: last[d], Direction: serialrecorder.Direction(row.Write), Data: row.Data}); err != nil {
			harnessBug(err)
		}
	}
	b := file.Bytes()
	at := len(b) * c.At / 1000
	switch c.Damage {
	case "cut":
		b = b[:at]
	case "change":
		b = append([]byte(nil), b...)
		for i, x := range c.Bytes {
			if at+i < len(b) {
				b[at+i] = x
			}
		}
	case "insert":
		b = append(append(append([]byte(nil), b[:at]...), c.Bytes...), b[at:]...)
	case "append":
		b = append(append([]byte(nil), b...), c.Bytes...)
	case "replace":
		b = c.Bytes
	}
	dir, err := os.MkdirTemp(scratch, "c23.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "recording")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		harnessBug(err)
	}
	none := true // there is no recording
	args := []string{"-file=" + path}
	switch c.Damage {
	case "missing":
		os.Remove(path)
	case "directory":
		os.Remove(path)
		if err := os.Mkdir(path, 0o755); err != nil {
			harnessBug(err)
		}
	case "unnamed":
		args = nil
	default:
		none = false
	}
	if c.NoRead {
		args = append(args, "-read=false")
	}
	if c.NoWrite {
		args = append(args, "-write=false")
	}
	if c.Short {
		args = append(args, "-short")
	}
	stdout, stderr, code, err := runTool(dir, []string{"TZ=UTC"}, tool("VIEWER"), args...)
	if err != nil {
		r.Failf("the viewer fails: %v", err)
		return
	}
	if crashed(stderr, code) {
		r.Failf("the viewer crashes: %s", short(stderr))
		return
	}

	if none {
		if code == 0 || len(stderr) == 0 {
			r.Failf("there is no recording (%s), and the viewer gives no error", c.Damage)
		}
		r.Label("no recording: %s", c.Damage)
		return
	}

	// What is in the file
	rows, decodeErr := decodeRows(b)
	if decodeErr != nil {
		if code == 0 {
			r.Failf("the recording is damaged (%v), and the viewer gives no error", decodeErr)
		}
		r.Label("damaged: error")
		r.Nontrivial(true)
		return
	}
	if code != 0 {
		r.Failf("the viewer ends with %d for a recording that can be read: %s", code, short(stderr))
		return
	}
	backwards := false
	var seen [2]time.Time
	type line struct {
		at    time.Time
		text  string
		write bool
	}
	var lines []line
	joined, apart := [2]bool{}, [2]bool{}
	for d := 0; d < 2; d++ {
		var at time.Time
		var data []byte
		any := false
		flush := func() {
			if any && len(data) > 0 && !(d == 0 && c.NoRead) && !(d == 1 && c.NoWrite) {
				dir := "read"
				if d == 1 {
					dir = "write"
				}
				text := fmt.Sprintf("%s: %s - %x", at, dir, data)
				if c.Short {
					text = fmt.Sprintf("%x", data)
				}
				lines = append(lines, line{at, text, d == 1})
			}
		}
		for _, row := range rows {
			if (row.Direction == serialrecorder.DirectionWrite) != (d == 1) {
				continue
			}
			backwards = backwards || row.Timestamp.Before(seen[d])
			seen[d] = row.Timestamp
			if any && row.Timestamp.Sub(at) >= time.Millisecond {
				flush()
				data = nil
				apart[d] = true
			} else if any {
				joined[d] = true
			}
			at, any = row.Timestamp, true
			data = append(data, row.Data...)
		}
		flush()
	}
	if backwards {
		// The order by time is not the one of the recording, but no byte is lost
		r.Label("times go backwards")
		if c.Short {
			return
		}
		var want, have [2][256]int
		for _, row := range rows {
			d := 0
			if row.Direction == serialrecorder.DirectionWrite {
				d = 1
			}
			if d == 0 && c.NoRead || d == 1 && c.NoWrite {
				continue
			}
			for _, b := range row.Data {
				want[d][b]++
			}
		}
		for _, l := range strings.Split(strings.TrimSpace(string(stdout)), "\n") {
			for d, name := range []string{": read - ", ": write - "} {
				if i := strings.LastIndex(l, name); i >= 0 {
					b, err := hex.DecodeString(strings.TrimSpace(l[i+len(name):]))
					if err != nil {
						r.Failf("the line %q does not end with bytes", short([]byte(l)))
						return
					}
					for _, b := range b {
						have[d][b]++
					}
				}
			}
		}
		if want != have {
			r.Failf("the times go backwards, and the viewer does not print every recorded byte once:\n%s", short(stdout))
		}
		r.Nontrivial(true)
		return
	}
	var have []string
	for _, l := range strings.Split(strings.TrimSuffix(string(stdout), "\n"), "\n") {
		if l != "" && !strings.HasSuffix(l, " - ") { // Nothing was read or written
			have = append(have, l)
		}
	}
	sort.SliceStable(lines, func(i, j int) bool { return lines[i].at.Before(lines[j].at) })
	if c.Short { // Its help says that it leaves the writes out, but they may be there
		var reads []line
		for _, l := range lines {
			if !l.write {
				reads = append(reads, l)
			}
		}
		if len(have) == len(reads) {
			lines = reads
		}
	}
	if len(have) != len(lines) {
		r.Failf("the viewer prints %d lines, should be %d:\n%s\nshould be:\n%s", len(have), len(lines), short(stdout), textOf(lines, func(l line) string { return l.text }))
		return
	}
	for i := 0; i < len(lines); {
		j := i + 1 // At the same time, in any order
		for j < len(lines) && lines[j].at.Equal(lines[i].at) {
			j++
		}
		a, w := append([]string(nil), have[i:j]...), []string{}
		for _, l := range lines[i:j] {
			w = append(w, l.text)
		}
		sort.Strings(a)
		sort.Strings(w)
		for k := range a {
			if a[k] != w[k] {
				r.Failf("line %d is %q, should be %q", i+k, short([]byte(a[k])), short([]byte(w[k])))
				return
			}
		}
		i = j
	}
	r.LabelIf(c.Damage == "", "whole")
	r.LabelIf(c.Damage != "", "damaged: can be read")
	r.LabelIf(c.NoRead || c.NoWrite, "a direction left out")
	r.LabelIf(c.Short, "short")
	r.LabelIf(len(rows) == 0, "empty")
	r.Nontrivial(joined[0] && joined[1] && apart[0] && apart[1])
}

func textOf[T any](l []T, f func(T) string) string {
	var s []string
	for _, x := range l {
		s = append(s, f(x))
	}
	return short([]byte(strings.Join(s, "\n")))
}

var c23mu sync.Mutex

// decodeRows reads a recording until its end or an error.
func decodeRows(b []byte) (rows []serialrecorder.Row, err error) {
	c23mu.Lock()
	defer c23mu.Unlock()
	dec := gob.NewDecoder(bytes.NewReader(b))
	for {
		var row serialrecorder.Row
		if err := dec.Decode(&row); err == io.EOF {
			return rows, nil
		} else if err != nil {
			return rows, err
		}
		rows = append(rows, row)
	}
}
