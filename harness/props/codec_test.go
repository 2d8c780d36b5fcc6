package props

import (
	"bytes"
	"math"
	"reflect"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
	"pgregory.net/rapid"
)

func genBytes(min, max int) *rapid.Generator[[]byte] {
	return rapid.SliceOfN(rapid.Byte(), min, max)
}

// genLong is up to max bytes, of any length (rapid prefers a few).
func genLong(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.OneOf(rapid.IntRange(0, max), rapid.SampledFrom([]int{max, max / 2, min(max, 64), min(max, 128)})).Draw(t, "length")
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
	})
}

// ---- C01

type c01 struct {
	Body  Hex
	Spare int // capacity of the callers slice beyond its length
	Flips []c01flip
	Port  bool // send it through a connection
}

type c01flip struct {
	Pos int
	Xor byte
}

func init() {
	reg("C01",
		"a message body (length 1..253, skewed to the limits), framed and corrupted at generated positions; every 20th also sent through a connection. Non-trivial: body of 3 bytes or more with at least one corruption",
		func(t *rapid.T) c01 {
			n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 253), rapid.SampledFrom([]int{1, 2, 125, 126, 127, 128, 252, 253})).Draw(t, "n")
			c := c01{
				Body:  rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 6, 0xff})), n, n).Draw(t, "body"),
				Spare: rapid.IntRange(0, 4).Draw(t, "spare"),
				Port:  rapid.IntRange(0, 19).Draw(t, "port") == 0,
			}
			c.Flips = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c01flip {
				return c01flip{rapid.IntRange(1, n+4).Draw(t, "pos"), rapid.ByteMin(1).Draw(t, "xor")}
			}), 0, 12).Draw(t, "flips")
			return c
		},
		func(c c01, r *R) {
			body := make([]byte, len(c.Body), len(c.Body)+c.Spare)
			copy(body, c.Body)
			for i := range body[:cap(body)][len(body):] {
				body[:cap(body)][len(body)+i] = 0xA5
			}
			want := refRequest(c.Body)
			got := serialapi.CompileMessage(body)
			r.Evals(len(c.Flips))
			r.Nontrivial(len(c.Body) >= 3 && len(c.Flips) > 0)
			r.LabelIf(len(c.Body) > 125, "long body")
			r.LabelIf(c.Port, "through a connection")
			if !bytes.Equal(got, want) {
				r.Failf("body %x is framed as %x, should be %x", []byte(c.Body), got, want)
				return
			}
			if !bytes.Equal(body, c.Body) || !bytes.Equal(body[:cap(body)][len(body):], bytes.Repeat([]byte{0xA5}, c.Spare)) {
				r.Failf("framing changed the body %x to %x", []byte(c.Body), body[:cap(body)])
			}
			serialapi.CompileMessage(bytes.Repeat([]byte{0x5a}, len(body)))
			if !bytes.Equal(got, want) {
				r.Failf("framing another message changed the frame %x to %x", want, got)
			}
			if n, _, _ := serialapi.Decode(append([]byte(nil), got...)); n != len(got) {
				r.Failf("the frame %x of %d bytes decodes with length %d", got, len(got), n)
			}
			for _, f := range c.Flips {
				if f.Pos >= len(got) {
					continue
				}
				bad := append([]byte(nil), want...)
				bad[f.Pos] ^= f.Xor
				n, msg, _ := serialapi.Decode(bad)
				if n == len(got) {
					r.Failf("%x with byte %d changed by %02x is accepted as a frame", want, f.Pos, f.Xor)
				}
				if f.Pos > 1 && (n != -1 || msg != nil) {
					r.Failf("%x with byte %d changed by %02x decodes as length %d", want, f.Pos, f.Xor, n)
				}
			}
			if c.Port {
				bubble(r, func() {
					s := newSim(r)
					s.onCommand = func(w *write) { s.feed(ack) }
					con := s.connect("")
					if con == nil {
						return
					}
					wait(1500) // The request of the node list is done
					s.clear()
					con.Connection.Write(serialapi.NewRaw(body))
					for i := range body {
						body[i] ^= 0x55 // The caller can reuse it
					}
					wait(2000)
					w := s.commands()
					if len(w) != 1 || !bytes.Equal(w[0].frame, want) {
						r.Failf("body %x was written to the port as %v, should be %x", []byte(c.Body), w, want)
					}
				})
			}
		})
}

// ---- C02

type c02 struct {
	Data Hex
	Tail Hex
}

// genPayload makes the content of a report, mostly a meaningful one.
func genPayload() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 9).Draw(t, "payload") {
		case 0:
			return genBytes(0, 12).Draw(t, "any")
		case 1:
			return append([]byte{ccAlarm, 0x05}, genBytes(0, 9).Draw(t, "alarm")...)
		case 2:
			n := rapid.SampledFrom([]int{6, 6, 6, 5, 7, 0, 12}).Draw(t, "n")
			return append([]byte{ccManufacturer, 0x05}, genBytes(n, n).Draw(t, "ids")...)
		case 3:
			return append([]byte{ccMultiChannel, 0x08}, genBytes(0, 4).Draw(t, "endpoints")...)
		case 4, 5:
			size := rapid.SampledFrom([]byte{1, 2, 4, 1, 2, 4, 0, 3, 5, 6, 7}).Draw(t, "size")
			scale := rapid.ByteRange(0, 3).Draw(t, "scale")
			precision := rapid.ByteRange(0, 7).Draw(t, "precision")
			typ := rapid.OneOf(rapid.ByteRange(0, 32), rapid.Byte()).Draw(t, "type")
			n := int(size) + rapid.SampledFrom([]int{0, 0, 0, 0, -1, 1, 3}).Draw(t, "extra")
			if n < 0 {
				n = 0
			}
			return append([]byte{ccSensor, 0x05, typ, precision<<5 | scale<<3 | size}, genBytes(n, n).Draw(t, "value")...)
		case 6:
			n := rapid.SampledFrom([]int{1, 3, 1, 3, 0, 2, 4}).Draw(t, "n")
			return append([]byte{ccSwitchBinary, 0x03}, rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 0xfe, 1}), rapid.Byte()), n, n).Draw(t, "binary")...)
		case 7:
			n := rapid.SampledFrom([]int{1, 3, 1, 3, 0, 2, 4}).Draw(t, "n")
			return append([]byte{ccMultilevel, 0x03}, rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 0xfe, 99, 100, 101}), rapid.Byte()), n, n).Draw(t, "level")...)
		case 8:
			return append([]byte{ccWakeUp, rapid.SampledFrom([]byte{7, 7, 6}).Draw(t, "cmd")}, genBytes(0, 3).Draw(t, "wakeup")...)
		default:
			class := rapid.SampledFrom([]byte{ccAlarm, ccManufacturer, ccMultiChannel, ccSensor, ccSwitchBinary, ccMultilevel, ccSensorBinary, 0x20}).Draw(t, "class")
			return append([]byte{class, rapid.ByteRange(0, 9).Draw(t, "cmd")}, genBytes(0, 7).Draw(t, "rest")...)
		}
	})
}

// genContent makes type, function and payload of a frame.
func genContent() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		typ := rapid.ByteRange(0, 1).Draw(t, "type")
		lie := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, -1, 5, 100}).Draw(t, "lie")
		switch rapid.IntRange(0, 5).Draw(t, "content") {
		case 0:
			return append([]byte{typ}, genBytes(0, 30).Draw(t, "any")...)
		case 1:
			p := genPayload().Draw(t, "report")
			c := append([]byte{typ, fnReport, rapid.SampledFrom([]byte{0, 0, 8, 0xff}).Draw(t, "status"), rapid.Byte().Draw(t, "node"), byte(len(p) + lie)}, p...)
			return append(c, genBytes(0, 2).Draw(t, "trailing")...)
		case 2:
			n := rapid.SampledFrom([]int{29, 29, 29, 28, 6, 5, 12, 30, 31, 40, 0}).Draw(t, "n")
			p := genBytes(n, n).Draw(t, "bitmap")
			c := append([]byte{typ, fnDiscovery, 5, 0, byte(len(p) + lie)}, p...)
			return append(c, genBytes(0, 2).Draw(t, "trailing")...)
		case 3:
			return append([]byte{typ, fnProtocolInfo}, genBytes(0, 8).Draw(t, "info")...)
		case 4:
			fn := rapid.SampledFrom([]byte{fnReport, fnDiscovery, fnProtocolInfo}).Draw(t, "fn")
			return append([]byte{typ, fn}, genBytes(0, 6).Draw(t, "short")...)
		default:
			fn := rapid.SampledFrom([]byte{0x13, 0x15, 0x49, 0x00, 0xff, 0x20}).Draw(t, "fn")
			return append([]byte{typ, fn}, genBytes(0, 12).Draw(t, "args")...)
		}
	})
}

// refContentOK says if the content of a valid frame is a message: 1 yes, 0 no.
func refContentOK(f []byte) bool {
	cs := len(f) - 1 // Where the checksum is
	if cs < 4 {
		return false
	}
	switch f[3] {
	case fnReport, fnDiscovery:
		if cs < 7 || 7+int(f[6]) > cs {
			return false
		}
		p := f[7 : 7+int(f[6])]
		if f[3] == fnDiscovery {
			return len(p) >= 6 && len(p) <= 29
		}
		return len(p) >= 2 && refDecode(p[0], p[1], p[2:]) != nil
	case fnProtocolInfo:
		return cs-4 >= 5
	}
	return false
}

func sameDecode(n1 int, m1 *serialapi.Message, e1 error, n2 int, m2 *serialapi.Message, e2 error) bool {
	return n1 == n2 && (e1 == nil) == (e2 == nil) && reflect.DeepEqual(m1, m2)
}

func init() {
	reg("C02",
		"a byte string: noise, or a frame with meaningful or short or lying content, truncated, corrupted, or followed by more bytes. Non-trivial: it starts with a start byte and has at least 4 bytes",
		func(t *rapid.T) c02 {
			var data []byte
			switch rapid.IntRange(0, 9).Draw(t, "shape") {
			case 0:
				data = genBytes(1, 40).Draw(t, "noise")
			case 1:
				data = append([]byte{rapid.SampledFrom([]byte{sof, ack, nak, can}).Draw(t, "start")}, genBytes(0, 20).Draw(t, "rest")...)
			case 2:
				data = append([]byte{sof, rapid.ByteRange(0, 6).Draw(t, "len")}, genBytes(0, 8).Draw(t, "rest")...)
				if rapid.Bool().Draw(t, "fix") {
					if n := int(data[1]) + 2; n <= len(data) && n > 2 {
						data[n-1] = 0xFF ^ xorAll(data[1:n-1])
					}
				}
			default:
				data = refFrame(genContent().Draw(t, "content"))
				if rapid.IntRange(0, 9).Draw(t, "corrupt") == 0 {
					data[rapid.IntRange(0, len(data)-1).Draw(t, "at")] ^= rapid.ByteMin(1).Draw(t, "xor")
				}
				if rapid.IntRange(0, 9).Draw(t, "truncate") == 0 {
					data = data[:rapid.IntRange(1, len(data)).Draw(t, "to")]
				}
			}
			data = append(data, rapid.OneOf(rapid.Just([]byte(nil)), genBytes(0, 12)).Draw(t, "more")...)
			return c02{data, genBytes(0, 12).Draw(t, "tail")}
		},
		func(c c02, r *R) {
			if len(c.Data) == 0 {
				return
			}
			want := refLength(c.Data)
			buf := append(make([]byte, 0, len(c.Data)+40), c.Data...)
			n, msg, err := serialapi.Decode(buf)
			r.Nontrivial(c.Data[0] == sof && len(c.Data) >= 4)
			if n != want {
				r.Failf("decoding %x says %d, should be %d", []byte(c.Data), n, want)
				return
			}
			if !bytes.Equal(buf, c.Data) || bytes.Count(buf[:cap(buf)][len(buf):], []byte{0}) != cap(buf)-len(buf) {
				r.Failf("decoding %x changed its input to %x", []byte(c.Data), buf)
				return
			}
			n2, msg2, err2 := serialapi.Decode(buf)
			if !sameDecode(n, msg, err, n2, msg2, err2) {
				r.Failf("decoding %x a second time gives %d %+v %v instead of %d %+v %v", []byte(c.Data), n2, msg2, err2, n, msg, err)
			}
			switch {
			case n == 1:
				r.Label("control byte")
				if err != nil || msg == nil || msg.IsACK() != (c.Data[0] == ack) || msg.IsNAK() != (c.Data[0] == nak) || msg.IsCAN() != (c.Data[0] == can) {
					r.Failf("%02x decodes as %+v, %v", c.Data[0], msg, err)
				}
			case n > len(c.Data):
				r.Label("incomplete frame")
				if msg != nil || err != nil {
					r.Failf("the incomplete frame %x decodes as %+v, %v", []byte(c.Data), msg, err)
				}
			case n == -1:
				r.Label("no frame")
				if msg != nil {
					r.Failf("%x is no frame, but decodes as %+v", []byte(c.Data), msg)
				}
				if c.Data[0] == sof && err == nil {
					r.Failf("%x has a wrong checksum, but there is no error", []byte(c.Data))
				}
			default:
				ok := refContentOK(c.Data[:n])
				r.LabelIf(ok, "valid frame, good content")
				r.LabelIf(!ok, "valid frame, bad content")
				if ok && (err != nil || msg == nil) {
					r.Failf("the frame %x is not decoded: %v", []byte(c.Data[:n]), err)
				}
				if !ok && (err == nil || msg != nil) {
					r.Failf("the content of the frame %x is bad, but it decodes as %+v, %v", []byte(c.Data[:n]), msg, err)
				}
				// Confined: the same with nothing or something else behind it
				for _, tail := range [][]byte{nil, c.Tail} {
					d := append(append([]byte(nil), c.Data[:n]...), tail...)
					n2, msg2, err2 := serialapi.Decode(d[:len(d):len(d)])
					if !sameDecode(n, msg, err, n2, msg2, err2) {
						r.Failf("the frame %x decodes differently when followed by %x: %d %+v %v instead of %d %+v %v", []byte(c.Data[:n]), tail, n2, msg2, err2, n, msg, err)
					}
				}
				if m, e := serialapi.NewMessage(append([]byte(nil), c.Data[:n]...)); (e == nil) != ok || (m != nil) != ok {
					// The checksum is still in place here, which only matters for a protocol info without specific class
					if c.Data[3] != fnProtocolInfo {
						r.Failf("NewMessage of %x gives %+v, %v", []byte(c.Data[:n]), m, e)
					}
				}
			}
		})
}

// ---- C03

type c03 struct {
	Type byte
	Kind int // 0 report, 1 discovery, 2 protocol info
	Node byte
	Data Hex
}

func init() {
	reg("C03",
		"a valid frame: a report of any node, a discovery answer with any bitmap of 6..29 bytes, or a protocol info of 5..8 bytes. Non-trivial: every case with some bit set",
		func(t *rapid.T) c03 {
			c := c03{Type: rapid.ByteRange(0, 1).Draw(t, "type"), Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Node: rapid.Byte().Draw(t, "node")}
			switch c.Kind {
			case 0:
				c.Data = genPayload().Draw(t, "payload")
			case 1:
				n := rapid.OneOf(rapid.Just(29), rapid.IntRange(6, 29)).Draw(t, "n")
				if rapid.Bool().Draw(t, "sparse") {
					c.Data = make([]byte, n)
					for _, b := range rapid.SliceOfN(rapid.IntRange(0, n*8-1), 1, 4).Draw(t, "bits") {
						c.Data[b/8] |= 1 << (b % 8)
					}
				} else {
					c.Data = genBytes(n, n).Draw(t, "bitmap")
				}
			case 2:
				n := rapid.SampledFrom([]int{6, 6, 6, 5, 7, 8}).Draw(t, "n")
				c.Data = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 2, 4, 8, 16, 32, 64, 128})), n, n).Draw(t, "info")
			}
			return c
		},
		func(c c03, r *R) {
			var f []byte
			switch c.Kind {
			case 0:
				f = refFrame(append([]byte{c.Type, fnReport, 0, c.Node, byte(len(c.Data))}, c.Data...))
			case 1:
				f = refFrame(append([]byte{c.Type, fnDiscovery, 5, 0, byte(len(c.Data))}, c.Data...))
			case 2:
				f = refFrame(append([]byte{c.Type, fnProtocolInfo}, c.Data...))
			}
			if !refContentOK(f) {
				return
			}
			r.Nontrivial(len(bytes.Trim(c.Data, "\x00")) > 0)
			n, msg, err := serialapi.Decode(f)
			if n != len(f) || err != nil || msg == nil {
				r.Failf("the frame %x decodes as %d, %+v, %v", f, n, msg, err)
				return
			}
			if msg.Length != f[1] || msg.MessageType != c.Type || byte(msg.Function) != f[3] || msg.IsACK() || msg.IsNAK() || msg.IsCAN() {
				r.Failf("the frame %x decodes as %+v", f, msg)
			}
			switch d := msg.Data.(type) {
			case *serialapi.FuncApplicationCommandHandler:
				r.Label("report")
				if c.Kind != 0 {
					break
				}
				if msg.NodeID != c.Node {
					r.Failf("the report %x is of node %d, decoded as of %d", f, c.Node, msg.NodeID)
				}
				if byte(d.Command) != c.Data[0] || d.Class != c.Data[1] {
					r.Failf("the report %x has command class %02x %02x, decoded as %02x %02x", f, c.Data[0], c.Data[1], byte(d.Command), d.Class)
				}
				if s := refDecode(c.Data[0], c.Data[1], c.Data[2:]).differs(d.Report); s != "" {
					r.Failf("%s (frame %x)", s, f)
				}
				return
			case *serialapi.DiscoverdNodes:
				r.Label("discovery")
				if c.Kind != 1 {
					break
				}
				for i, got := range d.ActiveNodes {
					want := i/8 < len(c.Data) && c.Data[i/8]>>(i%8)&1 == 1
					if got != want {
						r.Failf("node %d is decoded as active=%t from bitmap %x", i+1, got, []byte(c.Data))
					}
				}
				return
			case *serialapi.FuncGetNodeProtocolInfo:
				r.Label("protocol info")
				if c.Kind != 2 {
					break
				}
				if s := infoDiffers(refProtocolInfo(c.Data), d); s != "" {
					r.Failf("%s (protocol info %x)", s, []byte(c.Data))
				}
				return
			}
			r.Failf("the frame %x decodes as a %T", f, msg.Data)
		})
}

func infoDiffers(w refInfo, d *serialapi.FuncGetNodeProtocolInfo) string {
	if d == nil {
		return "there is no protocol info"
	}
	g := refInfo{d.Listening, d.Routing, d.Beaming, d.Flirs, d.Security, d.Version, d.MaxBaud, d.Basic, d.Generic, d.Specific}
	if g != w {
		return sprintf("the protocol info is %+v, should be %+v", g, w)
	}
	return ""
}

// ---- C04

type c04 struct {
	Payload  Hex
	Duration byte
}

func init() {
	reg("C04",
		"command class, command and payload of a report, mostly of the known ones with lengths around the valid ones, and a duration byte. Non-trivial: the payload has a meaning (decodes)",
		func(t *rapid.T) c04 {
			return c04{genPayload().Draw(t, "payload"), rapid.Byte().Draw(t, "duration")}
		},
		func(c c04, r *R) {
			r.Evals(1)
			d, err := commands.Duration(c.Duration).Duration()
			want, ok := refDuration(c.Duration)
			if (err == nil) != ok || d != want {
				r.Failf("duration %02x is %v, %v, should be %v", c.Duration, d, err, want)
			}
			if s := commands.Duration(c.Duration).String(); s == "" || (ok && s != want.String()) {
				r.Failf("duration %02x prints as %q", c.Duration, s)
			}

			if len(c.Payload) < 2 {
				return
			}
			class, cmd := c.Payload[0], c.Payload[1]
			ref := refDecode(class, cmd, c.Payload[2:])
			data := append([]byte(nil), c.Payload[2:]...)
			got, err := reports.New(commands.ZWaveCommand(class), cmd, data[:len(data):len(data)])
			if !bytes.Equal(data, c.Payload[2:]) {
				r.Failf("decoding changed the payload %x to %x", []byte(c.Payload[2:]), data)
			}
			if ref == nil {
				r.Label("error")
				if err == nil {
					r.Failf("class %02x command %02x payload %x decodes as %T, should be an error", class, cmd, data, got)
				}
				return
			}
			r.Label("%s", ref.kind)
			r.Nontrivial(true)
			if err != nil {
				if ref.anyValue {
					return
				}
				r.Failf("class %02x command %02x payload %x is not decoded: %v", class, cmd, data, err)
				return
			}
			if s := ref.differs(got); s != "" {
				r.Failf("%s (payload %x)", s, data)
				return
			}
			got.SetNode(7)
			if got.String() == "" {
				r.Failf("the report of payload %x prints as nothing", data)
			}
		})
}

// ---- C05

type c05 struct {
	Kind     int // 0 binary, 1 multilevel, 2 raw
	Node     int
	Node2    int // set before Node
	On       bool
	Level    float64
	Data     Hex
	Endpoint int // 0: not wrapped
	Spare    int
}

func genLevel() *rapid.Generator[float64] {
	return rapid.OneOf(
		rapid.Float64Range(0, 100),
		rapid.Custom(func(t *rapid.T) float64 { return float64(rapid.IntRange(-3, 103).Draw(t, "whole")) }),
		rapid.Custom(func(t *rapid.T) float64 {
			return float64(rapid.IntRange(0, 100).Draw(t, "whole")) + rapid.SampledFrom([]float64{0.0001, 0.5, 0.9999, -0.0001}).Draw(t, "part")
		}),
		rapid.Float64Range(-1e6, 1e6), rapid.Float64Range(-1e15, 1e15),
		rapid.SampledFrom([]float64{255, 256, 257, 300, 355, -1, -255, -256, 1e300, -1e300, math.Inf(1), math.Inf(-1), 98.99999, 0.99999}),
	)
}

type encoder interface{ Encode() []byte }

func refLevel(v float64) byte {
	switch {
	case !(v >= 1):
		return 0
	case v >= 99:
		return 99
	}
	return byte(math.Floor(v))
}

func init() {
	reg("C05",
		"a binary switch, multilevel switch or raw command to nodes 1..232, half of them wrapped for endpoints 1..127; levels around every whole number, negative, huge and infinite. Non-trivial: every wrapped command and every level that is not whole or out of range",
		func(t *rapid.T) c05 {
			c := c05{
				Kind:  rapid.IntRange(0, 2).Draw(t, "kind"),
				Node:  rapid.IntRange(1, 232).Draw(t, "node"),
				Node2: rapid.IntRange(0, 232).Draw(t, "node2"),
				On:    rapid.Bool().Draw(t, "on"),
			}
			c.Spare = rapid.IntRange(0, 8).Draw(t, "spare")
			switch c.Kind {
			case 1:
				c.Level = genLevel().Draw(t, "level")
				if math.IsInf(c.Level, 0) {
					c.Level = math.Copysign(1e308, c.Level) // JSON has no infinity
				}
			case 2:
				c.Data = rapid.OneOf(genBytes(0, 8), genLong(240)).Draw(t, "data")
			}
			if rapid.Bool().Draw(t, "wrap") {
				c.Endpoint = rapid.IntRange(1, 127).Draw(t, "endpoint")
			}
			return c
		},
		func(c c05, r *R) {
			var cmd encoder
			var want []byte
			data := append(make([]byte, 0, len(c.Data)+c.Spare), c.Data...)
			switch c.Kind {
			case 0:
				s := commands.NewSwitchBinary()
				s.SetNode(c.Node2)
				s.SetValue(!c.On)
				s.SetValue(c.On).SetNode(c.Node)
				cmd = s
				v := byte(0)
				if c.On {
					v = 0xff
				}
				want = []byte{fnSendData, byte(c.Node), 3, ccSwitchBinary, 1, v, 0x25}
			case 1:
				s := commands.NewSwitchMultilevel()
				s.SetNode(c.Node2)
				s.SetValue(50)
				s.SetValue(c.Level).SetNode(c.Node)
				cmd = s
				want = []byte{fnSendData, byte(c.Node), 3, ccMultilevel, 1, refLevel(c.Level), 0x25}
				r.Nontrivial(c.Level != math.Trunc(c.Level) || c.Level < 0 || c.Level > 99)
				r.LabelIf(c.Level < 0, "negative level")
				r.LabelIf(c.Level > 99, "level above 99")
				r.LabelIf(c.Level != math.Trunc(c.Level), "fractional level")
			case 2:
				s := commands.NewRaw(data)
				s.SetNode(c.Node2)
				s.SetNode(c.Node)
				cmd = s
				want = append([]byte{fnSendData, byte(c.Node), byte(len(c.Data) + 1)}, c.Data...)
			}
			got := cmd.Encode()
			if !bytes.Equal(got, want) {
				r.Failf("the command of kind %d encodes as %x, should be %x", c.Kind, got, want)
				return
			}
			if again := cmd.Encode(); !bytes.Equal(again, want) {
				r.Failf("encoding a second time gives %x instead of %x", again, want)
			}
			if c.Endpoint > 0 {
				r.Nontrivial(true)
				r.Label("wrapped")
				inner := append(make([]byte, 0, len(got)+c.Spare), got...)
				m := commands.NewMultiChannelEncap(inner, c.Endpoint)
				wrapped := append([]byte{want[0], want[1], want[2] + 4, ccMultiChannel, 0x0d, 1, byte(c.Endpoint)}, want[3:]...)
				first := m.Encode()
				for i := 0; i < 2; i++ {
					if w := m.Encode(); !bytes.Equal(w, wrapped) {
						r.Failf("%x for endpoint %d encodes as %x, should be %x (call %d)", want, c.Endpoint, w, wrapped, i+1)
					}
				}
				commands.NewMultiChannelEncap(commands.NewSwitchBinary().SetNode(c.Node+1).Encode(), c.Endpoint+1).Encode()
				if !bytes.Equal(first, wrapped) {
					r.Failf("encoding another command changed %x to %x", wrapped, first)
				}
				if !bytes.Equal(inner, want) {
					r.Failf("wrapping %x changed it to %x", want, inner)
				}
			}
			// Another command does not change what this one was encoded as
			other := commands.NewRaw(bytes.Repeat([]byte{0x5a}, len(c.Data)+1))
			other.SetNode(c.Node + 1)
			other.Encode()
			commands.NewMultiChannelEncap(commands.NewSwitchBinary().SetNode(c.Node+1).Encode(), c.Endpoint+1).Encode()
			commands.NewSwitchMultilevel().SetNode(c.Node + 1).SetValue(77).Encode()
			if !bytes.Equal(got, want) {
				r.Failf("encoding another command changed %x to %x", want, got)
			}
			if !bytes.Equal(data, c.Data) {
				r.Failf("encoding changed the data %x to %x", []byte(c.Data), data)
			}
		})
}
