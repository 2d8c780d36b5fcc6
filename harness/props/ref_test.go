package props

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
)

// The reference: what the serial API and the Z-Wave command classes say, written
// down independently of the code under test.

const (
	ack byte = 0x06
	nak byte = 0x15
	can byte = 0x18
	sof byte = 0x01

	fnDiscovery    byte = 0x02
	fnReport       byte = 0x04
	fnSendData     byte = 0x13
	fnProtocolInfo byte = 0x41

	ccSwitchBinary byte = 0x25
	ccMultilevel   byte = 0x26
	ccSensorBinary byte = 0x30
	ccSensor       byte = 0x31
	ccMultiChannel byte = 0x60
	ccAlarm        byte = 0x71
	ccManufacturer byte = 0x72
	ccWakeUp       byte = 0x84
)

func xorAll(b []byte) (x byte) {
	for _, v := range b {
		x ^= v
	}
	return
}

// refFrame frames type, function and payload.
func refFrame(content []byte) []byte {
	f := []byte{sof, byte(len(content) + 1)}
	f = append(f, content...)
	return append(f, 0xFF^xorAll(f[1:]))
}

// refRequest frames what is given to the library to send.
func refRequest(body []byte) []byte {
	return refFrame(append([]byte{0x00}, body...))
}

// reportFrame is a report of a node: class, command, values.
func reportFrame(node byte, payload []byte) []byte {
	return refFrame(append([]byte{0x00, fnReport, 0x00, node, byte(len(payload))}, payload...))
}

func discoveryFrame(bitmap []byte) []byte {
	c := append([]byte{0x01, fnDiscovery, 0x05, 0x00, byte(len(bitmap))}, bitmap...)
	return refFrame(append(c, 0x05, 0x00))
}

func protocolInfoFrame(info []byte) []byte {
	return refFrame(append([]byte{0x01, fnProtocolInfo}, info...))
}

// refLength is what decoding says about the start of data: its kind and length.
func refLength(data []byte) int {
	switch data[0] {
	case ack, nak, can:
		return 1
	case sof:
		if len(data) < 2 {
			return 2
		}
		n := int(data[1]) + 2
		if len(data) < n {
			return n
		}
		if n < 3 || xorAll(data[1:n]) != 0xFF {
			return -1
		}
		return n
	}
	return -1
}

// refReport is the meaning of a report.
type refReport struct {
	kind   string
	on     bool
	target bool
	valid  bool
	tvalid bool
	level  float64
	tlevel float64
	dur    byte

	sensor, scale, precision, size byte
	value                          float64
	anyValue                       bool // a size that has no meaning
	typ, unit                      string

	alarm [6]byte
	ids   [3]string

	dynamic, identical bool
	endpoints          int
}

type sensorType struct {
	name  string
	units [4]string
}

func units(u ...string) (r [4]string) {
	copy(r[:], u)
	return
}

func always(u string) [4]string { return [4]string{u, u, u, u} }

var sensorTypes = map[byte]sensorType{
	1: {"Temperature", units("C", "F")}, 2: {"General", units("%")}, 3: {"Luminance", units("%", "lux")},
	4: {"Power", units("W", "BTU/h")}, 5: {"RelativeHumidity", units("%")}, 6: {"Velocity", units("m/s", "mph")},
	7: {"Direction", units()}, 8: {"AtmosphericPressure", units("kPa", "inHg")}, 9: {"BarometricPressure", units("kPa", "inHg")},
	10: {"SolarRadiation", always("W/m2")}, 11: {"DewPoint", units("C", "F")}, 12: {"RainRate", units("mm/h", "in/h")},
	13: {"TideLevel", units("m", "ft")}, 14: {"Weight", units("kg", "lb")}, 15: {"Voltage", units("V", "mV")},
	16: {"Current", units("A", "mA")}, 17: {"CO2", always("ppm")}, 18: {"AirFlow", units("m3/h", "cfm")},
	19: {"TankCapacity", units("l", "cbm", "gal")}, 20: {"Distance", units("m", "cm", "ft")},
	21: {"AnglePosition", units("%", "deg N", "deg S")}, 22: {"Rotation", units("rpm", "hz")},
	23: {"WaterTemperature", units("C", "F")}, 24: {"SoilTemperature", units("C", "F")},
	25: {"SeismicIntensity", units("mercalli", "EU macroseismic", "liedu", "shindo")},
	26: {"SeismicMagnitude", units("local", "moment", "surface wave", "body wave")}, 27: {"Ultraviolet", units()},
	28: {"ElectricalResistivity", always("ohm")}, 29: {"ElectricalConductivity", always("siemens/m")},
	30: {"Loudness", units("db", "dBA")}, 31: {"Moisture", units("%", "content", "k ohm", "water activity")},
}

func capLevel(b byte) float64 {
	if b > 100 {
		return 100
	}
	return float64(b)
}

// refDecode returns the meaning of a report, or nil if it has none.
func refDecode(class, cmd byte, d []byte) *refReport {
	switch {
	case class == ccAlarm && cmd == 0x05:
		if len(d) < 2 {
			return nil
		}
		r := &refReport{kind: "alarm"}
		r.alarm[0], r.alarm[1] = d[0], d[1]
		if len(d) >= 6 {
			copy(r.alarm[:], d[:6])
		}
		return r
	case class == ccManufacturer && cmd == 0x05:
		if len(d) != 6 {
			return nil
		}
		r := &refReport{kind: "manufacturer"}
		for i := range r.ids {
			r.ids[i] = fmt.Sprintf("%02x%02x", d[2*i], d[2*i+1])
		}
		return r
	case class == ccMultiChannel && cmd == 0x08:
		if len(d) < 2 {
			return nil
		}
		return &refReport{kind: "endpoints", dynamic: d[0]>>7 == 1, identical: d[0]>>6&1 == 1, endpoints: int(d[1])}
	case class == ccSensor && cmd == 0x05:
		if len(d) < 2 || len(d) < 2+int(d[1]%8) {
			return nil
		}
		r := &refReport{kind: "sensor", sensor: d[0], size: d[1] % 8, scale: d[1] / 8 % 4, precision: d[1] / 32}
		var v int64
		for _, b := range d[2 : 2+int(r.size)] {
			v = v<<8 | int64(b)
		}
		switch r.size {
		case 0, 1, 2, 4:
			if r.size > 0 && d[2] >= 0x80 {
				v -= 1 << (8 * r.size)
			}
			r.value = float64(v)
			for i := byte(0); i < r.precision; i++ {
				r.value /= 10
			}
		default:
			r.anyValue = true
		}
		if t, ok := sensorTypes[r.sensor]; ok {
			r.typ, r.unit = t.name, t.units[r.scale]
		} else {
			r.typ = fmt.Sprintf("Unknown (%d)", r.sensor)
		}
		return r
	case class == ccSwitchBinary && cmd == 0x03 && len(d) == 1:
		return &refReport{kind: "binary1", on: d[0] == 0xFF, valid: d[0] != 0xFE}
	case class == ccSwitchBinary && cmd == 0x03 && len(d) == 3:
		return &refReport{kind: "binary2", on: d[0] != 0, target: d[1] != 0, dur: d[2], valid: true}
	case class == ccMultilevel && cmd == 0x03 && len(d) == 1:
		return &refReport{kind: "level1", level: capLevel(d[0]), valid: d[0] != 0xFE}
	case class == ccMultilevel && cmd == 0x03 && len(d) == 3:
		return &refReport{kind: "level4", level: capLevel(d[0]), valid: d[0] != 0xFE, tlevel: capLevel(d[1]), tvalid: d[1] != 0xFE, dur: d[2]}
	case class == ccWakeUp:
		return &refReport{kind: "wakeup"}
	}
	return nil
}

func close2(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// differs compares a decoded report with what it means, "" if it is the same.
func (r *refReport) differs(got reports.Report) string {
	bad := func(what string, want, have interface{}) string {
		return fmt.Sprintf("%s of the %s report is %v, should be %v", what, r.kind, have, want)
	}
	switch g := got.(type) {
	case *reports.Alarm:
		have := [6]byte{g.Type, g.Level, g.SensorSourceID, g.Status, g.SensorType, g.Event}
		if r.kind != "alarm" || g == nil {
			break
		}
		if have != r.alarm {
			return bad("type, level, source, status, sensor type, event", r.alarm, have)
		}
		return ""
	case *reports.ManufacturerSpecific:
		if r.kind != "manufacturer" || g == nil {
			break
		}
		if have := [3]string{g.Manufacturer, g.Type, g.ID}; have != r.ids {
			return bad("manufacturer, type, id", r.ids, have)
		}
		return ""
	case *reports.MultiChannelEndpoints:
		if r.kind != "endpoints" || g == nil {
			break
		}
		if g.Dynamic != r.dynamic {
			return bad("dynamic", r.dynamic, g.Dynamic)
		}
		if g.Identical != r.identical {
			return bad("identical", r.identical, g.Identical)
		}
		if g.Endpoints != r.endpoints {
			return bad("number of endpoints", r.endpoints, g.Endpoints)
		}
		return ""
	case *reports.SensorMultiLevel:
		if r.kind != "sensor" || g == nil {
			break
		}
		if byte(g.ValueType) != r.sensor || g.Size != r.size || g.Scale != r.scale || g.Precision != r.precision {
			return bad("type, size, scale, precision", []byte{r.sensor, r.size, r.scale, r.precision}, []byte{byte(g.ValueType), g.Size, g.Scale, g.Precision})
		}
		if !r.anyValue && !close2(g.Value, r.value) {
			return bad("value", r.value, g.Value)
		}
		if g.TypeString != r.typ || g.Unit != r.unit {
			return bad("name and unit", r.typ+"/"+r.unit, g.TypeString+"/"+g.Unit)
		}
		return ""
	case *reports.SwitchBinaryV1:
		if r.kind != "binary1" || g == nil {
			break
		}
		if g.CurrentValue != r.on || g.Valid != r.valid {
			return bad("value, valid", []bool{r.on, r.valid}, []bool{g.CurrentValue, g.Valid})
		}
		return ""
	case *reports.SwitchBinaryV2:
		if r.kind != "binary2" || g == nil {
			break
		}
		if g.CurrentValue != r.on || g.TargetValue != r.target || byte(g.Duration) != r.dur {
			return bad("value, target, duration", []interface{}{r.on, r.target, r.dur}, []interface{}{g.CurrentValue, g.TargetValue, byte(g.Duration)})
		}
		return ""
	case *reports.SwitchMultilevelV1:
		if r.kind != "level1" || g == nil {
			break
		}
		if g.CurrentValue != r.level || g.Valid != r.valid {
			return bad("level, valid", []interface{}{r.level, r.valid}, []interface{}{g.CurrentValue, g.Valid})
		}
		return ""
	case *reports.SwitchMultilevelV4:
		if r.kind != "level4" || g == nil {
			break
		}
		want := []interface{}{r.level, r.valid, r.tlevel, r.tvalid, r.dur}
		have := []interface{}{g.CurrentValue, g.Valid, g.TargetValue, g.TargetValid, byte(g.Duration)}
		for i := range want {
			if want[i] != have[i] {
				return bad("level, valid, target, target valid, duration", want, have)
			}
		}
		return ""
	case *reports.WakeUp:
		if r.kind == "wakeup" && g != nil {
			return ""
		}
	}
	return fmt.Sprintf("the report decodes as a %T, should be of kind %s", got, r.kind)
}

// stateKey is the name of a sensor value in the state of a node.
func (r *refReport) stateKey() string { return strings.ToLower(r.typ + "_" + r.unit) }

// refDuration is the meaning of a duration byte, ok is false for factory default.
func refDuration(b byte) (d time.Duration, ok bool) {
	switch {
	case b < 0x80:
		return time.Duration(b) * time.Second, true
	case b < 0xFE:
		return time.Duration(int(b)-0x7F) * time.Minute, true
	}
	return 0, false
}

// refInfo is the meaning of a protocol info.
type refInfo struct {
	listening, routing, beaming, flirs, security bool
	version                                      byte
	baud                                         int
	basic, generic, specific                     byte
}

func refProtocolInfo(p []byte) (i refInfo) {
	bit := func(b byte, n uint) bool { return b>>n&1 == 1 }
	i.listening, i.routing = bit(p[0], 7), bit(p[0], 6)
	i.version = p[0]%8 + 1
	i.baud = 9600
	if p[0]>>3&7 == 2 {
		i.baud = 40000
	}
	i.flirs = bit(p[1], 6) || bit(p[1], 5)
	i.beaming = bit(p[1], 4)
	i.security = bit(p[1], 0)
	i.basic, i.generic = p[3], p[4]
	if len(p) > 5 {
		i.specific = p[5]
	}
	return
}
