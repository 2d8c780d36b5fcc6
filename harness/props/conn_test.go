package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
	"pgregory.net/rapid"
)

// ---- C08, C09, C10, C11: histories of requests against a simulated stick

// connCase is one history. All times are in milliseconds. The parts of it get
// different fractions of a millisecond, so that no two independent things happen
// at the same instant: what happens then is up to the scheduler.
type connCase struct {
	Callers [][]connReq
	Line    []connFeed // received whatever happens
	Loss    []connLoss
	Before  int   `json:",omitempty"` // commands and requests before
	IDs     []int `json:",omitempty"` // of the nodes 2, 3, 4 and 5
	Poll    int   `json:",omitempty"` // reads return without bytes after so many ms
}

type connReq struct {
	At      int    // not called before this
	Kind    string // cmd, report, msg, pi, disc
	Node    byte
	Class   byte
	Report  byte
	Timeout int
	Await   bool // wait for the answer before the next call
	Long    int  // more bytes in the command
	Leaves  bool `json:",omitempty"` // does not wait for its answer any more
	Leave   int  `json:",omitempty"` // after so long
	Behave  []connBehave
}

// connBehave is how the stick treats a command
type connBehave struct {
	Result  byte // ack, nak, can or 0
	Delay   int
	Answers []connFeed
	Noise   Hex // received right before the result, in the same read
	Merge   int // 1: the first answer is received right after the result, in the same read, 2: right before it
	Cut     int // the rest of the read comes 20 ms later
	Stall   int `json:",omitempty"` // so long takes the writing of the command
}

// read is what is received at the time of the result, and the answers to come later
func (b connBehave) read() (first []byte, later []connFeed) {
	later = b.Answers
	first = append(first, b.Noise...)
	if b.Result == 0 {
		return
	}
	if b.Merge == 2 && len(later) > 0 {
		first = append(first, later[0].Frame...)
	}
	first = append(first, b.Result)
	if b.Merge == 1 && len(later) > 0 {
		first = append(first, later[0].Frame...)
	}
	if b.Merge > 0 && len(later) > 0 {
		later = later[1:]
	}
	return
}

type connFeed struct {
	After int
	Frame Hex
}

type connLoss struct {
	At      int
	Partial Hex // received right before
	Fails   int // how often it can not be opened again
	Kind    int // of the errors
}

const (
	fracFeed = 337 * time.Microsecond
)

// fracOf is a fraction of a millisecond of its own for every thing the stick does.
func fracOf(request, attempt, what int) time.Duration {
	h := uint64(request)*1000003 + uint64(attempt)*10007 + uint64(what)*101 + 12345
	h ^= h << 13
	h ^= h >> 7
	h ^= h << 17
	return time.Duration(50000 + (h*2654435761>>8)%900000)
}

var connClasses = []byte{ccSwitchBinary, ccMultilevel, ccSensor, ccAlarm, ccManufacturer, ccMultiChannel, ccWakeUp}
var connReports = map[byte]byte{ccSwitchBinary: 3, ccMultilevel: 3, ccSensor: 5, ccAlarm: 5, ccManufacturer: 5, ccMultiChannel: 8, ccWakeUp: 7}

// genReportFor makes a report frame that can be decoded, unless bad.
func genReportFor(t *rapid.T, node, class byte, bad bool) []byte {
	cmd := connReports[class]
	var d []byte
	switch class {
	case ccSwitchBinary, ccMultilevel:
		n := rapid.SampledFrom([]int{1, 3}).Draw(t, "n")
		if bad {
			n = 2
		}
		d = genBytes(n, n).Draw(t, "value")
	case ccSensor:
		d = append([]byte{rapid.ByteRange(1, 31).Draw(t, "sensor"), 0x22}, genBytes(2, 2).Draw(t, "value")...)
		if bad {
			d = d[:3]
		}
	case ccAlarm:
		d = genBytes(6, 6).Draw(t, "alarm")
		if bad {
			d = d[:1]
		}
	case ccManufacturer:
		d = genBytes(6, 6).Draw(t, "ids")
		if bad {
			d = d[:5]
		}
	case ccMultiChannel:
		d = genBytes(2, 2).Draw(t, "endpoints")
		if bad {
			d = d[:1]
		}
	case ccWakeUp:
		cmd = rapid.SampledFrom([]byte{7, 6}).Draw(t, "cmd")
		if bad {
			return refFrame([]byte{0, fnReport, 0, node, 9, class, cmd}) // The length lies
		}
		d = genBytes(0, 2).Draw(t, "wakeup")
	}
	return reportFrame(node, append([]byte{class, cmd}, d...))
}

func genInfo(t *rapid.T) []byte { return protocolInfoFrame(genBytes(6, 6).Draw(t, "info")) }

func genEmptyDiscovery(t *rapid.T) []byte { return discoveryFrame(make([]byte, 29)) }

// genConnFrame makes a frame that could be taken for the answer of a request.
func genConnFrame(t *rapid.T, q connReq) []byte {
	right := q.Class
	switch rapid.SampledFrom([]string{"answer", "answer", "answer", "answer", "node", "class", "report", "bad", "pi", "disc", "status", "callback", "unknown", "badpi", "short"}).Draw(t, "frame") {
	case "answer":
		switch q.Kind {
		case "pi":
			return genInfo(t)
		case "disc":
			return discoveryFrame(genBytes(29, 29).Draw(t, "bitmap"))
		}
		return genReportFor(t, q.Node, right, false)
	case "node":
		return genReportFor(t, q.Node%4+2, right, false)
	case "class":
		return genReportFor(t, q.Node, rapid.SampledFrom(connClasses).Draw(t, "class"), false)
	case "report":
		// Another report of the class, which can not be decoded, or not have been asked for
		return reportFrame(q.Node, append([]byte{right, rapid.ByteRange(1, 9).Draw(t, "report")}, genBytes(0, 3).Draw(t, "data")...))
	case "bad":
		return genReportFor(t, q.Node, right, true)
	case "pi":
		return genInfo(t)
	case "short": // It ends before what tells whose answer it is
		f := []byte{0, fnReport, 0, q.Node, 3, right, q.Report}
		return refFrame(f[:rapid.IntRange(2, len(f)).Draw(t, "len")])
	case "badpi":
		return protocolInfoFrame(genBytes(0, 4).Draw(t, "info"))
	case "disc":
		return discoveryFrame(genBytes(29, 29).Draw(t, "bitmap"))
	case "status":
		return refFrame([]byte{0x01, fnSendData, rapid.SampledFrom([]byte{0, 1}).Draw(t, "ok")})
	case "callback":
		// A transmission status, which may have the right bytes where a report has them
		return refFrame([]byte{0x00, fnSendData, q.Report, q.Node, 0x03, q.Class, q.Report, 0x00})
	}
	return refFrame(append([]byte{rapid.ByteRange(0, 1).Draw(t, "type"), rapid.SampledFrom([]byte{0x15, 0x49, 0x20, 0x16}).Draw(t, "fn"), 0, q.Node, 2, q.Class, q.Report}, genBytes(0, 3).Draw(t, "args")...))
}

// genLineNoise makes a few bytes that are no frame, mostly.
func genLineNoise() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 5).Draw(t, "noise") {
		case 0:
			return genBytes(1, 5).Draw(t, "bytes")
		case 1:
			return []byte{sof, rapid.ByteRange(0, 6).Draw(t, "len")}
		case 2:
			f := genNodeFrame().Draw(t, "frame")
			f[rapid.IntRange(0, len(f)-1).Draw(t, "at")] ^= rapid.ByteMin(1).Draw(t, "xor")
			return f
		case 3:
			f := genNodeFrame().Draw(t, "frame")
			return f[:rapid.IntRange(1, len(f)).Draw(t, "cut")]
		}
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0xff, 0xf0, 0x02, 0x55, 0x80}), 1, 4).Draw(t, "bytes")
	})
}

type connWeights struct {
	callers, requests int
	results           []byte
	answers           int
	maxTimeout        int
	losses            int
	line              int
	kinds             []string
	delays            []int
	noLoss, rareLoss  bool
	noise             int // how many of 12 reads have noise in them
}

// answersTo returns the kinds of requests to nodes that get an answer
func (w connWeights) answersTo() (k []string) {
	for _, kind := range w.kinds {
		if kind == "report" || kind == "msg" {
			k = append(k, kind)
		}
	}
	return
}

func genConn(w connWeights) func(t *rapid.T) connCase {
	return func(t *rapid.T) connCase {
		var c connCase
		// Requests are more likely to be mistaken for each other when they are alike
		theme := rapid.SampledFrom([]string{"", "", "pi", "same", "node"}).Draw(t, "theme")
		if len(w.answersTo()) == 0 {
			theme = ""
		}
		themeNode, themeClass := rapid.ByteRange(2, 5).Draw(t, "theme node"), rapid.SampledFrom(connClasses).Draw(t, "theme class")
		if rapid.IntRange(0, 29).Draw(t, "long life") == 17 {
			c.Before = rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(240, 270), rapid.IntRange(250, 257)).Draw(t, "before")
			if len(w.answersTo()) > 0 {
				theme = rapid.SampledFrom([]string{"pi", "same", "node"}).Draw(t, "theme")
			}
		}
		if rapid.Bool().Draw(t, "other nodes") {
			c.IDs = rapid.SliceOfNDistinct(rapid.OneOf(rapid.IntRange(1, 232), rapid.SampledFrom([]int{1, 2, 127, 128, 129, 130, 131, 132, 133, 232})), 4, 4, rapid.ID[int]).Draw(t, "ids")
		}
		many := rapid.IntRange(0, 39).Draw(t, "many") == 17
		callers := rapid.IntRange(1, w.callers).Draw(t, "callers")
		for i := 0; i < callers; i++ {
			nreqs := rapid.IntRange(1, w.requests).Draw(t, "requests")
			if many {
				nreqs = rapid.IntRange(5, 25).Draw(t, "many requests")
			}
			reqs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) connReq {
				q := connReq{
					At:      rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 400), rapid.IntRange(0, 4000)).Draw(t, "at"),
					Kind:    rapid.SampledFrom(w.kinds).Draw(t, "kind"),
					Node:    rapid.ByteRange(2, 5).Draw(t, "node"),
					Class:   rapid.SampledFrom(connClasses).Draw(t, "class"),
					Timeout: rapid.OneOf(rapid.IntRange(1, 400), rapid.IntRange(200, w.maxTimeout), rapid.IntRange(200, w.maxTimeout), rapid.SampledFrom([]int{0, 1, 400, 1000, -1})).Draw(t, "timeout"),
					Await:   rapid.IntRange(0, 3).Draw(t, "await") == 0,
				}
				if many {
					q.At, q.Await = q.At/10, q.Await && rapid.IntRange(0, 9).Draw(t, "await too") == 0
					if rapid.Bool().Draw(t, "patient") {
						q.Timeout = rapid.OneOf(rapid.IntRange(2000, 15000), rapid.IntRange(2000, 15000), rapid.IntRange(15000, 120000), rapid.IntRange(60000, 7200000)).Draw(t, "long timeout")
					}
				}
				if rapid.IntRange(0, 39).Draw(t, "very patient") == 17 {
					q.Timeout = rapid.OneOf(rapid.IntRange(3000, 130000), rapid.IntRange(60000, 7200000)).Draw(t, "very long timeout")
				}
				if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
					q.Long = rapid.IntRange(1, 150).Draw(t, "more")
				}
				if theme != "" && rapid.IntRange(0, 4).Draw(t, "themed") > 0 {
					switch theme {
					case "pi":
						q.Kind = "pi"
					case "same":
						q.Kind = rapid.SampledFrom(w.answersTo()).Draw(t, "kind")
						q.Node, q.Class = themeNode, themeClass
					case "node":
						q.Node = themeNode
					}
				}
				q.Report = connReports[q.Class]
				if rapid.IntRange(0, 4).Draw(t, "any") == 0 {
					q.Report = 0
				}
				q.Behave = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) connBehave {
					b := connBehave{
						Result: rapid.SampledFrom(w.results).Draw(t, "result"),
						Delay:  rapid.SampledFrom(w.delays).Draw(t, "delay"),
					}
					if w.answers > 0 {
						b.Answers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) connFeed {
							return connFeed{
								rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 500), rapid.IntRange(1, w.maxTimeout+300)).Draw(t, "after"),
								genConnFrame(t, q),
							}
						}), 0, w.answers).Draw(t, "answers")
					}
					if len(b.Answers) > 0 {
						b.Merge = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "merge")
					}
					if w.noise > 0 && rapid.IntRange(0, 11).Draw(t, "noisy") < w.noise {
						b.Noise = genLineNoise().Draw(t, "noise")
						b.Cut = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5, 8}).Draw(t, "cut")
					}
					if rapid.IntRange(0, 19).Draw(t, "stall") == 17 && b.Result != 0 && b.Delay < 800 {
						b.Stall, b.Noise, b.Cut = rapid.OneOf(rapid.IntRange(1, 100), rapid.IntRange(100, 5000)).Draw(t, "for"), nil, 0
					}
					return b
				}), 0, 4).Draw(t, "behave")
				if q.Kind != "cmd" && q.Kind != "pi" && rapid.IntRange(0, 19).Draw(t, "leaves") == 17 {
					q.Leaves, q.Await = true, false
					q.Leave = rapid.SampledFrom([]int{0, 0, 50, 100, 200}).Draw(t, "leave")
				}
				if !many && rapid.IntRange(0, 59).Draw(t, "stubborn") == 17 {
					for n := rapid.IntRange(1, 30).Draw(t, "times"); n > 0; n-- {
						q.Behave = append([]connBehave{{Result: can, Delay: 3}}, q.Behave...)
					}
				}
				return q
			}), nreqs, nreqs).Draw(t, "list")
			c.Callers = append(c.Callers, reqs)
		}
		if w.line > 0 {
			c.Line = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) connFeed {
				q := rapid.SampledFrom(c.Callers[0]).Draw(t, "for")
				return connFeed{rapid.IntRange(0, 5000).Draw(t, "after"), genConnFrame(t, q)}
			}), 0, w.line).Draw(t, "line")
		}
		if w.losses > 0 && (!w.rareLoss || rapid.IntRange(0, 4).Draw(t, "loses") == 3) {
			min := 1
			if w.noLoss {
				min = 0
			}
			n := rapid.IntRange(min, w.losses).Draw(t, "losses")
			at := rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 6000)).Draw(t, "at")
			for i := 0; i < n; i++ {
				l := connLoss{
					At:      at,
					Partial: rapid.SampledFrom([]Hex{nil, nil, {0x01}, {0x01, 0x20, 0x00}, {0x01, 0x0c, 0x00, 0x04}}).Draw(t, "partial"),
					Fails:   rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 2, 5, 5, 15}).Draw(t, "fails"),
					Kind:    rapid.IntRange(0, 19).Draw(t, "kind"),
				}
				c.Loss = append(c.Loss, l)
				// The next one around the time when it is open again, or later
				at += 1000*(l.Fails+1) + rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 3000)).Draw(t, "after")
			}
			if len(c.Loss) > 0 { // Whose result comes when the command was not written is not clear
				for _, reqs := range c.Callers {
					for i := range reqs {
						for k := range reqs[i].Behave {
							reqs[i].Behave[k].Stall = 0
						}
					}
				}
			}
		}
		c.Poll = genPoll(t)
		for _, reqs := range c.Callers {
			for _, q := range reqs {
				if q.Timeout > 10000 && c.Poll > 0 { // Not too many reads
					c.Poll = 1000
				}
			}
		}
		return c
	}
}

// connRun is what has been observed of one request.
type connRun struct {
	q       connReq
	caller  int
	index   int // in its caller
	n       int // of all
	body    []byte
	frame   []byte
	mu      sync.Mutex
	called  time.Duration
	back    time.Duration // the call has returned, or -1
	callErr error
	gotAt   []time.Duration
	got     []interface{}
	closed  time.Duration // or -1
	nilChan bool
	late    func() // looks at the channel again

	writes []*write
	// The model
	open     bool
	acked    bool
	order    int
	deadline time.Duration
	cans     []time.Duration
	mClosed  time.Duration // or -1
	mWhy     string
	mFrame   []byte
}

func (x *connRun) timeout() time.Duration {
	if x.q.Timeout <= 0 { // At once
		return time.Duration(x.q.Timeout) * time.Millisecond
	}
	return time.Duration(x.q.Timeout)*time.Millisecond + fracOf(x.n, 101, 0)
}

func (x *connRun) hasAnswer() bool { return x.q.Kind != "cmd" }

func (x *connRun) set(f func()) {
	x.mu.Lock()
	defer x.mu.Unlock()
	f()
}

// answeredBy says if a frame is the answer of a request.
func (x *connRun) answeredBy(f []byte) bool {
	cs := len(f) - 1
	at := func(i int, b byte) bool { return i < cs && f[i] == b }
	switch x.q.Kind {
	case "pi":
		return at(3, fnProtocolInfo)
	case "disc":
		return at(3, fnDiscovery)
	}
	return at(3, fnReport) && at(5, x.q.Node) && at(7, x.q.Class) && (x.q.Kind == "msg" || x.q.Report == 0 || at(8, x.q.Report))
}

// contentDiffers compares what was delivered with a frame.
func contentDiffers(got interface{}, f []byte) string {
	switch g := got.(type) {
	case *serialapi.Message:
		if g == nil {
			return "nil was delivered"
		}
		if byte(g.Function) != f[3] {
			return sprintf("a message of function %02x was delivered", byte(g.Function))
		}
		switch d := g.Data.(type) {
		case *serialapi.FuncApplicationCommandHandler:
			if f[3] != fnReport || g.NodeID != f[5] {
				return "a report of another node was delivered"
			}
			return contentDiffers(d.Report, f)
		case *serialapi.FuncGetNodeProtocolInfo:
			if f[3] != fnProtocolInfo {
				return "a protocol info was delivered"
			}
			return infoDiffers(refProtocolInfo(f[4:len(f)-1]), d)
		case *serialapi.DiscoverdNodes:
			if f[3] != fnDiscovery {
				return "a node list was delivered"
			}
			for i, a := range d.ActiveNodes {
				if want := i/8 < int(f[6]) && f[7+i/8]>>(i%8)&1 == 1; want != a {
					return sprintf("another node list was delivered, it differs at node %d", i+1)
				}
			}
			return ""
		}
		return sprintf("a %T was delivered", g.Data)
	case reports.Report:
		if f[3] != fnReport {
			return sprintf("a %T was delivered", got)
		}
		return refDecode(f[7], f[8], f[9:7+int(f[6])]).differs(g)
	}
	return sprintf("%v was delivered", got)
}

// connJudge says what counts as a failure in a run: aspect to message.
type connJudge struct {
	r      *R
	aspect string
}

func (j connJudge) fail(aspect, format string, a ...interface{}) {
	// A port that was lost makes no difference to the commands
	if aspect == j.aspect || j.aspect == "any" || j.aspect == "C11" && aspect == "C10" {
		j.r.Failf(format, a...)
	}
}

const outstandingFor = time.Second

// with gives the nodes other ids.
func (c connCase) with(ids []int) connCase {
	id := func(n byte) byte {
		if n >= 2 && int(n) < 2+len(ids) {
			return byte(ids[n-2])
		}
		return n
	}
	feeds := func(l []connFeed) (m []connFeed) {
		for _, f := range l {
			m = append(m, connFeed{f.After, readdressed(f.Frame, id)})
		}
		return
	}
	callers := c.Callers
	c.Callers = nil
	for _, reqs := range callers {
		reqs = append([]connReq(nil), reqs...)
		for i := range reqs {
			q := &reqs[i]
			q.Node = id(q.Node)
			q.Behave = append([]connBehave(nil), q.Behave...)
			for k := range q.Behave {
				q.Behave[k].Answers = feeds(q.Behave[k].Answers)
			}
		}
		c.Callers = append(c.Callers, reqs)
	}
	c.Line = feeds(c.Line)
	return c
}

// readdressed is a frame with the node that has sent it replaced.
func readdressed(f []byte, id func(byte) byte) []byte {
	if len(f) > 6 && refLength(f) == len(f) && f[3] != fnProtocolInfo && f[3] != fnDiscovery && id(f[5]) != f[5] {
		b := append([]byte(nil), f[2:len(f)-1]...)
		b[3] = id(b[3])
		return refFrame(b)
	}
	return f
}

func runConn(c connCase, r *R, aspect string) {
	j := connJudge{r, aspect}
	if len(c.IDs) > 0 {
		c = c.with(c.IDs)
	}
	r.LabelIf(c.Poll > 0, "reads without bytes")
	bubble(r, func() {
		s := newSim(r)
		s.polls(c.Poll)
		con := s.connect("")
		if con == nil {
			return
		}
		// The request of the node list
		wait(100)
		s.feed(ack)
		s.feed(discoveryFrame(make([]byte, 29))...)
		wait(200)
		if n := len(s.commands()); n != 1 {
			r.Failf("after connecting %d commands were written instead of 1", n)
			return
		}

		s.live(con, c.Before, r)
		runs := map[string]*connRun{}
		var all []*connRun
		n := 0
		for ci, reqs := range c.Callers {
			for qi, q := range reqs {
				x := &connRun{q: q, caller: ci, index: qi, n: n, called: -1, back: -1, closed: -1, mClosed: -1}
				tag := []byte{byte(n >> 8), byte(n)}
				n++
				switch q.Kind {
				case "pi":
					x.body = []byte{fnProtocolInfo, q.Node, tag[0], tag[1]}
				case "disc":
					x.body = []byte{fnDiscovery, 0, tag[0], tag[1]}
				default:
					p := append([]byte{q.Class, 0x02, tag[0], tag[1]}, make([]byte, q.Long)...)
					p = append(p, 0x25)
					x.body = append([]byte{fnSendData, q.Node, byte(len(p) + 1)}, p...)
				}
				x.frame = refRequest(x.body)
				runs[string(x.frame)] = x
				all = append(all, x)
			}
		}
		r.Evals(len(all) - 1)

		s.clear()
		base := s.now()
		at := func(ms int, frac time.Duration) time.Duration {
			return base + time.Duration(ms)*time.Millisecond + frac - s.now()
		}

		// The stick
		attempts := map[*connRun]int{}
		s.onCommand = func(w *write) {
			x := runs[string(w.frame)]
			if x == nil {
				s.feed(ack)
				return
			}
			b := connBehave{Result: ack, Delay: 3}
			if k := attempts[x]; k < len(x.q.Behave) {
				b = x.q.Behave[k]
			}
			try := attempts[x]
			attempts[x]++
			if b.Stall > 0 {
				r.Label("writing takes long")
				w.stall = time.Duration(b.Stall)*time.Millisecond + fracOf(x.n, try, 50)
			}
			first, later := b.read()
			if len(first) > 0 {
				cut := len(first)
				if b.Cut > 0 && b.Cut < cut {
					cut = b.Cut
					r.Label("read in two parts")
				}
				d := time.Duration(b.Delay)*time.Millisecond + fracOf(x.n, try, 0)
				time.AfterFunc(d, func() { s.feed(first[:cut]...) })
				if cut < len(first) {
					time.AfterFunc(d+20*time.Millisecond, func() { s.feed(first[cut:]...) })
				}
			}
			for i, a := range later {
				a := a
				time.AfterFunc(time.Duration(a.After)*time.Millisecond+fracOf(x.n, try, i+1), func() { s.feed(a.Frame...) })
			}
		}
		for i, f := range c.Line {
			f := f
			time.AfterFunc(at(f.After, fracOf(1000, 0, i)), func() { s.feed(f.Frame...) })
		}

		// The port
		lost := []error{
			errors.New("simulated loss of the port"),
			io.EOF,
			&os.PathError{Op: "read", Path: "sim", Err: syscall.EIO},
			&os.PathError{Op: "read", Path: "sim", Err: os.ErrClosed},
			io.ErrUnexpectedEOF,
			io.ErrClosedPipe,
			syscall.ENXIO,
		}
		failing := []error{
			errors.New("simulated failing open"),
			&os.PathError{Op: "open", Path: "sim", Err: syscall.ENOENT},
			&os.PathError{Op: "open", Path: "sim", Err: syscall.EACCES},
			&os.PathError{Op: "open", Path: "sim", Err: syscall.EBUSY},
			io.EOF,
			os.ErrNotExist,
			syscall.EIO,
			os.ErrDeadlineExceeded,
			syscall.EINTR,
		}
		fails, failKind := 0, 0
		for i, l := range c.Loss {
			l := l
			time.AfterFunc(at(l.At, fracOf(1001, 0, i)), func() {
				s.mu.Lock()
				up := s.port != nil && !s.port.dead()
				if up {
					fails, failKind = l.Fails, l.Kind
				}
				s.mu.Unlock()
				if !up {
					return
				}
				if len(l.Partial) > 0 {
					s.feed(l.Partial...)
				}
				s.lose(lost[l.Kind%len(lost)])
			})
		}
		s.onOpen = func(int) error {
			s.mu.Lock()
			defer s.mu.Unlock()
			if fails > 0 {
				fails--
				failKind++
				return failing[failKind%len(failing)]
			}
			return nil
		}
		var samples []connSample
		var samplesMu sync.Mutex
		sampling := true
		if len(c.Loss) > 0 {
			go func() {
				for {
					time.Sleep(47*time.Millisecond + 11*time.Microsecond)
					con.Connection.RLock()
					v := con.Connection.Connected
					now := s.now()
					con.Connection.RUnlock()
					samplesMu.Lock()
					if !sampling {
						samplesMu.Unlock()
						return
					}
					samples = append(samples, connSample{now, v})
					samplesMu.Unlock()
				}
			}()
		}

		// The callers
		var wg sync.WaitGroup
		k := 0
		for _, reqs := range c.Callers {
			mine := all[k : k+len(reqs)]
			k += len(reqs)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range mine {
					if d := at(x.q.At, fracOf(x.n, 100, 0)); d > 0 {
						time.Sleep(d)
					}
					done := x.call(s, con)
					if x.q.Await {
						<-done
					}
				}
			}()
		}

		// Long enough for whatever is specified to happen
		total, extra, timeouts := 0, 0, 0
		lateAt := 0
		max := func(p *int, v int) {
			if v > *p {
				*p = v
			}
		}
		for _, x := range all {
			total += 1 + len(x.q.Behave)
			max(&lateAt, x.q.At)
			for _, b := range x.q.Behave {
				max(&extra, b.Delay)
				timeouts += b.Stall
				for _, a := range b.Answers {
					max(&extra, a.After)
				}
			}
			timeouts += x.q.Timeout
		}
		for _, f := range c.Line {
			max(&lateAt, f.After)
		}
		for _, l := range c.Loss {
			max(&lateAt, l.At)
			extra += 2000 * (l.Fails + 2)
		}
		wait(float64(lateAt + extra + timeouts + total*1300 + 5000))
		for _, x := range all {
			if x.late != nil {
				r.Label("nobody waits for the answer")
				go x.late()
			}
		}
		wait(100)
		s.check(r, j, c, con, all, runs, base)

		samplesMu.Lock()
		sampling = false
		got := samples
		samplesMu.Unlock()
		if len(c.Loss) > 0 {
			s.checkLoss(j, c, con, got)
		}
	})
}

// live makes the controller send n commands, some of them requests that get their answer.
func (s *sim) live(con *gozwave.Controller, n int, r *R) {
	if n == 0 {
		return
	}
	r.Label("after a long life")
	s.onCommand = func(w *write) {
		s.feed(ack)
		if len(w.frame) > 3 && w.frame[3] == fnProtocolInfo {
			s.feed(protocolInfoFrame(make([]byte, 6))...)
		}
	}
	ended := 0
	for i := 0; i < n; i++ {
		if i%4 > 0 {
			con.Connection.Write(serialapi.NewRaw([]byte{fnProtocolInfo, 9, 9, byte(i)}))
			continue
		}
		ch, _ := con.Connection.WriteWithTimeout(serialapi.NewRaw([]byte{fnProtocolInfo, 9, 9, byte(i)}), time.Second)
		if ch != nil {
			for range ch {
				ended++
			}
		}
	}
	wait(1000)
	s.onCommand = nil
	r.LabelIf(ended == (n+3)/4, "all requests of the long life were answered")
	s.clear()
}

type connSample struct {
	at        time.Duration
	connected bool
}

func (p *simPort) dead() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.isDead
}

type rawBody []byte

func (b rawBody) Encode() []byte { return b }

// call makes the request, and returns a channel that is closed when it has ended.
func (x *connRun) call(s *sim, con *gozwave.Controller) chan struct{} {
	done := make(chan struct{})
	timeout := x.timeout()
	x.set(func() { x.called = s.now() })

	var msg interfaces.Encodable = serialapi.NewRaw(x.body)
	if x.body[0] == fnSendData {
		raw := commands.NewRaw(x.body[3:])
		raw.SetNode(int(x.q.Node))
		msg = raw
	}
	switch x.q.Kind {
	case "cmd":
		err := con.Connection.Write(msg)
		x.set(func() { x.back, x.closed, x.callErr = s.now(), s.now(), err })
		close(done)
	case "report":
		ch, err := con.Connection.WriteAndWaitForReport(msg, timeout, x.q.Report)
		x.set(func() { x.back, x.callErr, x.nilChan = s.now(), err, ch == nil })
		if ch == nil {
			close(done)
			break
		}
		follow(s, x, ch, done)
	default:
		ch, err := con.Connection.WriteWithTimeout(msg, timeout)
		x.set(func() { x.back, x.callErr, x.nilChan = s.now(), err, ch == nil })
		if ch == nil {
			close(done)
			break
		}
		follow(s, x, ch, done)
	}
	return done
}

// follow receives what is delivered to a request.
func follow[T any](s *sim, x *connRun, ch <-chan T, done chan struct{}) {
	all := func(leave <-chan time.Time) bool {
		for {
			select {
			case m, ok := <-ch:
				if !ok {
					x.set(func() { x.closed = s.now() })
					return true
				}
				x.set(func() { x.got, x.gotAt = append(x.got, m), append(x.gotAt, s.now()) })
			case <-leave:
				return false
			}
		}
	}
	if !x.q.Leaves {
		go func() {
			all(nil)
			close(done)
		}()
		return
	}
	close(done)
	x.late = func() { all(nil) }
	if x.q.Leave > 0 {
		leave := time.After(time.Duration(x.q.Leave)*time.Millisecond + fracOf(x.n, 102, 0))
		go all(leave)
	}
}

func (x *connRun) String() string {
	return sprintf("%s request %d of caller %d (node %d class %02x report %02x timeout %d ms)", x.q.Kind, x.index, x.caller, x.q.Node, x.q.Class, x.q.Report, x.q.Timeout)
}

func near(a, b, before, after time.Duration) bool { return a >= b-before && a <= b+after }

// received is the history with the reads taken apart into frames and ACK, NAK and CAN bytes.
func (s *sim) received() (items []logEntry) {
	var buf []byte
	var last time.Duration
	for _, e := range s.history() {
		if e.lost || e.alive {
			buf = nil
		}
		if e.data == nil {
			items = append(items, e)
			continue
		}
		if e.at-last > 40*time.Millisecond {
			buf = nil
		}
		last = e.at
		buf = append(buf, e.data...)
		for len(buf) > 0 {
			n := refLength(buf)
			if n > len(buf) {
				break
			}
			if n == -1 {
				s.r.Label("noise")
				buf = buf[1:]
				continue
			}
			items = append(items, logEntry{at: e.at, data: append([]byte(nil), buf[:n]...)})
			buf = buf[n:]
		}
	}
	return
}

// check runs the model over what happened on the line, and compares.
func (s *sim) check(r *R, j connJudge, c connCase, con *gozwave.Controller, all []*connRun, runs map[string]*connRun, base time.Duration) {
	hist := s.received()

	observed := func(x *connRun) (got []interface{}, gotAt []time.Duration, closed time.Duration) {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.got, x.gotAt, x.closed
	}

	var out *connRun // unanswered command
	var outAt time.Duration
	seq := 0
	ends := func(x *connRun, at time.Duration, why string, f []byte) {
		x.open, x.mClosed, x.mWhy, x.mFrame = false, at, why, f
	}
	expire := func(now time.Duration) {
		for _, x := range all {
			if x.open && x.deadline <= now {
				ends(x, x.deadline, "timeout", nil)
			}
		}
		if out != nil && outAt+outstandingFor <= now {
			out = nil
		}
	}
	for _, e := range hist {
		expire(e.at)
		switch {
		case e.w != nil:
			x := runs[string(e.w.frame)]
			if x == nil {
				j.fail("C10", "the library wrote %x, which nobody asked for", e.w.frame)
				continue
			}
			if out != nil {
				j.fail("C10", "%v was written at %v while the command written at %v was unanswered: %v", x, e.at-base, outAt-base, out)
			}
			x.writes = append(x.writes, e.w)
			if k := len(x.writes); k > 1 {
				if len(x.cans) < k-1 {
					j.fail("C10", "%v was written %d times, but cancelled only %d times", x, k, len(x.cans))
				} else if e.at < x.cans[k-2]+99*time.Millisecond {
					j.fail("C10", "%v was sent again %v after it was cancelled", x, e.at-x.cans[k-2])
				}
			} else if x.hasAnswer() {
				x.open = true
				x.deadline = e.at + max(0, x.timeout())
			}
			x.acked = false
			seq++
			x.order = seq
			out, outAt = x, e.at
		case e.data != nil && len(e.data) == 1 && e.data[0] != sof:
			if out == nil {
				r.Label("result without command")
				continue
			}
			x := out
			out = nil
			switch e.data[0] {
			case ack:
				x.acked = true
			case nak:
				r.Label("NAK")
				if x.open {
					ends(x, e.at, "NAK", nil)
				}
			case can:
				r.Label("CAN")
				x.cans = append(x.cans, e.at)
			}
		case e.data != nil && refLength(e.data) == len(e.data):
			good := refContentOK(e.data)
			var to []*connRun
			var pi *connRun
			for _, x := range all {
				if !x.open || !x.answeredBy(e.data) {
					continue
				}
				if x.q.Kind != "pi" {
					to = append(to, x)
				} else if pi == nil || (x.acked && !pi.acked) || (x.acked == pi.acked && x.order < pi.order) {
					if pi != nil {
						r.Label("several wait for a protocol info")
					}
					pi = x
				} else {
					r.Label("several wait for a protocol info")
				}
			}
			if pi != nil {
				to = append(to, pi)
			}
			if len(to) > 1 {
				r.Label("one frame answers several")
			}
			r.LabelIf(len(to) == 0, "unrelated frame")
			for _, x := range to {
				r.LabelIf(!x.acked, "answer before ACK")
				if good {
					ends(x, e.at, "answer", e.data)
					continue
				}
				// Ending the request at an answer that can not be decoded is as good as not to
				r.Label("undecodable answer")
				if _, _, cl := observed(x); near(cl, e.at, 0, 20*time.Millisecond) {
					ends(x, e.at, "undecodable answer", nil)
				}
			}
		}
	}
	expire(1 << 60)
	defer func() {
		if r.Failed() && os.Getenv("VERIF_TRACE") != "" {
			for _, e := range hist {
				fmt.Fprintln(os.Stderr, e.at-base, e.w, Hex(e.data), e.lost, e.alive)
			}
		}
	}()

	last := map[int]*connRun{}
	for _, x := range all {
		got, gotAt, closed := observed(x)
		if x.called < 0 {
			continue // The caller waits for an earlier one that has not ended
		}
		if x.back < 0 {
			j.fail("C09", "the call of the %v does not return", x)
			j.fail("C10", "the call of the %v does not return", x)
			continue
		}
		if x.callErr != nil {
			j.fail("C10", "the %v was refused: %v", x, x.callErr)
			continue
		}
		if len(x.writes) == 0 {
			j.fail("C10", "the %v was never written to the port", x)
			continue
		}
		if len(x.writes) != 1+len(x.cans) {
			j.fail("C10", "the %v was written %d times after it was cancelled %d times", x, len(x.writes), len(x.cans))
		}
		if p := last[x.caller]; p != nil && p.writes[0].at > x.writes[0].at {
			j.fail("C10", "the %v was written before the %v", x, p)
		}
		last[x.caller] = x
		if !x.hasAnswer() {
			continue
		}
		if x.nilChan {
			j.fail("C09", "the %v got no channel", x)
			continue
		}
		r.Label("ended by %s", x.mWhy)

		var real []interface{}
		var realAt []time.Duration
		for i, g := range got {
			if m, ok := g.(*serialapi.Message); ok && m == nil {
				continue
			}
			if g == nil {
				continue
			}
			real, realAt = append(real, g), append(realAt, gotAt[i])
		}
		if len(real) > 1 {
			j.fail("C08", "%d answers were delivered to the %v", len(real), x)
		}
		if len(real) == 1 {
			if x.mWhy != "answer" {
				j.fail("C08", "%v was delivered at %v to the %v, which ended by %s at %v", real[0], realAt[0]-base, x, x.mWhy, x.mClosed-base)
			} else if s := contentDiffers(real[0], x.mFrame); s != "" {
				j.fail("C08", "%s to the %v, the answer is %x", s, x, x.mFrame)
			}
		}
		if x.q.Leaves { // It need not get its answer, and that it is closed is seen later
			if closed < 0 {
				j.fail("C09", "the channel of the %v, which nobody was waiting for, is never closed", x)
			}
			continue
		}
		switch {
		case closed < 0:
			j.fail("C09", "the channel of the %v is never closed, it should by %s at %v", x, x.mWhy, x.mClosed-base)
			if x.mWhy == "answer" {
				j.fail("C08", "the channel of the %v is not closed after its answer", x)
			}
		case x.mWhy == "timeout" && !near(closed, x.mClosed, time.Millisecond, 60*time.Millisecond):
			j.fail("C09", "the channel of the %v was closed at %v instead of its timeout at %v", x, closed-base, x.mClosed-base)
		case x.mWhy != "timeout" && !near(closed, x.mClosed, 0, 20*time.Millisecond):
			j.fail("C09", "the channel of the %v was closed at %v instead of %v (%s)", x, closed-base, x.mClosed-base, x.mWhy)
		}
		if x.mWhy == "answer" && len(real) == 0 {
			j.fail("C09", "the answer %x received at %v was not delivered to the %v, it was closed at %v", x.mFrame, x.mClosed-base, x, closed-base)
		}
		// An unrelated frame never ends the waiting
		if x.mWhy == "timeout" && closed >= 0 && closed < x.mClosed-time.Millisecond {
			j.fail("C08", "the waiting of the %v ended at %v, before its timeout at %v and without an answer", x, closed-base, x.mClosed-base)
		}
	}
}

// checkLoss judges how the loss of the port was handled.
func (s *sim) checkLoss(j connJudge, c connCase, con *gozwave.Controller, samples []connSample) {
	type span struct{ up, lost time.Duration }
	var spans []span
	current := func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, w := range s.writes {
			if w.stale {
				j.fail("C11", "the command %v was written to the port that was lost, not to the one that was opened again at %v", w, s.opens[w.open+1])
				return
			}
		}
	}
	current()
	s.mu.Lock()
	tries, closes, opens := append([]time.Duration(nil), s.tries...), append([]time.Duration(nil), s.closes...), append([]time.Duration(nil), s.opens...)
	hist := append([]logEntry(nil), s.log...)
	s.mu.Unlock()
	spans = append(spans, span{opens[0], -1})
	for _, e := range hist {
		if e.alive {
			if spans[len(spans)-1].lost < 0 {
				j.fail("C11", "the port was opened at %v while it was open", e.at)
				return
			}
			spans = append(spans, span{e.at, -1})
		}
		if e.lost {
			spans[len(spans)-1].lost = e.at
		}
	}
	// Tries to open, a second apart
	k := 1
	for i, sp := range spans {
		if sp.lost < 0 {
			continue
		}
		if i+1 >= len(spans) {
			j.fail("C11", "the port was lost at %v and not opened again", sp.lost)
			return
		}
		last := sp.lost
		for ; k < len(tries) && tries[k] <= spans[i+1].up; k++ {
			if d := tries[k] - last; d < 500*time.Millisecond || d > 2*time.Second {
				j.fail("C11", "opening the port again was tried %v after it was lost or could not be opened", d)
			}
			last = tries[k]
		}
		closed := false
		for _, t := range closes {
			if t >= sp.lost && t <= spans[i+1].up {
				closed = true
			}
		}
		if !closed {
			j.fail("C11", "the port that was lost at %v was not closed before it was opened again at %v", sp.lost, spans[i+1].up)
		}
		j.r.Nontrivial(j.aspect == "C11")
	}
	if k < len(tries) {
		j.fail("C11", "the port was opened at %v, though it was not lost", tries[k])
	}
	j.r.Label("%d losses", len(spans)-1)

	for _, sm := range samples {
		i := sort.Search(len(spans), func(i int) bool { return spans[i].up > sm.at }) - 1
		if i < 0 {
			continue
		}
		sp := spans[i]
		down := sp.lost >= 0 && sm.at > sp.lost
		if sm.connected && (down || sm.at < sp.up+199*time.Millisecond) {
			j.fail("C11", "Connected is true at %v, the port was open from %v to %v", sm.at, sp.up, sp.lost)
		}
		if !sm.connected && !down && sm.at > sp.up+250*time.Millisecond {
			j.fail("C11", "Connected is false at %v, the port is open since %v", sm.at, sp.up)
		}
	}
	if j.aspect != "C11" || j.r.Failed() {
		return
	}

	// It works like before
	time.Sleep(1500 * time.Millisecond)
	s.clear()
	s.onCommand = func(w *write) {
		time.AfterFunc(3*time.Millisecond+fracFeed, func() {
			s.feed(ack)
			s.feed(reportFrame(9, []byte{ccSwitchBinary, 3, 0xff})...)
		})
	}
	s.feed(reportFrame(8, []byte{ccSwitchBinary, 3, 0xff})...)
	wait(10)
	if n := s.ackCount(); n != 1 {
		j.fail("C11", "after the port was opened again, a frame was answered with %d ACK", n)
	}
	x := &connRun{q: connReq{Kind: "report", Node: 9, Class: ccSwitchBinary, Report: 3, Timeout: 3000}, body: []byte{fnSendData, 9, 4, ccSwitchBinary, 2, 0x25}, closed: -1, back: -1}
	go x.call(s, con)
	wait(2000)
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.got) != 1 || x.closed < 0 {
		j.fail("C11", "after the port was opened again, a request got %v as its answer (closed at %v), commands written: %v", x.got, x.closed, s.commands())
	}
	if n := len(s.commands()); n != 1 {
		j.fail("C11", "after the port was opened again, a command was written %d times", n)
	}
	current()
}

func connNontrivial(c connCase) (multi, cans, naks, silent, answers int) {
	for _, reqs := range c.Callers {
		multi += len(reqs)
		for _, q := range reqs {
			for _, b := range q.Behave {
				switch b.Result {
				case can:
					cans++
				case nak:
					naks++
				case 0:
					silent++
				}
				answers += len(b.Answers)
			}
		}
	}
	return
}

func init() {
	quick := []int{1, 2, 5, 10, 30, 60}
	delays := append([]int{200, 900, 940, 1100, 1500}, append(append([]int(nil), quick...), quick...)...)
	reg("C08",
		"1-3 concurrent callers with 1-5 requests each (protocol info, node list, reports of 4 nodes and 7 classes, plain commands), every command with its own results (ACK, NAK, CAN, none) and answers: right, of another node, class or report, undecodable, duplicate, transmission statuses; unsolicited frames. Non-trivial: at least 2 requests and 2 frames",
		genConn(connWeights{callers: 3, requests: 5, results: []byte{ack, ack, ack, ack, ack, ack, 0, nak, can}, answers: 4, maxTimeout: 3000, line: 8,
			kinds: []string{"report", "report", "report", "msg", "pi", "pi", "disc", "cmd"}, delays: append(append([]int(nil), quick...), 200, 600)}),
		func(c connCase, r *R) {
			n, _, _, _, a := connNontrivial(c)
			r.Nontrivial(n >= 2 && a+len(c.Line) >= 2)
			runConn(c, r, "C08")
		})
	reg("C09",
		"like C08, with more NAK, CAN, silence, late results and answers, timeouts from 1 ms, and at times the loss of the port. Non-trivial: a request that gets a NAK, CAN or no result, or a loss of the port",
		genConn(connWeights{callers: 3, requests: 4, results: []byte{ack, ack, ack, 0, nak, can}, answers: 3, maxTimeout: 2500, line: 4, losses: 2, noLoss: true, noise: 1,
			kinds: []string{"report", "report", "msg", "pi", "disc", "cmd"}, delays: delays}),
		func(c connCase, r *R) {
			_, cans, naks, silent, _ := connNontrivial(c)
			r.Nontrivial(cans+naks+silent+len(c.Loss) > 0)
			r.LabelIf(len(c.Loss) > 0, "loss of the port")
			runConn(c, r, "C09")
		})
	reg("C10",
		"1-3 concurrent callers with 1-6 commands and requests each, with every pattern of ACK, NAK, CAN (up to 4 in a row), silence and late results, at times with losses of the port. Non-trivial: at least 2 commands, one of which is not simply acknowledged",
		genConn(connWeights{callers: 3, requests: 6, results: []byte{ack, ack, ack, 0, nak, can, can, can}, answers: 1, maxTimeout: 1500, line: 2, noise: 2, losses: 2, rareLoss: true,
			kinds: []string{"cmd", "cmd", "cmd", "report", "pi", "msg"}, delays: delays}),
		func(c connCase, r *R) {
			n, cans, naks, silent, _ := connNontrivial(c)
			r.Nontrivial(n >= 2 && cans+naks+silent > 0)
			runConn(c, r, "C10")
		})
	reg("C11",
		"like C10, with 1-3 losses of the port at any time (also before it is up), up to 5 failing openings each, and a part of a frame received before the loss. Non-trivial: the port was lost and opened again",
		genConn(connWeights{callers: 2, requests: 4, results: []byte{ack, ack, ack, 0, nak, can}, answers: 2, maxTimeout: 1500, line: 3, losses: 3,
			kinds: []string{"cmd", "cmd", "report", "pi"}, delays: delays}),
		func(c connCase, r *R) { runConn(c, r, "C11") })
}
