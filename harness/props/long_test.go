package props

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
	"pgregory.net/rapid"
)

// ---- C25: the same history again and again

type c25 struct {
	Nodes  []c25node `json:"nodes"`
	File   bool      `json:"file,omitempty"`
	Deaf   bool      `json:"deaf,omitempty"` // nobody reads the events
	Steps  []c25step `json:"steps"`          // of one round
	Rounds int       `json:"rounds"`
}

type c25node struct {
	ID    int  `json:"id"`
	Sleep bool `json:"sleep,omitempty"` // it does not listen, and never answers
	Gen   byte `json:"gen"`
	Spec  byte `json:"spec"`
	IDs   Hex  `json:"ids"`
}

type c25step struct {
	Gap     int    `json:"gap"` // ms
	Do      string `json:"do"`
	Node    int    `json:"node,omitempty"`
	Payload Hex    `json:"payload,omitempty"`
	Timeout int    `json:"timeout,omitempty"`
	Result  byte   `json:"result,omitempty"` // ACK, NAK, CAN (and then ACK), or none
	Answer  string `json:"answer,omitempty"` // none, good, twice, bad, late
	Times   int    `json:"times,omitempty"`  // of a report, noise or request, with other values every time
	Leave   bool   `json:"leave,omitempty"`  // nobody waits for the answer
	Fails   int    `json:"fails,omitempty"`  // the lost port can not be opened so often
}

func init() {
	reg("C25", "a round of 1 to 8 steps: reports of known and unknown nodes, alarms, requests that are answered, answered twice, late or not at all, refused, cancelled or not acknowledged, several at once or left alone by the one who asked, commands, wake-ups, losses of the port (also for several seconds), noise, saves, "+
		"JSON, several at once or one after the other, reports and noise also with other values every time; the round is repeated 24 to 60 times, and in the end the library has as many goroutines as after the first rounds, and has not more memory or files in use; "+
		"non-trivial: a request, a wake-up or a loss of the port is in the round",
		func(t *rapid.T) c25 {
			c := c25{File: rapid.IntRange(0, 2).Draw(t, "file") == 0, Deaf: rapid.IntRange(0, 3).Draw(t, "deaf") == 0, Rounds: rapid.IntRange(24, 60).Draw(t, "rounds")}
			used := map[int]bool{1: true}
			for k := rapid.IntRange(1, 3).Draw(t, "nodes"); k > 0; k-- {
				n := c25node{ID: rapid.IntRange(2, 232).Draw(t, "id"), Sleep: rapid.IntRange(0, 2).Draw(t, "sleep") == 0, IDs: genIDs(t)}
				for used[n.ID] {
					n.ID = n.ID%232 + 1
				}
				used[n.ID] = true
				n.Gen, n.Spec = genPair(t)
				c.Nodes = append(c.Nodes, n)
			}
			for k := rapid.IntRange(1, 8).Draw(t, "steps"); k > 0; k-- {
				s := c25step{Gap: rapid.SampledFrom([]int{0, 0, 1, 60, 300, 1500, 12000}).Draw(t, "gap"),
					Do: rapid.SampledFrom([]string{"report", "report", "alarm", "request", "request", "request", "func", "func", "command", "switch", "wake", "lose", "noise", "save", "json"}).Draw(t, "do")}
				s.Node = c.Nodes[rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "node")].ID
				switch s.Do {
				case "report":
					s.Payload = genStatePayload().Draw(t, "payload")
					if rapid.IntRange(0, 5).Draw(t, "stranger") == 0 {
						s.Node = 233
					}
					if rapid.Bool().Draw(t, "other values") {
						s.Times = rapid.IntRange(1, 20).Draw(t, "times")
					}
				case "alarm":
					s.Payload = Hex{ccAlarm, 0x05, 1, 0xFF}
				case "noise":
					s.Payload = genBytes(1, 12).Draw(t, "noise")
					s.Times = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "times")
				case "request", "func", "command":
					s.Timeout = rapid.SampledFrom([]int{0, 1, 80, 500, 3000, 10000}).Draw(t, "timeout")
					s.Result = rapid.SampledFrom([]byte{ack, ack, ack, nak, can, 0}).Draw(t, "result")
					s.Answer = rapid.SampledFrom([]string{"none", "good", "good", "twice", "bad", "late"}).Draw(t, "answer")
					s.Leave = rapid.IntRange(0, 4).Draw(t, "leave") == 3
					if rapid.Bool().Draw(t, "other values") {
						s.Times = rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "times")
					}
				case "lose":
					s.Fails = rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "fails")
				}
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runC25)
}

// perRound is what a round may add to the memory in use: nothing, but for what
// the runtime does. A request that is not forgotten is more.
const perRound = 100

// resources are what the process has in use.
type resources struct {
	goroutines int
	heap       uint64
}

func inUse() resources {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return resources{runtime.NumGoroutine(), m.HeapAlloc}
}

// wheres counts the goroutines by where they are in the library.
func wheres() map[string]int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/stampzilla/gozwave") {
				if i := strings.LastIndexByte(l, '('); i > 0 {
					l = l[:i]
				}
				m[l]++
				break
			}
		}
	}
	return m
}

func grown(a, b map[string]int) string {
	var l []string
	for k, n := range b {
		if n > a[k] {
			l = append(l, sprintf("%d more in %s", n-a[k], k))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func runC25(c c25, r *R) {
	file := ""
	if c.File {
		dir, err := os.MkdirTemp(scratch, "c25.")
		if err != nil {
			harnessBug(err)
		}
		defer os.RemoveAll(dir)
		file = filepath.Join(dir, "nodes.json")
	}
	bubble(r, func() {
		s := newSim(r)
		nodes := map[int]c25node{}
		var ids []int
		for _, n := range c.Nodes {
			nodes[n.ID] = n
			ids = append(ids, n.ID)
		}
		var mu sync.Mutex
		var mine *c25step // the request of the user that is going on
		var body []byte
		cancelled := false
		s.onCommand = func(w *write) {
			b := w.body()
			mu.Lock()
			st := mine
			own := st != nil && string(b) == string(body)
			result := byte(ack)
			if own {
				result = st.Result
				if result == can {
					if cancelled {
						result = ack
					}
					cancelled = true
				}
			}
			mu.Unlock()
			kind, id := kindOf(b)
			time.AfterFunc(time.Millisecond, func() {
				if result != 0 {
					s.feed(result)
				}
			})
			if result == can {
				return
			}
			after := func(ms int, f []byte) { time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { s.feed(f...) }) }
			if own {
				good := reportFrame(byte(st.Node), []byte{ccSensor, 0x05, 1, 1, 0x20})
				bad := reportFrame(byte(st.Node), []byte{ccSensor, 0x05})
				if st.Do == "func" {
					good, bad = refFrame([]byte{0x01, b[0], 1, 2, 3}), refFrame([]byte{0x01, b[0] + 1, 1})
				}
				switch st.Answer {
				case "good":
					after(3, good)
				case "twice":
					after(3, good)
					after(5, good)
				case "bad":
					after(3, bad)
				case "late":
					after(st.Timeout+200, good)
				}
				return
			}
			if kind == "discovery" {
				after(3, discoveryFrame(bitmapOf(ids)))
				return
			}
			n, ok := nodes[id]
			if !ok {
				return
			}
			switch {
			case kind == "info":
				info := []byte{0x80, 0, 0, 4, n.Gen, n.Spec}
				if n.Sleep {
					info[0] = 0
				}
				after(3+id%50, protocolInfoFrame(info))
			case n.Sleep:
			case kind == "ms":
				after(3, reportFrame(byte(id), append([]byte{ccManufacturer, 0x05}, n.IDs...)))
			case kind == "ep":
				after(3, reportFrame(byte(id), []byte{ccMultiChannel, 0x08, 0, 2}))
			}
		}
		fails := 0
		s.onOpen = func(int) error {
			s.mu.Lock()
			defer s.mu.Unlock()
			if fails > 0 {
				fails--
				return syscall.ENOENT
			}
			return nil
		}
		con := s.connect(file)
		if con == nil {
			return
		}
		if !c.Deaf {
			ch := con.GetNextEvent()
			go func() {
				for range ch {
				}
			}()
		}
		serial := uint32(0)
		request := func(st c25step) {
			value := []byte{ccSensor, 0x04, byte(st.Gap)}
			asked := []byte{0x15, byte(st.Node)}
			if st.Times > 0 {
				serial++
				v := []byte{byte(serial >> 16), byte(serial >> 8), byte(serial)}
				value, asked = append(value, v...), append(asked, v...)
			}
			raw := commands.NewRaw(value)
			raw.SetNode(st.Node)
			var msg interfaces.Encodable = raw
			if st.Do == "func" {
				msg = serialapi.NewRaw(asked)
			}
			mu.Lock()
			mine, body, cancelled = &st, msg.Encode(), false
			mu.Unlock()
			timeout := time.Duration(st.Timeout)*time.Millisecond + 77*time.Microsecond
			once := func() {
				switch st.Do {
				case "command":
					con.Connection.Write(msg)
				case "func":
					if ch, err := con.Connection.WriteWithTimeout(msg, timeout); err == nil && !st.Leave {
						for range ch {
						}
					}
				case "request":
					if ch, err := con.Connection.WriteAndWaitForReport(msg, timeout, 0x05); err == nil && !st.Leave {
						for range ch {
						}
					}
				}
			}
			if st.Leave { // What comes next does not wait
				for k := 0; k < max(1, st.Times); k++ {
					go once()
				}
				return
			}
			var all sync.WaitGroup
			for k := 1; k < st.Times; k++ {
				all.Add(1)
				go func() { defer all.Done(); once() }()
			}
			once()
			all.Wait()
			time.Sleep(1500 * time.Millisecond)
			mu.Lock()
			mine = nil
			mu.Unlock()
		}
		other := func(st c25step) []byte {
			if st.Times == 0 {
				return st.Payload
			}
			serial++
			p := append([]byte(nil), st.Payload...)
			from := 2 // A report has its class and command there,
			if len(p) > 0 && p[0] == ccSensor {
				from = 4 // and its type and size, which it keeps
			}
			for i, v := len(p)-1, serial; i >= from && v > 0; i, v = i-1, v>>8 {
				p[i] ^= byte(v)
			}
			return p
		}
		round := func() {
			for _, st := range c.Steps {
				time.Sleep(time.Duration(st.Gap) * time.Millisecond)
				switch st.Do {
				case "report", "alarm":
					for k := 0; k < max(1, st.Times); k++ {
						s.feed(reportFrame(byte(st.Node), other(st))...)
						if st.Times > 0 {
							time.Sleep(2 * time.Millisecond)
						}
					}
				case "noise":
					for k := 0; k < max(1, st.Times); k++ {
						s.feed(other(st)...)
						time.Sleep(50 * time.Millisecond)
					}
				case "wake":
					s.feed(reportFrame(byte(st.Node), []byte{ccWakeUp, 0x07})...)
				case "lose":
					s.mu.Lock()
					fails = st.Fails
					s.mu.Unlock()
					s.lose(io.EOF)
				case "save":
					if c.File {
						con.SaveConfigurationToFile()
					}
				case "json":
					json.Marshal(con)
				case "switch":
					if n := con.Nodes.Get(st.Node); n != nil {
						n.On()
						n.Level(33)
					}
				default:
					request(st)
				}
			}
			time.Sleep(75 * time.Second)
			synctest.Wait()
			s.clear()
		}
		s.mu.Lock()
		s.opens, s.tries, s.closes = make([]time.Duration, 0, 1000), make([]time.Duration, 0, 1000), make([]time.Duration, 0, 1000)
		s.mu.Unlock()
		time.Sleep(80 * time.Second) // The identification has ended, or waits for the node to wake up
		for i := 0; i < 5; i++ {
			round()
		}
		where := wheres()
		before := inUse()
		// What is left behind by every round grows in every third of them; what is
		// made once, or by the runtime, does not.
		rounds, last, grows := 0, before, int64(0)
		for third := 0; third < 3; third++ {
			for i := 0; i < c.Rounds/3; i++ {
				round()
			}
			rounds += c.Rounds / 3
			now := inUse()
			growth := (int64(now.heap) - int64(last.heap)) / int64(c.Rounds/3)
			if third == 0 || growth < grows {
				grows = growth
			}
			last = now
		}
		// The runtime needs some memory for itself (every goroutine that is there at once,
		// more than ever before), now and then, but not in every one of many times.
		for more := 0; more < 20 && grows > perRound && last.goroutines <= before.goroutines; more++ {
			for i := 0; i < 60; i++ {
				round()
			}
			rounds += 60
			now := inUse()
			grows = min(grows, (int64(now.heap)-int64(last.heap))/60)
			last = now
		}
		if last.goroutines > before.goroutines {
			r.Failf("after %d rounds there are %d more goroutines: %s", rounds, last.goroutines-before.goroutines, grown(where, wheres()))
			return
		}
		if os.Getenv("VERIF_TRACE") != "" {
			os.Stderr.WriteString(sprintf("heap per round %d\n", grows))
		}
		if grows > perRound {
			r.Failf("after %d rounds every round still leaves at least %d bytes in use", rounds, grows)
			return
		}
		s.mu.Lock()
		opens, closes := len(s.opens), len(s.closes)
		s.mu.Unlock()
		if opens > closes { // The first one was opened before
			r.Failf("the port was opened %d times, and closed %d times", opens+1, closes)
		}
	})
	active := false
	for _, s := range c.Steps {
		r.Label("step: %s", s.Do)
		active = active || s.Do == "request" || s.Do == "func" || s.Do == "wake" || s.Do == "lose"
	}
	r.Nontrivial(active)
}
