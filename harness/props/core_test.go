// Package props has the property checks of gozwave: each one is a generator of
// cases, and a function that runs a case against the code and judges the
// outcome. See /verif/DESIGN.md.
package props

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
	"gozwaveverif/vsync"

	"pgregory.net/rapid"
)

// Hex is a byte string that is written as hex in the case files.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) error {
	d, err := hex.DecodeString(string(b))
	*h = d
	return err
}
func (h Hex) String() string { return hex.EncodeToString(h) }

// R collects the judgement over one case.
type R struct {
	mu         sync.Mutex
	t          *testing.T
	fail       string
	labels     map[string]int
	nontrivial bool
	evals      int
}

// Failf records that the property is broken; the first one counts.
func (r *R) Failf(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail == "" {
		r.fail = fmt.Sprintf(format, a...)
	}
}

func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.fail != ""
}

// Label counts the case in a class.
func (r *R) Label(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.labels[fmt.Sprintf(format, a...)]++
}

// LabelIf counts the case in a class if cond holds.
func (r *R) LabelIf(cond bool, l string) {
	if cond {
		r.Label("%s", l)
	}
}

// Nontrivial marks the case as one in which the property was at stake.
func (r *R) Nontrivial(b bool) {
	if b {
		r.nontrivial = true
	}
}

// Evals adds to the number of inputs tried (a case can be a batch of them).
func (r *R) Evals(n int) { r.evals += n }

type prop struct {
	id   string
	rule string
	gen  func(t *rapid.T) interface{}
	load func(b []byte) (interface{}, error)
	run  func(c interface{}, r *R)
}

var registry = map[string]*prop{}

func reg[T any](id, rule string, gen func(t *rapid.T) T, run func(c T, r *R)) {
	if registry[id] != nil {
		panic("duplicate property " + id)
	}
	registry[id] = &prop{
		id:   id,
		rule: rule,
		gen:  func(t *rapid.T) interface{} { return gen(t) },
		load: func(b []byte) (interface{}, error) {
			var c T
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(c interface{}, r *R) { run(c.(T), r) },
	}
}

// stats is what one process has explored.
type stats struct {
	Cases      int            `json:"cases"`
	Evals      int            `json:"evaluations"`
	Nontrivial int            `json:"nontrivial"`
	Keys       []string       `json:"keys"` // hashes of the distinct non-trivial cases
	Labels     map[string]int `json:"labels"`
	Samples    []interface{}  `json:"samples"`
	Rule       string         `json:"rule"`
	Fail       string         `json:"fail,omitempty"`
	Case       interface{}    `json:"case,omitempty"`
	Done       bool           `json:"done"`
}

const (
	exitHang = 97 // the case does not end or eats all memory
	exitSlow = 98 // the case did not end in time, but it did not spin either
	exitBug  = 99 // the harness itself failed
)

var (
	caseStart atomic.Int64 // cpu time when the current case was started
	caseWall  atomic.Int64
	caseHeap  atomic.Uint64 // the goroutines of earlier cases keep some memory
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog ends the process when a case spins: the clock of the bubble stands
// still then, so nothing inside of it can tell.
func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		begun := caseWall.Load()
		if begun == 0 {
			continue
		}
		metrics.Read(sample)
		cpu := cpuTime() - time.Duration(caseStart.Load())
		wall := time.Now().UnixNano() - begun
		if caseWall.Load() != begun {
			continue // It was another case
		}
		switch {
		case cpu > 40*time.Second:
			fmt.Fprintln(os.Stderr, "HANG: the case used", cpu, "of cpu time")
			dumpStacks()
			os.Exit(exitHang)
		case sample[0].Value.Uint64() > caseHeap.Load()+2<<30:
			fmt.Fprintln(os.Stderr, "HANG: the case has allocated", sample[0].Value.Uint64()-caseHeap.Load(), "bytes")
			dumpStacks()
			os.Exit(exitHang)
		case time.Duration(wall) > 240*time.Second:
			fmt.Fprintln(os.Stderr, "SLOW: the case did not end in 240 s")
			dumpStacks()
			os.Exit(exitSlow)
		}
	}
}

func dumpStacks() {
	buf := make([]byte, 1<<16)
	os.Stderr.Write(buf[:runtime.Stack(buf, true)])
}

// culprit returns the first frame of a stack that belongs to the code under test
// or to the harness, whichever comes first.
func culprit(stack string) string {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/stampzilla/gozwave") || strings.HasPrefix(l, "gozwaveverif/props") {
			return l
		}
	}
	return ""
}

// execute runs one case.
func execute(t *testing.T, p *prop, c interface{}) (r *R) {
	r = &R{t: t, labels: map[string]int{}, evals: 1}
	caseStart.Store(int64(cpuTime()))
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(heap)
	caseHeap.Store(heap[0].Value.Uint64())
	caseWall.Store(time.Now().UnixNano())
	defer caseWall.Store(0)
	defer func() {
		if e := recover(); e != nil {
			stack := string(debug.Stack())
			at := culprit(stack)
			if strings.HasPrefix(at, "github.com/stampzilla/gozwave") {
				r.Failf("panic: %v in %s", e, at)
				return
			}
			fmt.Fprintf(os.Stderr, "HARNESS: panic: %v\n%s\n", e, stack)
			os.Exit(exitBug)
		}
	}()
	p.run(c, r)
	return r
}

// bubble runs f on a virtual clock.
func bubble(r *R, f func()) {
	defer func() {
		vsync.NewBubble()
		if e := recover(); e != nil {
			// The goroutines of the library never end, they are left behind
			s := fmt.Sprint(e)
			if strings.Contains(s, "main bubble goroutine has exited") {
				return
			}
			if strings.Contains(s, "all goroutines in bubble are blocked") {
				r.Failf("deadlock: the library keeps everybody waiting, for ever%s", stuck())
				return
			}
			panic(e)
		}
	}()
	vsync.NewBubble()
	synctest.Test(r.t, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				stack := string(debug.Stack())
				at := culprit(stack)
				if strings.HasPrefix(at, "github.com/stampzilla/gozwave") {
					r.Failf("panic: %v in %s", e, at)
					return
				}
				fmt.Fprintf(os.Stderr, "HARNESS: panic: %v\n%s\n", e, stack)
				os.Exit(exitBug)
			}
		}()
		f()
	})
}

// stuck says where in the library goroutines wait.
func stuck() string {
	var l []string
	for k, n := range wheres() {
		l = append(l, sprintf("%d in %s", n, k))
	}
	sort.Strings(l)
	return " (" + strings.Join(l, ", ") + ")"
}

var scratch = os.TempDir()

// TestMain prepares the process: no output of the library, a watchdog.
func TestMain(m *testing.M) {
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if os.Getenv("VERIF_STDOUT") == "" {
		os.Stdout = null // RequestEndpoints and spew print there
	}
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.ErrorLevel)
	if os.Getenv("VERIF_LOG") != "" {
		logrus.SetOutput(os.Stderr)
		logrus.SetLevel(logrus.DebugLevel)
	}
	stdlogDiscard()
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		scratch = d
	}
	debug.SetGCPercent(200)
	go watchdog()
	os.Exit(m.Run())
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS: cannot encode:", err)
		os.Exit(exitBug)
	}
	if err := os.WriteFile(path, b, 0666); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS: cannot write:", err)
		os.Exit(exitBug)
	}
}

// TestExplore generates cases of VERIF_PROP until -rapid.checks are done. The
// current case is in VERIF_CUR while it runs, for when the process dies of it.
func TestExplore(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := registry[id]
	if p == nil {
		t.Skip("no VERIF_PROP")
	}
	out := os.Getenv("VERIF_OUT")
	cur := os.Getenv("VERIF_CUR")
	st := &stats{Labels: map[string]int{}, Rule: p.rule}
	keys := map[string]bool{}
	nextSample := 1

	defer func() {
		for k := range keys {
			st.Keys = append(st.Keys, k)
		}
		sort.Strings(st.Keys)
		st.Done = true
		writeJSON(out, st)
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := p.gen(rt)
		b, err := json.Marshal(c)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: cannot encode case:", err)
			os.Exit(exitBug)
		}
		if err := os.WriteFile(cur, b, 0666); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: cannot write:", err)
			os.Exit(exitBug)
		}
		// Run what the file says, so that a replay runs the same
		c, err = p.load(b)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: cannot decode case:", err)
			os.Exit(exitBug)
		}
		r := execute(t, p, c)
		if r.fail != "" {
			st.Fail = r.fail
			st.Case = json.RawMessage(b)
			rt.Fatalf("%s", "violation") // One message, so that it shrinks freely
		}
		if st.Fail != "" {
			return // Shrinking
		}
		st.Cases++
		st.Evals += r.evals
		for k, v := range r.labels {
			_ = v
			st.Labels[k]++
		}
		if r.nontrivial {
			st.Nontrivial++
			h := sha256.Sum256(b)
			keys[hex.EncodeToString(h[:8])] = true
			if st.Nontrivial == nextSample {
				nextSample *= 3
				if len(b) < 4000 && len(st.Samples) < 5 {
					st.Samples = append(st.Samples, json.RawMessage(b))
				}
			}
		}
	})
}

// TestReplay runs the cases in the files of VERIF_FILES, separated by a colon,
// VERIF_TIMES times each, and stops at the first failure.
func TestReplay(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := registry[id]
	if p == nil || os.Getenv("VERIF_FILES") == "" {
		t.Skip("no VERIF_PROP or VERIF_FILES")
	}
	times, _ := strconv.Atoi(os.Getenv("VERIF_TIMES"))
	if times < 1 {
		times = 1
	}
	st := &stats{Labels: map[string]int{}}
	out := os.Getenv("VERIF_OUT")
	cur := os.Getenv("VERIF_CUR")
	for _, f := range strings.Split(os.Getenv("VERIF_FILES"), ":") {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(exitBug)
		}
		var wrapped struct {
			Case json.RawMessage `json:"case"`
		}
		if json.Unmarshal(b, &wrapped) == nil && len(wrapped.Case) > 0 {
			b = wrapped.Case
		}
		c, err := p.load(b)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS: cannot decode case:", f, err)
			os.Exit(exitBug)
		}
		if cur != "" {
			os.WriteFile(cur, b, 0666)
		}
		for i := 0; i < times; i++ {
			r := execute(t, p, c)
			st.Cases++
			if r.fail != "" {
				st.Fail = r.fail
				st.Case = json.RawMessage(b)
				break
			}
		}
		if st.Fail != "" {
			break
		}
	}
	st.Done = true
	if out != "" {
		writeJSON(out, st)
	}
	if st.Fail != "" {
		fmt.Fprintf(os.Stderr, "FAIL %s: %s\n", id, st.Fail)
	}
}

// TestList prints the properties the harness has a check for.
func TestList(t *testing.T) {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Fprintln(os.Stderr, strings.Join(ids, " "))
}
