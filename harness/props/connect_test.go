package props

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"pgregory.net/rapid"
)

// ---- C24

type c24 struct {
	Real  bool      `json:"real,omitempty"` // a pseudo terminal instead of the simulation
	Nil   bool      `json:"nil,omitempty"`  // no port opener
	Tries []c24try  `json:"tries,omitempty"`
	File  string    `json:"file,omitempty"` // none, nodes, broken, missing, directory
	Nodes []netFile `json:"nodes,omitempty"`
	Net   []int     `json:"net,omitempty"`
	Value Hex       `json:"value,omitempty"` // of a sensor, and of a command
	Level int       `json:"level,omitempty"`
	Quiet int       `json:"quiet,omitempty"` // ms in which the pseudo terminal is quiet
}

// The errors that opening a port gives
var openErrors = map[string]error{
	"EOF":            io.EOF,
	"unexpected EOF": io.ErrUnexpectedEOF,
	"closed pipe":    io.ErrClosedPipe,
	"closed":         os.ErrClosed,
	"not there":      &os.PathError{Op: "open", Path: "/dev/ttyACM0", Err: syscall.ENOENT},
	"denied":         &os.PathError{Op: "open", Path: "/dev/ttyACM0", Err: syscall.EACCES},
	"busy":           syscall.EBUSY,
	"interrupted":    syscall.EINTR,
	"again":          syscall.EAGAIN,
	"deadline":       os.ErrDeadlineExceeded,
	"empty":          namedError(""),
	"other":          namedError("other"),
}

// c24try is what happens when the port is opened.
type c24try struct {
	Delay int    `json:"delay,omitempty"` // ms until Open returns
	Err   string `json:"err,omitempty"`   // with this error
	Lost  int    `json:"lost,omitempty"`  // ms after opening it, reading fails; 0 never
}

func init() {
	reg("C24", "connecting with generated results of opening the port (errors, at once and after a while, ports that are lost again within 200 ms and after that), without a port opener, with and without a configuration "+
		"(also damaged, missing, or a directory), and what happens in the minute after it; a part on a pseudo terminal with every kind of byte that a terminal treats specially; "+
		"non-trivial: opening fails or the port is lost, or there is a configuration, or the pseudo terminal",
		func(t *rapid.T) c24 {
			c := c24{File: rapid.SampledFrom([]string{"none", "none", "nodes", "nodes", "broken", "missing", "directory"}).Draw(t, "file")}
			c.Real = rapid.IntRange(0, 39).Draw(t, "real") == 27
			c.Nil = rapid.IntRange(0, 29).Draw(t, "nil") == 3
			for k := rapid.IntRange(0, 4).Draw(t, "tries"); k > 0; k-- {
				y := c24try{Delay: rapid.SampledFrom([]int{0, 0, 0, 1, 30, 1000, 9000}).Draw(t, "delay")}
				switch rapid.IntRange(0, 5).Draw(t, "result") {
				case 0, 1:
					y.Err = rapid.SampledFrom(openErrorNames).Draw(t, "err")
				case 2, 3:
					y.Lost = rapid.OneOf(rapid.IntRange(1, 190), rapid.IntRange(210, 3000)).Draw(t, "lost")
				}
				c.Tries = append(c.Tries, y)
			}
			used := map[int]bool{1: true}
			pick := func() int {
				id := rapid.IntRange(2, 232).Draw(t, "id")
				for used[id] {
					id = id%232 + 1
				}
				used[id] = true
				return id
			}
			if c.File == "nodes" {
				for k := rapid.IntRange(1, 3).Draw(t, "nodes"); k > 0; k-- {
					c.Nodes = append(c.Nodes, netFile{ID: pick(), IDs: genIDs(t), Brand: "ACME", Classes: Hex{ccSwitchBinary}, Endpoints: rapid.IntRange(-1, 2).Draw(t, "eps")})
				}
			}
			for k := rapid.IntRange(1, 3).Draw(t, "net"); k > 0; k-- {
				c.Net = append(c.Net, pick())
			}
			c.Level = rapid.IntRange(0, 99).Draw(t, "level")
			if c.Real {
				special := rapid.SampledFrom([]byte{0x00, 0x01, 0x03, 0x04, 0x06, 0x0A, 0x0D, 0x11, 0x13, 0x15, 0x16, 0x18, 0x1A, 0x1C, 0x7F, 0xFF})
				c.Quiet = rapid.SampledFrom([]int{0, 0, 0, 0, 400, 1500, 4000}).Draw(t, "quiet")
				c.Value = rapid.SliceOfN(rapid.OneOf(special, rapid.Byte()), 4, 4).Draw(t, "value")
			}
			return c
		}, runC24)
}

var openErrorNames = []string{"EOF", "unexpected EOF", "closed pipe", "closed", "not there", "denied", "busy", "interrupted", "again", "deadline", "empty", "other"}

type opener func() (io.ReadWriteCloser, error)

func (f opener) Open() (io.ReadWriteCloser, error) { return f() }

type namedError string

func (e namedError) Error() string { return string(e) }

func (c c24) configuration() []byte { return netCase{File: c.Nodes}.configuration() }

func runC24(c c24, r *R) {
	dir, err := os.MkdirTemp(scratch, "c24.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	file := ""
	if c.File != "none" {
		file = filepath.Join(dir, "nodes.json")
	}
	switch c.File {
	case "nodes":
		err = os.WriteFile(file, c.configuration(), 0666)
	case "broken":
		err = os.WriteFile(file, []byte(`{"Nodes":{"2":{"id":2,`), 0666)
	case "directory":
		err = os.Mkdir(file, 0777)
	}
	if err != nil {
		harnessBug(err)
	}
	if c.Real {
		r.Label("pseudo terminal")
		r.Nontrivial(true)
		c.onPty(r, dir, file)
		return
	}
	bubble(r, func() {
		s := newSim(r)
		s.onCommand = func(w *write) {
			disc := w.isDiscovery()
			time.AfterFunc(time.Millisecond, func() {
				s.feed(ack)
				if disc {
					s.feed(discoveryFrame(bitmapOf(c.Net))...)
				}
			})
		}
		// What has to come out of it
		var errs []error
		for _, y := range c.Tries {
			if y.Err == "" {
				errs = append(errs, nil)
			} else {
				e := openErrors[y.Err]
				if e == nil {
					e = namedError(y.Err)
				}
				errs = append(errs, e)
			}
		}
		s.onOpen = func(try int) error {
			if try >= len(c.Tries) {
				return nil
			}
			y := c.Tries[try]
			time.Sleep(time.Duration(y.Delay) * time.Millisecond)
			if errs[try] == nil && y.Lost > 0 {
				time.AfterFunc(time.Duration(y.Lost)*time.Millisecond+333*time.Microsecond, func() { s.lose(io.EOF) })
			}
			return errs[try]
		}
		var want error
		var at time.Duration
		tries := 0
		for k := 0; ; k++ {
			tries++
			if k >= len(c.Tries) {
				at += 200 * time.Millisecond
				break
			}
			y := c.Tries[k]
			at += time.Duration(y.Delay) * time.Millisecond
			if errs[k] != nil {
				want = errs[k]
				break
			}
			if y.Lost == 0 || y.Lost > 200 {
				at += 200 * time.Millisecond
				break
			}
			at += time.Duration(y.Lost)*time.Millisecond + time.Second
		}
		if c.Nil {
			at, want, tries = 0, errors.New("no port opener"), 0
		}

		// Connecting
		var con *gozwave.Controller
		var back time.Duration
		var opens, openTries int
		done := make(chan bool, 1)
		go func() {
			if c.Nil {
				con, err = gozwave.ConnectWithCustomPortOpener("sim", file, nil)
			} else {
				con, err = gozwave.ConnectWithCustomPortOpener("sim", file, s)
			}
			back = s.now()
			s.mu.Lock()
			opens, openTries = len(s.opens), len(s.tries)
			s.mu.Unlock()
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(at + 30*time.Second):
			r.Failf("connecting does not return, it should after %v with %v", at, want)
			return
		}
		switch {
		case want != nil && (err == nil || con != nil):
			r.Failf("connecting gave %v and a controller %v after %v, should fail with %v after %v", err, con != nil, back, want, at)
		case want == nil && (err != nil || con == nil):
			r.Failf("connecting failed with %v after %v, the port was open for 200 ms after %v", err, back, at)
		case want != nil && !c.Nil && !errors.Is(err, want):
			r.Failf("connecting failed with %v, opening the port with %v", err, want)
		case !near(back, at, 2*time.Millisecond, 100*time.Millisecond):
			r.Failf("connecting returned after %v (%v), should after %v", back, err, at)
		case openTries != tries:
			r.Failf("connecting opened the port %d times, should %d times", openTries, tries)
		}
		if r.Failed() {
			return
		}
		_ = opens
		if want != nil {
			// Nothing is left behind
			s.mu.Lock()
			writes := len(s.writes)
			s.mu.Unlock()
			wait(61000)
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(s.tries) != tries {
				r.Failf("connecting has failed after %v, and the port was opened again after %v", back, s.tries[tries])
			}
			if len(s.opens) > len(s.closes) {
				r.Failf("connecting has failed, but a port is still open")
			}
			if len(s.writes) != writes {
				r.Failf("connecting has failed after %v, and later %v was written", back, s.writes[writes])
			}
			// The error may come at any moment
			for k := 0; k < 200 && at == 0 && !c.Nil && !r.Failed(); k++ {
				begun := s.now()
				con, err := gozwave.ConnectWithCustomPortOpener("sim", file, opener(func() (io.ReadWriteCloser, error) { return nil, want }))
				if took := s.now() - begun; con != nil || !errors.Is(err, want) || took > 100*time.Millisecond {
					r.Failf("connecting the %d. time gave %v after %v, opening the port fails at once with %v", k+2, err, took, want)
				}
			}
			return
		}
		// The controller works
		con.Connection.RLock()
		up := con.Connection.Connected
		con.Connection.RUnlock()
		if !up {
			r.Failf("connecting has returned after %v, and Connected is false", back)
		}
		all := con.Nodes.All()
		loaded := 0
		for _, f := range c.Nodes {
			n := all[f.ID]
			if n == nil {
				r.Failf("connecting has returned, and node %d of the configuration is not there", f.ID)
				return
			}
			if d := f.differs(n); d != "" {
				r.Failf("node %d of the configuration %s", f.ID, d)
			}
			loaded++
		}
		for id := range all {
			if (netCase{File: c.Nodes}).inFile(id) == nil {
				found := false
				for _, k := range c.Net {
					found = found || k == id
				}
				if !found {
					r.Failf("there is a node %d, which is in no list", id)
				}
			}
		}
		last := c24try{}
		if tries <= len(c.Tries) {
			last = c.Tries[tries-1]
		}
		if last.Lost > 0 && last.Lost < 2000 { // It is lost, and perhaps opened again
			return
		}
		wait(1500)
		for _, id := range c.Net {
			n := con.Nodes.Get(id)
			if n == nil {
				r.Failf("node %d of the network is not there after connecting", id)
				return
			}
		}
		if last.Lost > 0 {
			return
		}
		s.feed(reportFrame(byte(c.Net[0]), []byte{ccMultilevel, 0x03, byte(c.Level)})...)
		synctest.Wait()
		n := con.Nodes.Get(c.Net[0])
		n.RLock()
		defer n.RUnlock()
		if n.StateFloat["level"] != float64(c.Level) {
			r.Failf("a report of level %d was received, and the level of the node is %v", c.Level, n.StateFloat["level"])
		}
	})
	failed, lost := false, false
	for _, y := range c.Tries {
		failed = failed || y.Err != ""
		lost = lost || y.Lost > 0
	}
	r.LabelIf(failed, "opening the port fails")
	r.LabelIf(lost, "the port is lost")
	r.LabelIf(c.Nil, "no port opener")
	r.Label("configuration: %s", c.File)
	r.Nontrivial(failed || lost || c.File != "none")
}

// onPty connects to a pseudo terminal, in real time.
func (c c24) onPty(r *R, dir, file string) {
	p, err := openPty()
	if err != nil {
		harnessBug(err)
	}
	link := filepath.Join(dir, "tty")
	if err := os.Symlink(p.slave, link); err != nil {
		harnessBug(err)
	}
	// When the directory has gone, the library can not find it again
	defer p.master.Close()
	defer os.Remove(link)
	if len(c.Tries) > 0 && c.Tries[0].Err != "" {
		os.Rename(link, link+".away")
		var con *gozwave.Controller
		if !within(func() { con, err = gozwave.Connect(link, file) }) {
			r.Failf("connecting to a port that is not there does not return")
			return
		}
		if err == nil || con != nil {
			r.Failf("connecting to a port that is not there gave no error")
			return
		}
		os.Rename(link+".away", link)
		r.Label("a real port that is not there")
	}
	var con *gozwave.Controller
	if !within(func() { con, err = gozwave.Connect(link, file) }) {
		r.Failf("connecting to a pseudo terminal does not return")
		return
	}
	if err != nil || con == nil {
		r.Failf("connecting to a pseudo terminal failed: %v", err)
		return
	}
	// Nothing happens for a while
	for end := time.Now().Add(time.Duration(c.Quiet) * time.Millisecond); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		con.Connection.RLock()
		up := con.Connection.Connected
		con.Connection.RUnlock()
		if !up {
			r.Failf("the pseudo terminal is open and quiet, and the controller is not connected any more")
			return
		}
	}
	r.LabelIf(c.Quiet > 0, "the port is quiet for a while")
	tty, err := os.OpenFile(p.slave, os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	if err != nil {
		harnessBug(err)
	}
	defer tty.Close()
	var ios syscall.Termios
	raw, err := tty.SyscallConn()
	if err != nil {
		harnessBug(err)
	}
	raw.Control(func(fd uintptr) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&ios))); e != 0 {
			harnessBug(e)
		}
	})
	if ios.Cflag&0x100F != syscall.B115200 { // CBAUD
		r.Failf("the port has the speed %#x, which is not that of 115200 baud", ios.Cflag&0x100F)
	}
	count := func(f []byte) int { return bytes.Count(p.written(), f) }
	// The library asks for the nodes
	if !until(func() bool { return count(refFrame([]byte{0x00, fnDiscovery})) > 0 }) {
		r.Failf("the list of nodes is not requested, the port got %x", p.written())
		return
	}
	p.master.Write([]byte{ack})
	p.master.Write(discoveryFrame(bitmapOf(c.Net)))
	if !until(func() bool { return con.Nodes.Get(c.Net[0]) != nil }) {
		r.Failf("node %d of the network is not there after the list of nodes", c.Net[0])
		return
	}
	// Every byte passes
	value := append([]byte{ccSensor, 0x05, 1, 4}, c.Value...)
	f := reportFrame(byte(c.Net[0]), value)
	acks := func() int { // what is written is frames and ACKs
		n := 0
		for b := p.written(); len(b) > 0; {
			k := refLength(b)
			if k == 1 && b[0] == ack {
				n++
			}
			if k <= 0 || k > len(b) {
				break
			}
			b = b[k:]
		}
		return n
	}
	before := acks()
	p.master.Write(f)
	if !until(func() bool { return acks() > before }) {
		r.Failf("the frame %x was written to the pseudo terminal, and is not acknowledged; the port got %x", f, p.written())
		return
	}
	n := con.Nodes.Get(c.Net[0])
	want := float64(int32(uint32(c.Value[0])<<24 | uint32(c.Value[1])<<16 | uint32(c.Value[2])<<8 | uint32(c.Value[3])))
	have := func() (v float64, ok bool) {
		n.RLock()
		defer n.RUnlock()
		for _, v := range n.StateFloat {
			return v, true
		}
		return 0, false
	}
	until(func() bool { v, ok := have(); return ok && v == want })
	if v, ok := have(); !ok || v != want {
		r.Failf("the sensor value %x was received, and the node has %v, should be %v", c.Value, v, want)
		return
	}
	raws := commands.NewRaw(c.Value)
	raws.SetNode(c.Net[0])
	body := raws.Encode()
	stop := make(chan bool)
	defer close(stop)
	go func() { // The requests of the identification are acknowledged too
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
				p.master.Write([]byte{ack})
			}
		}
	}()
	if !within(func() { con.Connection.Write(raws) }) {
		r.Failf("writing the command %x does not return", body)
		return
	}
	if !until(func() bool { return count(refFrame(append([]byte{0x00}, body...))) > 0 }) {
		r.Failf("the command %x was written, and the port got %x", body, p.written())
	}
}
