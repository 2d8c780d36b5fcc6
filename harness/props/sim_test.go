package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/stampzilla/gozwave"
)

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// wait lets virtual time pass, and then everything happen that can happen.
func wait(ms float64) {
	time.Sleep(time.Duration(ms * float64(time.Millisecond)))
	synctest.Wait()
}

func millis(ms float64) time.Duration { return time.Duration(ms * float64(time.Millisecond)) }

// write is a frame the library has written to the port.
type write struct {
	at    time.Duration
	frame []byte
	open  int           // which opening of the port
	dead  bool          // the port was closed or failed already
	stale bool          // the port had been opened again before
	stall time.Duration // so long the writing takes
}

func (w *write) String() string { return sprintf("%v:%x", w.at, w.frame) }

// body is what was given to the library to send
func (w *write) body() []byte { return w.frame[3 : len(w.frame)-1] }

// sim is a simulated stick: it records what the library writes, and feeds what
// it is told to. It lives on the virtual clock of a bubble.
type sim struct {
	r     *R
	start time.Time

	mu     sync.Mutex // never held over anything that waits
	port   *simPort
	opens  []time.Duration // successful ones
	tries  []time.Duration // all
	closes []time.Duration
	writes []*write
	acks   []time.Duration

	log []logEntry // everything on the line, in order

	onCommand func(w *write)      // a frame was written
	onAck     func()              // an ACK was written
	onOpen    func(try int) error // the port is opened

	// poll makes reads return without bytes after so long, as ports with a timeout
	// for reading do, and closing return an error when it is odd
	poll time.Duration
}

func newSim(r *R) *sim {
	return &sim{r: r, start: time.Now()}
}

func (s *sim) now() time.Duration { return time.Since(s.start) }

type rxItem struct {
	data []byte
	err  error
}

type simPort struct {
	s      *sim
	n      int
	rx     chan rxItem
	closed chan struct{}

	mu     sync.Mutex
	left   []byte
	with   error // comes together with what is left
	out    []byte
	isDead bool
}

// logEntry is something that happened on the line
type logEntry struct {
	at    time.Duration
	w     *write // written by the library
	data  []byte // received by the library
	lost  bool   // reading failed
	alive bool   // opened
}

// Open implements the PortOpener
func (s *sim) Open() (io.ReadWriteCloser, error) {
	s.mu.Lock()
	try := len(s.tries)
	s.tries = append(s.tries, s.now())
	s.mu.Unlock()
	if s.onOpen != nil {
		if err := s.onOpen(try); err != nil {
			return nil, err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	p := &simPort{s: s, n: len(s.opens), rx: make(chan rxItem, 4000), closed: make(chan struct{})}
	s.opens = append(s.opens, s.now())
	s.log = append(s.log, logEntry{at: s.now(), alive: true})
	s.port = p
	return p, nil
}

func (p *simPort) Read(b []byte) (int, error) {
	p.mu.Lock()
	if len(p.left) > 0 {
		defer p.mu.Unlock()
		return p.rest(b)
	}
	p.mu.Unlock()
	for i := range b { // A Reader may use all of it, whatever it returns
		b[i] = []byte{ack, sof, nak, can}[i%4]
	}
	var nothing <-chan time.Time
	if p.s.poll > 0 {
		t := time.NewTimer(p.s.poll)
		defer t.Stop()
		nothing = t.C
	}
	select {
	case <-nothing:
		return 0, nil
	case i := <-p.rx:
		p.mu.Lock()
		defer p.mu.Unlock()
		p.left, p.with = i.data, i.err
		return p.rest(b)
	case <-p.closed:
		return 0, os.ErrClosed
	}
}

// rest reads from what is left.
func (p *simPort) rest(b []byte) (int, error) {
	n := copy(b, p.left)
	p.left = p.left[n:]
	if len(p.left) > 0 || p.with == nil {
		return n, nil
	}
	p.isDead = true
	return n, p.with
}

func (p *simPort) Close() error {
	p.s.mu.Lock()
	p.s.closes = append(p.s.closes, p.s.now())
	p.s.mu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.isDead = true
	select {
	case <-p.closed:
		return os.ErrClosed
	default:
		close(p.closed)
	}
	if p.s.poll%2 == 1 {
		return syscall.EIO
	}
	return nil
}

func (p *simPort) Write(b []byte) (int, error) {
	p.mu.Lock()
	dead := p.isDead
	p.out = append(p.out, b...)
	var done []*write
	acks := 0
	for len(p.out) > 0 {
		if p.out[0] == ack {
			acks++
			p.out = p.out[1:]
			continue
		}
		n := refLength(p.out)
		if n == -1 || n == 1 {
			p.s.r.Failf("the library wrote %x to the port, which is neither a frame nor an ACK", p.out)
			p.out = nil
			break
		}
		if n > len(p.out) {
			break
		}
		done = append(done, &write{at: p.s.now(), frame: append([]byte(nil), p.out[:n]...), open: p.n, dead: dead})
		p.out = p.out[n:]
	}
	p.mu.Unlock()

	s := p.s
	s.mu.Lock()
	for _, w := range done {
		w.stale = p.n+1 < len(s.opens) && s.opens[p.n+1] < w.at-time.Millisecond
	}
	for i := 0; i < acks; i++ {
		s.acks = append(s.acks, s.now())
	}
	s.writes = append(s.writes, done...)
	for _, w := range done {
		s.log = append(s.log, logEntry{at: w.at, w: w})
	}
	s.mu.Unlock()
	if s.onAck != nil {
		for i := 0; i < acks; i++ {
			s.onAck()
		}
	}
	if s.onCommand != nil {
		for _, w := range done {
			s.onCommand(w)
			if w.stall > 0 {
				select {
				case <-time.After(w.stall):
				case <-p.closed:
					return 0, os.ErrClosed
				}
			}
		}
	}
	if dead {
		return 0, os.ErrClosed
	}
	return len(b), nil
}

// feed gives the library bytes to read, as one chunk. They are lost when no port
// is open.
func (s *sim) feed(b ...byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.port
	if p == nil {
		return
	}
	p.mu.Lock()
	dead := p.isDead
	p.mu.Unlock()
	if dead {
		return
	}
	d := append([]byte(nil), b...)
	s.log = append(s.log, logEntry{at: s.now(), data: d})
	p.rx <- rxItem{data: d}
}

// lose makes reading fail.
func (s *sim) lose(err error) { s.loseWith(err) }

// loseWith makes reading fail, together with the last bytes (which is how a
// Reader is allowed to fail).
func (s *sim) loseWith(err error, last ...byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.port
	if p == nil {
		return
	}
	p.mu.Lock()
	dead := p.isDead
	p.isDead = true
	p.mu.Unlock()
	if dead {
		return
	}
	if len(last) > 0 {
		s.log = append(s.log, logEntry{at: s.now(), data: last})
	}
	s.log = append(s.log, logEntry{at: s.now(), lost: true})
	p.rx <- rxItem{data: last, err: err}
}

func (s *sim) history() []logEntry {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]logEntry(nil), s.log...)
}

func (s *sim) commands() []*write {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*write(nil), s.writes...)
}

func (s *sim) ackCount() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.acks)
}

func (s *sim) clear() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes, s.acks, s.log = nil, nil, nil
}

// connect connects to the simulated stick.
func (s *sim) connect(file string) *gozwave.Controller {
	type result struct {
		c   *gozwave.Controller
		err error
	}
	done := make(chan result, 1)
	go func() {
		c, err := gozwave.ConnectWithCustomPortOpener("sim", file, s)
		done <- result{c, err}
	}()
	select {
	case res := <-done:
		if res.err != nil || res.c == nil {
			s.r.Failf("connecting failed: %v", res.err)
			return nil
		}
		return res.c
	case <-time.After(10 * time.Second):
		s.r.Failf("connecting does not return")
		return nil
	}
}

// isDiscovery says if a frame is the request of the node list at the start.
func (w *write) isDiscovery() bool { return bytes.Equal(w.body(), []byte{fnDiscovery}) }

// events drains the events of a controller from now on.
type eventLog struct {
	mu  sync.Mutex
	all []loggedEvent
}

type loggedEvent struct {
	at time.Duration
	ev interface{}
}

func (s *sim) events(c *gozwave.Controller) *eventLog {
	l := &eventLog{}
	ch := c.GetNextEvent()
	go func() {
		for e := range ch {
			l.mu.Lock()
			l.all = append(l.all, loggedEvent{s.now(), e})
			l.mu.Unlock()
		}
	}()
	return l
}

func (l *eventLog) get() []loggedEvent {
	if l == nil {
		return nil
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]loggedEvent(nil), l.all...)
}
