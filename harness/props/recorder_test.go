package props

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/stampzilla/gozwave/serialrecorder"
	"github.com/tarm/serial"
	"pgregory.net/rapid"
)

// ---- C22

type c22 struct {
	Steps []c22step `json:"steps"`
	Slow  int       `json:"slow,omitempty"`  // µs that writing to the log takes
	Fails []int     `json:"fails,omitempty"` // the writes to the log that fail
	Full  int       `json:"full,omitempty"`  // all of them fail after this
}

type c22step struct {
	Do     string `json:"do"` // receive, write, close, open, fail, hangup, reopen, both, empty, burst
	Data   Hex    `json:"data,omitempty"`
	Chunks []int  `json:"chunks,omitempty"` // it is received in these
	Buffer []int  `json:"buffer,omitempty"` // sizes of the buffers read into
	Writes []Hex  `json:"writes,omitempty"` // by writers at the same time
	Pause  int    `json:"pause,omitempty"`  // µs
	Count  int    `json:"count,omitempty"`
}

// pty is a pseudo terminal: what is written to its master is received by the
// port, and the other way round.
type pty struct {
	master *os.File
	slave  string

	mu  sync.Mutex
	got []byte // written by the port
}

func openPty() (*pty, error) {
	p, err := openMutePty()
	if err == nil {
		go p.drain()
	}
	return p, err
}

// openMutePty opens a pseudo terminal that takes nothing from the port.
func openMutePty() (*pty, error) {
	f, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, err
	}
	c, err := f.SyscallConn()
	if err != nil {
		return nil, err
	}
	var n uint32
	var unlock int32
	var errno syscall.Errno
	c.Control(func(fd uintptr) {
		_, _, errno = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock)))
		if errno == 0 {
			_, _, errno = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
		}
	})
	if errno != 0 {
		f.Close()
		return nil, errno
	}
	return &pty{master: f, slave: sprintf("/dev/pts/%d", n)}, nil
}

func (p *pty) drain() {
	buf := make([]byte, 4096)
	for {
		n, err := p.master.Read(buf)
		p.mu.Lock()
		p.got = append(p.got, buf[:n]...)
		p.mu.Unlock()
		if errors.Is(err, os.ErrClosed) {
			return
		}
		if err != nil { // The port is not open
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func (p *pty) written() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), p.got...)
}

// lockedBuffer is a log
type lockedBuffer struct {
	mu    sync.Mutex
	b     bytes.Buffer
	slow  time.Duration
	n     int
	fails map[int]bool
	full  int
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	if l.slow > 0 {
		time.Sleep(l.slow)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	if l.fails[l.n] || l.full > 0 && l.n > l.full {
		return 0, errors.New("no space left")
	}
	return l.b.Write(p)
}

func (l *lockedBuffer) rows() (rows []serialrecorder.Row, err error) {
	l.mu.Lock()
	b := append([]byte(nil), l.b.Bytes()...)
	l.mu.Unlock()
	dec := gob.NewDecoder(bytes.NewReader(b))
	for {
		var r serialrecorder.Row
		if err := dec.Decode(&r); err == io.EOF {
			return rows, nil
		} else if err != nil {
			return rows, err
		}
		rows = append(rows, r)
	}
}

const c22limit = 20 * time.Second

// within runs f, and says if it ended in time.
func within(f func()) bool {
	done := make(chan bool, 1)
	go func() {
		f()
		done <- true
	}()
	select {
	case <-done:
		return true
	case <-time.After(c22limit):
		return false
	}
}

// until waits for a condition.
func until(f func() bool) bool {
	for end := time.Now().Add(c22limit); ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func kindOfError(err error) string {
	switch {
	case err == nil:
		return "no error"
	case err == io.EOF:
		return "EOF"
	}
	return "an error"
}

func init() {
	reg("C22", "1 to 12 steps on a recorder at a pseudo terminal: bytes received in chunks and read with buffers of generated sizes that are reused, writes, writes by several goroutines while bytes are received, "+
		"hundreds of small reads and writes, closing, opening again, opening that fails, the device going away, writing during all of that; a log that is slow or fails; errors are compared with those of the same port without recorder; "+
		"non-trivial: bytes in both directions, and the port opened twice or several goroutines",
		func(t *rapid.T) c22 {
			var c c22
			switch rapid.IntRange(0, 7).Draw(t, "log") {
			case 0, 1:
				c.Slow = rapid.SampledFrom([]int{1, 50, 500}).Draw(t, "slow")
			case 2:
				c.Fails = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 4).Draw(t, "fails")
				if rapid.Bool().Draw(t, "full") {
					c.Full = rapid.IntRange(1, 30).Draw(t, "after")
				}
			}
			n := rapid.IntRange(1, 12).Draw(t, "steps")
			for i := 0; i < n; i++ {
				s := c22step{Do: rapid.SampledFrom([]string{"receive", "receive", "receive", "write", "write", "write", "both", "both", "burst", "close", "open", "fail", "hangup", "cut", "reopen", "empty"}).Draw(t, "do")}
				data := func() Hex {
					if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
						return Hex(bytes.Repeat([]byte{byte(i + 1)}, rapid.IntRange(100, 1500).Draw(t, "length")))
					}
					return genBytes(1, 40).Draw(t, "data")
				}
				switch s.Do {
				case "burst":
					s.Count = rapid.IntRange(90, 350).Draw(t, "count")
				case "write":
					s.Data = data()
				case "receive", "both":
					s.Data = data()
					for k := rapid.IntRange(0, 3).Draw(t, "nchunks"); k > 0; k-- {
						s.Chunks = append(s.Chunks, rapid.IntRange(1, 20).Draw(t, "chunk"))
					}
					for k := rapid.IntRange(1, 3).Draw(t, "nbuffers"); k > 0; k-- {
						s.Buffer = append(s.Buffer, rapid.SampledFrom([]int{1, 2, 3, 7, 16, 64, 128, 2000}).Draw(t, "buffer"))
					}
				}
				if s.Do == "both" || s.Do == "reopen" {
					for k := rapid.IntRange(1, 3).Draw(t, "writers"); k > 0; k-- {
						s.Writes = append(s.Writes, genBytes(1, 12).Draw(t, "write"))
					}
				}
				s.Pause = rapid.SampledFrom([]int{0, 0, 0, 100, 2000}).Draw(t, "pause")
				c.Steps = append(c.Steps, s)
			}
			return c
		}, runC22)
}

func runC22(c c22, r *R) {
	dir, err := os.MkdirTemp(scratch, "c22.")
	if err != nil {
		harnessBug(err)
	}
	defer os.RemoveAll(dir)
	link := filepath.Join(dir, "tty")
	var p *pty
	plugAny := func(openPty func() (*pty, error)) {
		p, err = openPty()
		if err != nil {
			harnessBug(err)
		}
		os.Remove(link)
		if err := os.Symlink(p.slave, link); err != nil {
			harnessBug(err)
		}
	}
	plug := func() { plugAny(openPty) }
	plug()
	defer func() { p.master.Close() }()

	rec := serialrecorder.New(link, 115200)
	record := &lockedBuffer{slow: time.Duration(c.Slow) * time.Microsecond, full: c.Full, fails: map[int]bool{}}
	for _, n := range c.Fails {
		record.fails[n] = true
	}
	rec.Logger = record
	var port io.ReadWriteCloser
	open := func() bool {
		var err error
		if !within(func() { port, err = rec.Open() }) {
			r.Failf("Open does not return")
			return false
		}
		if err != nil {
			if ref, referr := serial.OpenPort(&serial.Config{Name: link, Baud: 115200}); referr == nil {
				ref.Close()
				r.Failf("opening the port through the recorder failed: %v", err)
			} else {
				harnessBug(referr)
			}
			return false
		}
		return true
	}
	if !open() {
		return
	}
	isOpen := true
	var wantRead, wantWritten []byte // since the beginning
	onWire := 0                      // of the written bytes, those that the other ptys got
	opened, parallel := 1, false

	// receive reads through the recorder until n bytes were got
	receive := func(data []byte, chunks, sizes []int) bool {
		master := p.master
		go func() {
			rest := data
			for _, k := range chunks {
				if k > len(rest) {
					k = len(rest)
				}
				master.Write(rest[:k])
				rest = rest[k:]
				time.Sleep(50 * time.Microsecond)
			}
			master.Write(rest)
		}()
		var got []byte
		buf := make([]byte, 4096)
		for i := 0; len(got) < len(data); i++ {
			b := buf[:sizes[i%len(sizes)]]
			for k := range b {
				b[k] = 0xA5
			}
			n, err := port.Read(b)
			if n < 0 || n > len(b) {
				r.Failf("Read with a buffer of %d bytes gave %d", len(b), n)
				return false
			}
			got = append(got, b[:n]...)
			for k := n; k < len(b); k++ {
				if b[k] != 0xA5 {
					r.Failf("Read gave %d bytes and wrote behind them", n)
					return false
				}
			}
			if err != nil || n == 0 {
				r.Failf("Read gave %d bytes and %v, while bytes were received", n, err)
				return false
			}
			for k := range b { // It is used for something else
				b[k] = 0x5A
			}
		}
		if !bytes.Equal(got, data) {
			r.Failf("received %x, and read %x through the recorder", data, got)
			return false
		}
		return true
	}
	send := func(data []byte) bool {
		b := append([]byte(nil), data...)
		n, err := port.Write(b)
		if n != len(data) || err != nil {
			r.Failf("Write of %d bytes gave %d and %v", len(data), n, err)
			return false
		}
		if !bytes.Equal(b, data) {
			r.Failf("Write changed the data of the caller")
			return false
		}
		for k := range b {
			b[k] = 0x5A
		}
		return true
	}
	// settle waits until what was written has arrived, in any order of the writers
	settle := func(n int) []byte {
		until(func() bool { return len(p.written()) >= onWire+n })
		w := p.written()
		return w[onWire:]
	}

	for i, s := range c.Steps {
		ok := true
		if !isOpen && s.Do != "open" && s.Do != "close" {
			if s.Do == "fail" || i%3 == 0 {
				// The errors of a closed port
				n, err := port.Read(make([]byte, 4))
				m, werr := port.Write([]byte{1, 2})
				if n > 0 || err == nil || m > 0 || werr == nil {
					r.Failf("step %d: reading from a closed port gave %d and %v, writing %d and %v", i, n, err, m, werr)
				}
				r.Label("use of a closed port")
			}
			if !open() {
				return
			}
			isOpen = true
			opened++
		}
		switch s.Do {
		case "receive":
			if !within(func() { ok = receive(s.Data, s.Chunks, s.Buffer) }) {
				r.Failf("step %d: not all of %x could be read through the recorder", i, s.Data)
				return
			}
			wantRead = append(wantRead, s.Data...)
		case "burst":
			var data, sent []byte
			for k := 0; k < s.Count; k++ {
				data = append(data, byte(k), byte(k>>8))
			}
			if !within(func() {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < s.Count && !r.Failed(); k++ {
						if send(data[k : k+2]) {
							sent = append(sent, data[k:k+2]...)
						}
					}
				}()
				ok = receive(data, nil, []int{2})
				wg.Wait()
			}) {
				r.Failf("step %d: %d reads and writes through the recorder do not end", i, s.Count)
				return
			}
			parallel = true
			wantRead = append(wantRead, data...)
			w := settle(len(sent))
			if !r.Failed() && !bytes.Equal(w, sent) {
				r.Failf("step %d: wrote %x through the recorder, and %x arrived", i, sent, w)
			}
			wantWritten = append(wantWritten, w...)
			onWire += len(w)
			r.Label("many reads and writes")
		case "write", "both":
			writes := s.Writes
			if s.Do == "write" {
				writes = []Hex{s.Data}
			}
			done := within(func() {
				var wg sync.WaitGroup
				if s.Do == "both" {
					parallel = true
					wg.Add(1)
					go func() {
						defer wg.Done()
						ok = receive(s.Data, s.Chunks, s.Buffer)
					}()
				}
				for _, d := range writes {
					wg.Add(1)
					go func() {
						defer wg.Done()
						send(d)
					}()
				}
				wg.Wait()
			})
			if !done {
				r.Failf("step %d: reading and writing through the recorder does not end", i)
				return
			}
			if s.Do == "both" {
				wantRead = append(wantRead, s.Data...)
			}
			total := 0
			for _, d := range writes {
				total += len(d)
			}
			w := settle(total)
			if !r.Failed() && !isMerge(w, writes) {
				r.Failf("step %d: wrote %v through the recorder, and %x arrived", i, writes, w)
			}
			wantWritten = append(wantWritten, w...)
			onWire += len(w)
		case "close":
			if isOpen {
				if err := port.Close(); err != nil {
					r.Failf("step %d: closing the port gave %v", i, err)
				}
				isOpen = false
			} else if err := port.Close(); err == nil {
				r.Failf("step %d: closing a closed port gave no error", i)
			}
		case "open":
			if isOpen {
				if err := port.Close(); err != nil {
					r.Failf("step %d: closing the port gave %v", i, err)
				}
			}
			if !open() {
				return
			}
			isOpen = true
			opened++
		case "fail":
			port.Close()
			os.Rename(link, link+".away")
			if _, err := rec.Open(); err == nil {
				r.Failf("step %d: opening a port that is not there gave no error", i)
			}
			// A connection uses its port until there is another one
			if n, err := port.Write([]byte{1, 2}); n > 0 || err == nil {
				r.Failf("step %d: after opening has failed, writing gave %d and %v", i, n, err)
			}
			if n, err := port.Read(make([]byte, 3)); n > 0 || err == nil {
				r.Failf("step %d: after opening has failed, reading gave %d and %v", i, n, err)
			}
			if err := port.Close(); err == nil {
				r.Failf("step %d: after opening has failed, closing the closed port gave no error", i)
			}
			os.Rename(link+".away", link)
			if !open() {
				return
			}
			opened++
		case "hangup":
			// What the port says, with and without the recorder
			q, err := openPty()
			if err != nil {
				harnessBug(err)
			}
			ref, err := serial.OpenPort(&serial.Config{Name: q.slave, Baud: 115200})
			if err != nil {
				harnessBug(err)
			}
			q.master.Close()
			p.master.Close()
			buf := make([]byte, 16)
			var n, m, rn, rm int
			var e, werr, re, rwerr error
			if !within(func() {
				n, e = port.Read(buf)
				m, werr = port.Write([]byte{1, 2, 3})
			}) {
				r.Failf("step %d: reading does not end when the device has gone", i)
				return
			}
			rn, re = ref.Read(buf)
			rm, rwerr = ref.Write([]byte{1, 2, 3})
			ref.Close()
			if n != rn || m != rm || kindOfError(e) != kindOfError(re) || kindOfError(werr) != kindOfError(rwerr) {
				r.Failf("step %d: when the device has gone, Read and Write give %d, %v, %d, %v through the recorder, and %d, %v, %d, %v without it", i, n, e, m, werr, rn, re, rm, rwerr)
			}
			port.Close()
			plug()
			onWire = 0
			if !open() {
				return
			}
			opened++
			r.Label("the device goes away")
		case "cut":
			// The device goes away during a write, which is only done in part
			port.Close()
			p.master.Close()
			plugAny(openMutePty)
			onWire = 0
			if !open() {
				return
			}
			opened++
			data := make([]byte, 20000+s.Pause)
			for k := range data {
				data[k] = byte(k) ^ byte(k>>8)
			}
			master := p.master
			time.AfterFunc(10*time.Millisecond, func() { master.Close() })
			var n int
			var err error
			if !within(func() { n, err = port.Write(append([]byte(nil), data...)) }) {
				r.Failf("step %d: writing does not end when the device goes away", i)
				return
			}
			if n < 0 || n > len(data) || (err == nil) != (n == len(data)) {
				r.Failf("step %d: Write of %d bytes gave %d and %v when the device went away", i, len(data), n, err)
				return
			}
			wantWritten = append(wantWritten, data[:n]...)
			port.Close()
			plug()
			onWire = 0
			if !open() {
				return
			}
			opened++
			r.LabelIf(n > 0 && err != nil, "a write that is only done in part")
		case "reopen":
			// Somebody writes while the port is lost and opened again
			var wg sync.WaitGroup
			wg.Add(1)
			var sent []byte
			lost := port // What a connection uses
			go func() {
				defer wg.Done()
				for _, d := range s.Writes {
					n, err := lost.Write(append([]byte(nil), d...))
					if n < 0 || n > len(d) || (err == nil) != (n == len(d)) {
						r.Failf("step %d: Write of %d bytes while the port is opened again gave %d and %v", i, len(d), n, err)
						return
					}
					sent = append(sent, d[:n]...)
				}
			}()
			if err := port.Close(); err != nil {
				r.Failf("step %d: closing the port gave %v", i, err)
			}
			for k := s.Pause / 1000; k > 0; k-- {
				os.Rename(link, link+".away")
				if _, err := rec.Open(); err == nil {
					r.Failf("step %d: opening a port that is not there gave no error", i)
				}
				os.Rename(link+".away", link)
			}
			if !open() {
				return
			}
			if !within(wg.Wait) {
				r.Failf("step %d: writing while the port is opened again does not end", i)
				return
			}
			wantWritten = append(wantWritten, sent...)
			opened++
			parallel = true
			port.Close()
			p.master.Close() // It has an unknown part of what was sent
			plug()
			onWire = 0
			if !open() {
				return
			}
			r.Label("written while the port is opened again")
		case "empty":
			n, err := port.Write(nil)
			if n != 0 || err != nil {
				r.Failf("step %d: writing nothing gave %d and %v", i, n, err)
			}
		}
		if r.Failed() || !ok {
			return
		}
		if s.Pause > 0 {
			time.Sleep(time.Duration(s.Pause) * time.Microsecond)
		}
	}
	if isOpen {
		port.Close()
	}

	r.LabelIf(c.Slow > 0, "a slow log")
	if len(c.Fails) > 0 || c.Full > 0 {
		r.Label("a log that fails")
		r.Nontrivial(len(wantRead) > 0 && len(wantWritten) > 0)
		return // Nothing is said about the recording
	}

	// The recording
	var rows []serialrecorder.Row
	var recErr error
	var haveRead, haveWritten []byte
	until(func() bool {
		rows, recErr = record.rows()
		haveRead, haveWritten = nil, nil
		for _, row := range rows {
			if row.Direction == serialrecorder.DirectionRead {
				haveRead = append(haveRead, row.Data...)
			} else {
				haveWritten = append(haveWritten, row.Data...)
			}
		}
		return recErr == nil && len(haveRead) >= len(wantRead) && len(haveWritten) >= len(wantWritten)
	})
	if recErr != nil {
		r.Failf("the recording can not be decoded: %v", recErr)
		return
	}
	if !bytes.Equal(haveRead, wantRead) {
		r.Failf("%x was read, and recorded as %x", wantRead, haveRead)
	}
	if !bytes.Equal(haveWritten, wantWritten) {
		r.Failf("%x was written, and recorded as %x", wantWritten, haveWritten)
	}
	var last [2]time.Time
	for i, row := range rows {
		d := 0
		if row.Direction == serialrecorder.DirectionWrite {
			d = 1
		}
		if row.Timestamp.Before(last[d]) {
			r.Failf("the time stamp of row %d (%s, %x) is %v before the one of the row before", i, row.Direction, row.Data, last[d].Sub(row.Timestamp))
		}
		last[d] = row.Timestamp
	}
	r.LabelIf(opened > 1, "opened more than once")
	r.LabelIf(parallel, "several goroutines")
	r.Nontrivial(len(wantRead) > 0 && len(wantWritten) > 0 && (opened > 1 || parallel))
}

// isMerge says if got is the pieces one after the other, in any order.
func isMerge(got []byte, pieces []Hex) bool {
	if len(pieces) == 0 {
		return len(got) == 0
	}
	for i, p := range pieces {
		if bytes.HasPrefix(got, p) {
			rest := append(append([]Hex(nil), pieces[:i]...), pieces[i+1:]...)
			if isMerge(got[len(p):], rest) {
				return true
			}
		}
	}
	return false
}
