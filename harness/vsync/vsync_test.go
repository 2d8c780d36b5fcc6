package vsync

import (
	"sync"
	"testing"
)

func TestLocks(t *testing.T) {
	var m RWMutex
	var k Mutex
	n, r, q := 0, 0, 0
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3000; j++ {
				if j%3 == 0 {
					m.Lock()
					n++
					m.Unlock()
				} else {
					m.RLock()
					_ = n
					m.RUnlock()
				}
				k.Lock()
				q++
				k.Unlock()
				_ = r
			}
		}()
	}
	wg.Wait()
	if n != 8000 || q != 24000 {
		t.Fatal(n, q)
	}
}

// Under the race detector this has to fail: two readers are not ordered. Run it
// with -race and without -short to see that the locks do not hide races.
func TestReadersRace(t *testing.T) {
	if testing.Short() {
		t.Skip()
	}
	var m RWMutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				m.RLock()
				n++
				m.RUnlock()
			}
		}()
	}
	wg.Wait()
}
