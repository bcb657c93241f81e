package lib

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Clock is the wall clock of an om-core built with a replaceable one (binary omclock).
type Clock struct {
	Path          string
	frozen, shift *int64
}

var clockN atomic.Int64

// NewClock makes a clock that shows the real time; nil when there is no server with a replaceable clock.
func (r *Run) NewClock() *Clock {
	if r.Bins["omclock"] == "" {
		r.Count("replaceable_clock_unavailable", 1)
		return nil
	}
	p := filepath.Join(r.Dir, fmt.Sprintf("clock-%d", clockN.Add(1)))
	if err := os.WriteFile(p, make([]byte, 16), 0o644); err != nil {
		r.Inconclusive("%v", err)
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		r.Inconclusive("%v", err)
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		r.Inconclusive("%v", err)
	}
	return &Clock{Path: p, frozen: (*int64)(unsafe.Pointer(&b[0])), shift: (*int64)(unsafe.Pointer(&b[8]))}
}

// Env selects this clock.
func (c *Clock) Env() map[string]string { return map[string]string{"VERIF_CLOCK": c.Path} }

// Now is the time the clock shows.
func (c *Clock) Now() time.Time {
	if f := atomic.LoadInt64(c.frozen); f != 0 {
		return time.Unix(0, f)
	}
	return time.Unix(0, time.Now().UnixNano()+atomic.LoadInt64(c.shift))
}

// Step moves the clock.
func (c *Clock) Step(d time.Duration) {
	if atomic.LoadInt64(c.frozen) != 0 {
		atomic.AddInt64(c.frozen, int64(d))
	}
	atomic.AddInt64(c.shift, int64(d))
}

// Freeze stops the clock.
func (c *Clock) Freeze() { atomic.StoreInt64(c.frozen, c.Now().UnixNano()) }

// Run lets a stopped clock go on from where it stands.
func (c *Clock) Run() {
	if f := atomic.LoadInt64(c.frozen); f != 0 {
		atomic.StoreInt64(c.shift, f-time.Now().UnixNano())
		atomic.StoreInt64(c.frozen, 0)
	}
}
