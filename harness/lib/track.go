package lib

import (
	"fmt"
	pb "open-match.dev/pkg/pb/v2"
	"sort"
	"strings"
	"sync"

	"verif.local/h/fredis"
)

// Tracker judges pool observations of one instance against the storage log: what is visible must be the state after
// some prefix of the log, no older than what the instance was already seen to have applied.
type Tracker struct {
	R  *Run
	S  *fredis.Server
	mu sync.Mutex

	OnlyVisible bool // judge only that nothing inactive is visible (not that everything active is)
	OnlyMissing bool // judge only that nothing active is missing

	next  int
	hist  map[string][]change // ticket -> changes of visibility, by log position
	seen  int                 // the instance was seen to have applied at least this many entries
	order []string
}

type change struct {
	after  int // state holds once `after` entries are applied
	active bool
}

// NewTracker follows the log of s.
func NewTracker(r *Run, s *fredis.Server) *Tracker {
	return &Tracker{R: r, S: s, hist: map[string][]change{}}
}

func (t *Tracker) pullLocked() {
	es := t.S.Entries(t.next)
	for i, e := range es {
		u := Decode(t.next+i, e)
		h, known := t.hist[u.Key]
		switch u.Cmd {
		case "ticket":
			if bystander(u.Ticket) {
				break
			}
			t.hist[u.Key] = []change{{u.Idx + 1, false}}
		case "activate", "deactivate":
			on := u.Cmd == "activate"
			if known && h[len(h)-1].active != on {
				t.hist[u.Key] = append(h, change{u.Idx + 1, on})
			}
		}
	}
	t.next += len(es)
}

// bystander tells whether a ticket is a marker of a barrier or belongs to nobody's pool of interest.
func bystander(t *pb.Ticket) bool {
	for _, g := range t.GetAttributes().GetTags() {
		if strings.HasPrefix(g, "zz-") {
			return true
		}
	}
	return false
}

// Applied tells how many entries the instance was seen to have applied, and Len the length of the log.
func (t *Tracker) Applied() int { t.mu.Lock(); defer t.mu.Unlock(); return t.seen }

// MarkApplied records that the first n entries are known to be applied.
func (t *Tracker) MarkApplied(n int) {
	t.mu.Lock()
	if n > t.seen {
		t.seen = n
	}
	t.mu.Unlock()
}

// stateSpan tells whether some k in [lo,hi] gives visibility v, and the smallest such k.
func stateSpan(h []change, lo, hi int, v bool) (int, bool) {
	// segments: [0,h[0].after) invisible, [h[i].after, h[i+1].after) h[i].active
	start, act := 0, false
	for i := 0; i <= len(h); i++ {
		end := int(^uint(0) >> 1)
		if i < len(h) {
			end = h[i].after
		}
		a, b := start, end-1
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a <= b && act == v {
			return a, true
		}
		if i < len(h) {
			start, act = h[i].after, h[i].active
		}
	}
	return 0, false
}

// Begin is called before a query starts.
func (t *Tracker) Begin() int { return t.Applied() }

// Judge checks the set of visible tickets (of those for which mine is true) seen by a query that began when lo entries
// were known to be applied and was received when the log had hi entries. It returns the number of tickets judged.
func (t *Tracker) Judge(lo, hi int, visible map[string]bool, mine func(id string) bool) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.pullLocked()
	low := lo
	n := 0
	for id, h := range t.hist {
		if mine != nil && !mine(id) {
			continue
		}
		n++
		v := visible[id]
		k, ok := stateSpan(h, lo, hi, v)
		if !ok && ((!v && t.OnlyVisible) || (v && t.OnlyMissing)) {
			continue
		}
		if !ok {
			var hs []string
			for _, c := range h {
				hs = append(hs, fmt.Sprintf("after %d entries: active=%v", c.after, c.active))
			}
			kind := "an active ticket is missing from its pool"
			if v {
				kind = "a ticket that is not active is in a pool"
			}
			t.R.Violate(kind, map[string]any{"ticket": id, "visible": v, "applied_at_least": lo, "log_length_when_received": hi, "history": hs})
		}
		if k > low {
			low = k
		}
	}
	for id := range visible {
		if mine != nil && !mine(id) {
			continue
		}
		if _, known := t.hist[id]; !known {
			t.R.Violate("a ticket that storage never held is in a pool", map[string]any{"ticket": id})
		}
	}
	if low > t.seen {
		t.seen = low
	}
	return n
}

// Final is the set of tickets active after the whole log.
func (t *Tracker) Final() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.pullLocked()
	var out []string
	for id, h := range t.hist {
		if h[len(h)-1].active {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

// IDs lists all tickets known.
func (t *Tracker) IDs() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.pullLocked()
	return SortedKeys(t.hist)
}
