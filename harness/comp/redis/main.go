// Drives the Redis replicator of om-core against a recording Redis stand-in with fault injection.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
	redisReplicator "open-match.dev/core/internal/statestore/redis"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func main() {
	logrus.SetLevel(logrus.PanicLevel)
	lib.ChildMain(map[string]func(*lib.Run){"send": send, "read": read, "race": race})
}

func cfgFor(port int, set map[string]any) *viper.Viper {
	c := viper.New()
	for k, v := range map[string]any{
		"OM_REDIS_POOL_MAX_IDLE": 500, "OM_REDIS_POOL_MAX_ACTIVE": 500, "OM_REDIS_POOL_IDLE_TIMEOUT": 0,
		"OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_WRITE_PORT": port, "OM_REDIS_WRITE_USER": "default", "OM_REDIS_WRITE_PASSWORD": "om-redis",
		"OM_REDIS_READ_HOST": "127.0.0.1", "OM_REDIS_READ_PORT": port, "OM_REDIS_READ_USER": "default", "OM_REDIS_READ_PASSWORD": "om-redis",
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": 10000, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 10, "OM_CACHE_TICKET_TTL_SECS": 600,
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": 5, "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": 600,
	} {
		c.Set(k, v)
	}
	for k, v := range set {
		c.Set(k, v)
	}
	return c
}

func newRedis(r *lib.Run) *fredis.Server {
	s, err := fredis.New()
	if err != nil {
		r.Inconclusive("%v", err)
	}
	return s
}

var uniq atomic.Int64

func genVal(rng *rand.Rand) string {
	u := fmt.Sprintf("v%d;", uniq.Add(1))
	if rng.Intn(1500) == 0 { // as large as a request can be
		b := make([]byte, 1<<20+rng.Intn(3<<20))
		rng.Read(b)
		return u + string(b)
	}
	switch rng.Intn(8) {
	case 0:
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		return u + string(b)
	case 1:
		return u + "\r\n$-1\r\n*0\r\n-ERR x\r\n\x00\xff"
	case 2:
		return u + strings.Repeat("z", rng.Intn(40000))
	default:
		return u
	}
}

func genKey(rng *rand.Rand) string {
	switch rng.Intn(10) {
	case 0:
		return lib.Pick(rng, []string{" ", "*", "a b", "\r\n", "\x00", "-ERR", "ticket", "$-1", "0-0", "ключ"})
	default:
		return fmt.Sprintf("%d-%d", 1700000000000+rng.Int63n(1000), rng.Intn(30))
	}
}

var cmdName = map[int]string{store.Ticket: "ticket", store.Activate: "activate", store.Deactivate: "deactivate", store.Assign: "assign"}

// genUpdate makes an update and tells whether it has all its required data.
func genUpdate(rng *rand.Rand, bad int) (*store.StateUpdate, bool) {
	u := &store.StateUpdate{Cmd: lib.Pick(rng, []int{store.Ticket, store.Activate, store.Deactivate, store.Assign})}
	switch u.Cmd {
	case store.Ticket:
		u.Value = genVal(rng)
	case store.Assign:
		u.Key, u.Value = genKey(rng), genVal(rng)
	default:
		u.Key = genKey(rng)
		if rng.Intn(4) == 0 {
			u.Value = "ignored"
		}
	}
	if rng.Intn(100) >= bad {
		return u, true
	}
	switch rng.Intn(3) {
	case 0:
		return &store.StateUpdate{Cmd: lib.Pick(rng, []int{4, -1, 99, 1 << 20}), Key: genKey(rng), Value: genVal(rng)}, false
	default:
		switch u.Cmd {
		case store.Ticket:
			u.Value = ""
			if rng.Intn(2) == 0 {
				u.Key = genKey(rng)
			}
		case store.Assign:
			if rng.Intn(2) == 0 {
				u.Key = ""
			} else {
				u.Value = ""
			}
		default:
			u.Key = ""
		}
		return u, false
	}
}

func matches(e fredis.Entry, u *store.StateUpdate) bool {
	d := lib.Decode(0, e)
	if d.Cmd != cmdName[u.Cmd] {
		return false
	}
	switch u.Cmd {
	case store.Ticket:
		return string(d.Val) == u.Value
	case store.Assign:
		return d.Key == u.Key && string(d.Val) == u.Value
	}
	return d.Key == u.Key
}

func show(u *store.StateUpdate) string {
	return fmt.Sprintf("{cmd %d key %.40q value %.40q}", u.Cmd, u.Key, u.Value)
}

// send: results of SendUpdates against the log.
func send(r *lib.Run) {
	idle := make(chan bool)
	go func() {
		defer close(idle)
		sendIdle(r)
	}()
	defer func() { <-idle }()
	modes := []string{"none", "refused", "all refused", "trim refused", "dropped before", "dropped after", "down", "mixed"}
	rounds := r.N(24, 240)
	for round := 0; round < rounds; round++ {
		mode := modes[round%len(modes)]
		rng := r.Rng(fmt.Sprint("send", round))
		s := newRedis(r)
		rep := redisReplicator.New(cfgFor(s.Port(), nil))
		for b := 0; b < r.N(40, 120); b++ {
			n := lib.Pick(rng, []int{0, 1, 2, 3, 5, 20, 50, 50, 200})
			if b == 7 {
				n = 3000
			}
			bad := lib.Pick(rng, []int{0, 10, 50, 100})
			batch := make([]*store.StateUpdate, n)
			valid := make([]bool, n)
			orig := make([]store.StateUpdate, n)
			for i := range batch {
				batch[i], valid[i] = genUpdate(rng, bad)
				if i > 0 && rng.Intn(12) == 0 { // the same again: at once, or what came some time before
					j := i - 1
					if rng.Intn(3) == 0 {
						j = rng.Intn(i)
					}
					c := *batch[j]
					batch[i], valid[i] = &c, valid[j]
				}
				orig[i] = *batch[i]
			}
			// faults of this batch
			nvalid := 0
			for _, v := range valid {
				if v {
					nvalid++
				}
			}
			refuse := map[int]bool{} // by number of the XADD within the batch
			dropAt := -1
			trimErr := false
			m := mode
			if m == "mixed" {
				m = lib.Pick(rng, modes[:len(modes)-1])
			}
			switch m {
			case "refused":
				for k := 0; k < nvalid; k++ {
					if rng.Intn(4) == 0 {
						refuse[k] = true
					}
				}
			case "all refused":
				for k := 0; k < nvalid; k++ {
					refuse[k] = true
				}
				trimErr = rng.Intn(2) == 0
			case "trim refused":
				trimErr = true
			case "dropped before", "dropped after":
				dropAt = rng.Intn(nvalid + 1) // may be the XTRIM
			}
			k := 0
			hit := false
			errText := lib.StorageError()
			s.SetHook(func(c *fredis.Cmd) fredis.Action { // one connection at a time: no lock needed beyond the order of commands
				if c.Name != "XADD" && c.Name != "XTRIM" {
					return fredis.Action{}
				}
				me := k
				k++
				if me == dropAt {
					hit = true
					return fredis.Action{DropBefore: m == "dropped before", DropAfter: true}
				}
				if c.Name == "XTRIM" {
					if trimErr {
						return fredis.Action{Err: errText}
					}
					return fredis.Action{}
				}
				if refuse[me] {
					return fredis.Action{Err: errText}
				}
				return fredis.Action{}
			})
			if m == "down" {
				s.SetDown(true)
			}
			base := s.Len()
			done := make(chan []*store.StateResponse, 1)
			go func() { done <- rep.SendUpdates(batch) }()
			var res []*store.StateResponse
			select {
			case res = <-done:
			case <-time.After(60 * time.Second):
				r.Violate("a batch of updates never returns", map[string]any{"fault": m, "batch": n, "round": round})
			}
			time.Sleep(time.Millisecond)
			s.SetHook(nil)
			if m == "down" {
				s.SetDown(false)
			}
			det := map[string]any{"fault": m, "batch": n, "complete_updates": nvalid, "round": round, "number": b}
			if len(res) != n {
				det["results"] = len(res)
				r.Violate("number of results differs from the number of updates", det)
			}
			log := s.Entries(base)
			pos := -1
			x := 0 // number of the XADD
			conFault := m == "down" || hit || strings.HasPrefix(m, "dropped") && dropAt >= 0
			used := map[int]bool{}
			for i := range batch {
				det["position"], det["update"] = i, show(&orig[i])
				if res[i] == nil {
					r.Violate("missing result", det)
				}
				det["result"], det["error"] = res[i].Result, fmt.Sprint(res[i].Err)
				if !valid[i] {
					if res[i].Err == nil {
						r.Violate("an update without its required data succeeds", det)
					}
					if res[i].Result != orig[i].Key {
						r.Violate("a failure does not name the failed update", det)
					}
					continue
				}
				me := x
				x++
				if res[i].Err == nil {
					found := -1
					for j, e := range log {
						if e.ID() == res[i].Result {
							found = j
						}
					}
					if found < 0 {
						r.Violate("a success does not carry the id of a stored entry", det)
					}
					if !matches(log[found], &orig[i]) {
						det["stored"] = fmt.Sprintf("%.100q", log[found].Fields)
						r.Violate("a success carries the id of another update", det)
					}
					if found <= pos {
						r.Violate("updates are not stored in batch order", det)
					}
					pos = found
					used[found] = true
					if refuse[me] {
						r.Violate("a refused update succeeds", det)
					}
				} else {
					if res[i].Result != orig[i].Key {
						r.Violate("a failure does not name the failed update", det)
					}
					if !conFault && !refuse[me] {
						r.Violate("an accepted update is reported as failed", det)
					}
					r.Count("failures_reported", 1)
				}
			}
			if !conFault && len(log) != len(used) {
				det["stored_entries"], det["successes"] = len(log), len(used)
				r.Violate("entries are stored that no update succeeded with", det)
			}
			// whatever is stored belongs to a complete update of this batch, in order
			i := 0
			for _, e := range log {
				for i < n && !(valid[i] && matches(e, &orig[i])) {
					i++
				}
				if i >= n {
					det["stored"] = fmt.Sprintf("%.100q", e.Fields)
					r.Violate("the storage holds something else than the updates in batch order", det)
				}
				i++
			}
			r.Eval(n > 1, "send", round, b)
			r.Count("fault: "+m, 1)
			r.Count("updates_judged", n)
			if r.WantSample() {
				delete(det, "update")
				r.Sample(det)
			}
		}
		s.Close()
	}
	sendConcurrent(r)
}

// sendConcurrent: several batches at once.
func sendConcurrent(r *lib.Run) {
	s := newRedis(r)
	defer s.Close()
	rep := redisReplicator.New(cfgFor(s.Port(), map[string]any{"OM_REDIS_POOL_MAX_ACTIVE": 3, "OM_REDIS_POOL_MAX_IDLE": 2}))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("conc", w))
		go func() {
			defer wg.Done()
			for b := 0; b < r.N(30, 300); b++ {
				n := 1 + rng.Intn(40)
				batch := make([]*store.StateUpdate, n)
				valid := make([]bool, n)
				for i := range batch {
					batch[i], valid[i] = genUpdate(rng, 15)
					if batch[i].Cmd == store.Activate || batch[i].Cmd == store.Deactivate {
						if batch[i].Key != "" {
							batch[i].Key = fmt.Sprintf("%d-%d", uniq.Add(1), w)
						}
					}
				}
				res := rep.SendUpdates(batch)
				byID := map[string]fredis.Entry{}
				for _, e := range s.Entries(0) {
					byID[e.ID()] = e
				}
				for i := range batch {
					if (res[i].Err == nil) != valid[i] {
						r.Violate("result of a concurrent batch", map[string]any{"update": show(batch[i]), "complete": valid[i], "error": fmt.Sprint(res[i].Err)})
					}
					if valid[i] {
						if e, ok := byID[res[i].Result]; !ok || !matches(e, batch[i]) {
							r.Violate("a success of a concurrent batch carries the id of another update", map[string]any{"update": show(batch[i]), "result": res[i].Result})
						}
					}
				}
				r.Eval(true, "conc", w, b)
			}
		}()
	}
	wg.Wait()
}

// sendIdle: batches after long pauses, and batches whose replies take long.
func sendIdle(r *lib.Run) {
	var wg sync.WaitGroup
	for v := 0; v < 6; v++ {
		v := v
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("idle", v))
		go func() {
			defer wg.Done()
			s := newRedis(r)
			defer s.Close()
			rep := redisReplicator.New(cfgFor(s.Port(), nil))
			for b := 0; b < r.N(3, 8); b++ {
				conns := 1 + v%2*3 // batches at the same time
				if b > 0 {
					switch v / 2 {
					case 0: // nothing happens for longer than the pool takes connections for valid unseen
						time.Sleep(time.Duration(15500+rng.Intn(2500)) * time.Millisecond)
					case 1: // meanwhile, the storage closes them
						time.Sleep(time.Duration(1+rng.Intn(10)) * time.Second)
						s.DropAll()
						time.Sleep(time.Duration(5500+rng.Intn(10000)) * time.Millisecond)
					case 2: // slow storage
						at, d := rng.Intn(20), time.Duration(7000+rng.Intn(9000))*time.Millisecond
						var k atomic.Int64
						s.SetHook(func(c *fredis.Cmd) fredis.Action {
							if (c.Name == "XADD" || c.Name == "XTRIM") && k.Add(1) == int64(at) {
								return fredis.Action{Delay: d}
							}
							return fredis.Action{}
						})
					}
				}
				var bg sync.WaitGroup
				for c := 0; c < conns; c++ {
					var batch []*store.StateUpdate
					var valid []bool
					for i := 0; i < 25; i++ {
						u, ok := genUpdate(rng, 10)
						batch, valid = append(batch, u), append(valid, ok)
					}
					bg.Add(1)
					go func() {
						defer bg.Done()
						res := rep.SendUpdates(batch)
						byID := map[string]fredis.Entry{}
						for _, e := range s.Entries(0) {
							byID[e.ID()] = e
						}
						if len(res) != len(batch) {
							r.Violate("number of results differs from the number of updates", map[string]any{"updates": len(batch), "results": len(res)})
						}
						for i := range batch {
							if v/2 != 1 && (res[i].Err == nil) != valid[i] || res[i].Err == nil && !valid[i] {
								r.Violate("result of a batch after a long pause or with slow replies", map[string]any{"update": show(batch[i]), "complete": valid[i], "error": fmt.Sprint(res[i].Err), "variant": v})
							}
							if res[i].Err == nil {
								if e, ok := byID[res[i].Result]; !ok || !matches(e, batch[i]) {
									r.Violate("a success after a long pause or of a slow batch does not carry the id of its update", map[string]any{"update": show(batch[i]), "result": res[i].Result, "variant": v})
								}
							} else if res[i].Result != batch[i].Key {
								r.Violate("a failure does not name the failed update", map[string]any{"update": show(batch[i]), "result": res[i].Result, "variant": v})
							}
						}
					}()
				}
				bg.Wait()
				r.Eval(true, "idle", v, b)
				r.Count("batches_after_pauses_or_slow", conns)
			}
		}()
	}
	wg.Wait()
}

// read: repeated polls against the log.
func read(r *lib.Run) {
	modes := []string{"none", "refused", "dropped before", "dropped after", "down", "mixed"}
	counts := []int{1, 2, 3, 7, 50, 10000}
	rounds := r.N(36, 360)
	var bg sync.WaitGroup
	defer bg.Wait()
	for v := 0; v < r.N(4, 12); v++ { // long pauses between polls
		v := v
		bg.Add(1)
		go func() {
			defer bg.Done()
			readRound(r, 10000+v, []string{"paused", "paused, dropped"}[v%2], []int{7, 50, 2, 400}[v/2%4])
		}()
	}
	for round := 0; round < rounds; round++ {
		mode := modes[round%len(modes)]
		count := counts[(round/len(modes))%len(counts)]
		readRound(r, round, mode, count)
	}
}

func readRound(r *lib.Run, round int, mode string, count int) {
	rng := r.Rng(fmt.Sprint("read", round))
	s := newRedis(r)
	defer s.Close()
	total := 60*count + rng.Intn(20)
	if total > 2500 {
		total = 2500
	}
	if mode == "none" && count > 1000 {
		total = 25000
	}
	var want []store.StateUpdate
	var wmu sync.Mutex
	gen := func() []string {
		u, _ := genUpdate(rng, 0)
		want = append(want, *u)
		switch u.Cmd {
		case store.Ticket:
			return []string{"ticket", u.Value}
		case store.Assign:
			return []string{"assign", u.Key, "connection", u.Value}
		case store.Activate:
			return []string{"activate", u.Key}
		}
		return []string{"deactivate", u.Key}
	}
	// what is there before the first poll: ids with few and many digits, sequence numbers of one and more digits;
	// possibly the oldest ones trimmed
	pre := rng.Intn(total/2 + 1)
	if total == 25000 { // more than fits into one poll of ten thousand
		pre = 11000 + rng.Intn(1500)
	}
	ms, seq := int64(lib.Pick(rng, []int64{1, 97, 9998, 999999999990, time.Now().UnixMilli() - 5000})), int64(rng.Intn(12))
	for i := 0; i < pre; i++ {
		wmu.Lock()
		if _, err := s.AddAt(ms, seq, gen()...); err != nil {
			r.Inconclusive("%v", err)
		}
		wmu.Unlock()
		if rng.Intn(4) == 0 {
			ms += 1 + rng.Int63n(3)
			seq = 0
		} else {
			seq++
		}
	}
	skipped := 0
	if pre > 3 && rng.Intn(2) == 0 {
		es := s.Entries(0)
		cut := es[rng.Intn(pre)]
		s.Trim(cut.MS, cut.Seq)
		skipped = len(es) - len(s.Live())
	}
	var fmu sync.Mutex
	faulty := true
	faults := 0
	frng := r.Rng(fmt.Sprint("readf", round))
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		if c.Name != "XREAD" || mode == "none" || strings.HasPrefix(mode, "paused") {
			return fredis.Action{}
		}
		fmu.Lock()
		defer fmu.Unlock()
		if !faulty || frng.Intn(3) != 0 {
			return fredis.Action{}
		}
		m := mode
		if m == "mixed" {
			m = lib.Pick(frng, []string{"refused", "dropped before", "dropped after"})
		}
		faults++
		switch m {
		case "refused":
			return fredis.Action{Err: lib.StorageError()}
		case "dropped before":
			return fredis.Action{DropBefore: true}
		case "dropped after":
			return fredis.Action{DropAfter: true} // the reply is lost
		}
		return fredis.Action{}
	})
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	added := make(chan struct{})
	arrive := rand.New(rand.NewSource(rng.Int63()))
	go func() { // the rest arrives meanwhile, singly or in bursts; sometimes many within one millisecond
		defer wg.Done()
		defer close(added)
		for n := pre; n < total; {
			k := lib.Pick(arrive, []int{1, 1, 2, 15, 40})
			if count > 1000 {
				k *= 50
			}
			if n+k > total {
				k = total - n
			}
			wmu.Lock()
			es := make([][]string, k)
			for i := range es {
				es[i] = gen()
			}
			s.AddMany(es)
			wmu.Unlock()
			n += k
			if arrive.Intn(3) == 0 {
				time.Sleep(time.Duration(arrive.Intn(3000)) * time.Microsecond)
			}
		}
	}()
	if mode == "down" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 6; i++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+i) * 2 * time.Millisecond):
				}
				s.SetDown(true)
				time.Sleep(3 * time.Millisecond)
				s.SetDown(false)
				if i%2 == 0 {
					s.DropAll()
				}
				fmu.Lock()
				faults++
				fmu.Unlock()
			}
		}()
	}
	rep := redisReplicator.New(cfgFor(s.Port(), map[string]any{
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": count, "OM_CACHE_IN_WAIT_TIMEOUT_MS": lib.Pick(rng, []int{1, 5, 20}),
		"OM_REDIS_POOL_MAX_ACTIVE": lib.Pick(rng, []int{1, 2, 500}), "OM_REDIS_POOL_MAX_IDLE": lib.Pick(rng, []int{1, 500})}))
	got := []*store.StateUpdate{}
	idle, polls := 0, 0
	allAdded := false
	deadline := time.Now().Add(90 * time.Second)
	for idle < 8 {
		out := make(chan []*store.StateUpdate, 1)
		go func() { out <- rep.GetUpdates() }()
		var us []*store.StateUpdate
		select {
		case us = <-out:
		case <-time.After(60 * time.Second):
			r.Violate("a poll never returns", map[string]any{"fault": mode, "round": round, "polls": polls})
		}
		polls++
		if strings.HasPrefix(mode, "paused") && (polls == 3 || polls == 9) {
			time.Sleep(time.Duration(15500+frng.Intn(2000)) * time.Millisecond)
			if mode != "paused" {
				s.DropAll()
				fmu.Lock()
				faults++
				fmu.Unlock()
			}
		}
		if len(us) > count {
			r.Violate("a poll returns more updates than configured", map[string]any{"configured": count, "returned": len(us)})
		}
		got = append(got, us...)
		select {
		case <-added:
			if !allAdded {
				allAdded = true
				fmu.Lock()
				faulty = false
				fmu.Unlock()
				close(stop)
				wg.Wait()
			}
		default:
		}
		if allAdded && len(us) == 0 {
			idle++
		} else if len(us) > 0 {
			idle = 0
		}
		if time.Now().After(deadline) {
			break
		}
	}
	exp := s.Entries(0)[skipped:]
	det := map[string]any{"fault": mode, "faults": faults, "poll_size": count, "entries": len(exp), "trimmed_before": skipped, "read": len(got), "polls": polls, "round": round}
	for i, e := range exp {
		u := want[skipped+i]
		if i >= len(got) {
			det["missing"] = e.ID()
			r.Violate("an entry of the stream is never read", det)
		}
		g := got[i]
		det["position"], det["expected_id"], det["got"] = i, e.ID(), show(g)
		det["expected"] = show(&u)
		key := u.Key
		if u.Cmd == store.Ticket {
			key = e.ID()
		}
		val := u.Value
		if u.Cmd == store.Activate || u.Cmd == store.Deactivate {
			val = g.Value // carries none
		}
		if g.Cmd != u.Cmd || g.Key != key || g.Value != val {
			r.Violate("an entry is read out of order, twice, or decoded wrongly", det)
		}
		if id, ok := lib.StringField(g, "ReplId"); ok && id != e.ID() {
			det["carried_id"] = id
			r.Violate("an update read from the stream carries another entry's id", det)
		}
	}
	if len(got) > len(exp) {
		det["extra"] = show(got[len(exp)])
		r.Violate("an entry is read twice", det)
	}
	r.Eval(len(exp) > 0, "read", round)
	r.Count("entries_read", len(got))
	r.Count("polls", polls)
	r.Count("read_faults", faults)
	r.Count("fault: "+mode, 1)
	delete(det, "got")
	delete(det, "expected")
	if r.WantSample() {
		r.Sample(det)
	}
}

// race: everything at once, for the race detector.
func race(r *lib.Run) {
	s := newRedis(r)
	defer s.Close()
	rep := redisReplicator.New(cfgFor(s.Port(), nil))
	stop := make(chan struct{})
	var wg, rg sync.WaitGroup
	rg.Add(1)
	n := 0
	go func() {
		defer rg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				n += len(rep.GetUpdates())
			}
		}
	}()
	for w := 0; w < 4; w++ {
		w := w
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("race", w))
		go func() {
			defer wg.Done()
			for b := 0; b < r.N(40, 400); b++ {
				batch := make([]*store.StateUpdate, 1+rng.Intn(20))
				for i := range batch {
					batch[i], _ = genUpdate(rng, 10)
				}
				rep.SendUpdates(batch)
				rep.GetReplIdValidationRegex()
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	r.Eval(true, "race-redis")
	r.Count("race_updates_read", n)
}
