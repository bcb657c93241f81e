package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C03"] = c03; checks["C04"] = c04 }

func idSet(m map[string]*pb.Ticket) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

// watchPools queries the pool of a tag until stop is closed and judges every observation.
func watchPools(r *lib.Run, o *lib.OM, tr *lib.Tracker, tag string, stop chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	last := ""
	for {
		select {
		case <-stop:
			return
		default:
		}
		lo := tr.Begin()
		obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool(tag)})
		hi := lenAt(tr.S, obs.Got)
		vis := idSet(obs.Pools["p"])
		n := tr.Judge(lo, hi, vis, nil)
		r.Count("ticket_states_judged", n)
		sig := fmt.Sprint(len(vis), hi)
		if sig != last {
			r.Eval(true, "obs", tag, lo, hi, len(vis))
			last = sig
		} else {
			r.Eval(false)
		}
		if r.WantSample() && len(vis) > 0 {
			r.Sample(map[string]any{"pool_query": tag, "applied_at_least": lo, "log_length": hi, "tickets_visible": len(vis), "tickets_known": n})
		}
	}
}

// lenAt is an upper bound for the log length when something was received.
func lenAt(s *fredis.Server, _ time.Time) int { return s.Len() }

func stored(tags ...string) []string { return storedTTL(600, tags...) }

func storedTTL(ttl int, tags ...string) []string {
	return []string{"ticket", string(lib.StoredTicket(lib.TagTicket(tags...), ttl))}
}

// assignEntry is a stored assignment of one ticket.
func assignEntry(id, conn string) []string {
	b, err := proto.Marshal(&pb.Assignment{Connection: conn})
	if err != nil {
		panic(err)
	}
	return []string{"assign", id, "connection", string(b)}
}

// assign makes a client assign tickets; what comes of it is not judged here.
func assign(o *lib.OM, conn string, ids ...string) {
	ctx, cancel := lib.Ctx()
	defer cancel()
	ro := &pb.Roster{Assignment: &pb.Assignment{Connection: conn}}
	for _, id := range ids {
		ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
	}
	o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
}

func c03(r *lib.Run) {
	r.Rule = "one evaluation = one pool observation by a running instance during concurrent creation, activation, deactivation, expiration and catch-up; every ticket of the pool is judged against the storage log (visible only if active after some log prefix not older than what the instance had already been seen to apply). Non-trivial: the log or the pool changed since the previous observation"
	r.Assumptions = []string{"the fake Redis log is the truth about what was requested"}
	for i := 0; i < r.N(2, 12); i++ {
		c03churn(r, i, true)
	}
	for i := 0; i < r.N(2, 8); i++ {
		c03burst(r, i)
	}
	for i := 0; i < r.N(1, 4); i++ {
		c03expire(r, i)
		c03catchup(r, i, true)
	}
	for i := 0; i < r.N(1, 4); i++ {
		c03foretold(r, i)
		c03flood(r, i, false)
		c03flood(r, i, true)
	}
	c03memory(r)
}

// c03foretold: activations (and deactivations) of an id that only later becomes the id of a ticket say nothing about that
// ticket: they were requested before its creation.
func c03foretold(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("foretold", round))
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint(lib.Pick(rng, []int{1, 3, 10000})), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "1"}))
	tr := lib.NewTracker(r, s)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go watchPools(r, o, tr, "foretold", stop, &wg)
	}
	never := map[string]bool{}
	for i := 0; i < 40; i++ {
		var ids []string
		switch i % 4 {
		case 0:
			ids = s.AddManyRef([][]string{{"activate", "@1"}, stored("foretold")})
			never[ids[1]] = true
		case 1:
			ids = s.AddManyRef([][]string{{"activate", "@2"}, {"activate", "@2"}, stored("foretold"), {"activate", "@4"}, stored("foretold"), {"activate", "@4"}})
			never[ids[2]] = true
		case 2:
			ids = s.AddManyRef([][]string{{"activate", "@3"}, {"deactivate", "@3"}, {"activate", "@3"}, stored("foretold")})
			never[ids[3]] = true
		case 3: // the same through the service: a client activates ids that it guesses
			base := time.Now().UnixMilli() + 300
			var guess []string
			for k := 0; k < 30; k++ {
				guess = append(guess, fmt.Sprintf("%d-%d", base, k))
			}
			o.Activate(guess...)
			s.SetClock(func() int64 { return base })
			for k := 0; k < 10; k++ {
				never[o.Create(lib.TagTicket("foretold"))] = true
			}
			s.SetClock(func() int64 { return time.Now().UnixMilli() })
		}
		if i%8 == 5 {
			o.BarrierInjected(s.AddMany)
		}
	}
	o.BarrierInjected(s.AddMany)
	close(stop)
	wg.Wait()
	tr.MarkApplied(finalLen(s))
	obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("foretold")})
	tr.Judge(tr.Begin(), s.Len(), idSet(obs.Pools["p"]), notBarrier(obs, tr))
	for id := range obs.Pools["p"] {
		if never[id] {
			r.Violate("a ticket activated only before its creation is in a pool", map[string]any{"ticket": id})
		}
	}
	r.Count("tickets_activated_before_creation", len(never))
	o.Stop()
}

// c03flood: very many never-activated tickets run out of time while pools are queried without pause, so that the
// removal of the inactive marks takes place under invocations all the time. Late: the instance reads the tickets only
// when they have run out of time already (it was behind), so they come and go within one cycle.
func c03flood(r *lib.Run, round int, late bool) {
	s := newRedis(r)
	defer s.Close()
	const ttl = 4
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "1"}))
	stop := make(chan struct{})
	var wg sync.WaitGroup
	n := r.N(150_000, 400_000)
	if late {
		start := time.Now()
		s.SetClock(func() int64 { return start.UnixMilli() - ttl*1000 - 900 + time.Since(start).Milliseconds() })
	}
	one := storedTTL(600, "flood")
	wg.Add(1)
	go func() {
		defer wg.Done()
		for sent := 0; sent < n; sent += 5000 {
			es := make([][]string, 5000)
			for k := range es {
				es[k] = one
			}
			s.AddMany(es)
			time.Sleep(20 * time.Millisecond)
		}
		if !late {
			time.Sleep(ttl * time.Second)
		}
		time.Sleep(3 * time.Second)
		close(stop)
	}()
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("flood")})
				for id := range obs.Pools["p"] {
					r.Violate("a never-activated ticket appears in a pool around its expiration", map[string]any{"ticket": id, "visible": len(obs.Pools["p"]), "now_ms": time.Now().UnixMilli(), "ttl_s": ttl, "read_late": late})
				}
				r.Eval(true, "flood", round, late, w, k)
			}
		}()
	}
	wg.Wait()
	if late {
		r.Count("inactive_tickets_read_late_under_watch", n)
	} else {
		r.Count("inactive_tickets_expired_under_watch", n)
	}
	o.Stop()
}

// c03churn: clients and injected updates on a common set of tickets while the pools are watched.
func c03churn(r *lib.Run, round int, onlyVisible bool) {
	rng := r.Rng(fmt.Sprint("churn", round))
	s := newRedis(r)
	defer s.Close()
	// the poll size and the wait bound the rate at which an instance applies updates; the load stays below it
	cfg := [][3]int{{10000, 2, 0}, {7, 2, 15}, {10000, 60, 0}, {300, 10, 0}, {1, 1, 60}, {10000, 20, 0}}[(round+int(r.Seed))%6]
	pace := time.Duration(cfg[2]) * time.Millisecond
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint(cfg[0]),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":      fmt.Sprint(cfg[1]),
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 5, 50})),
	}))
	tr := lib.NewTracker(r, s)
	tr.OnlyVisible, tr.OnlyMissing = onlyVisible, !onlyVisible
	stop := make(chan struct{})
	var wwg, wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wwg.Add(1)
		go watchPools(r, o, tr, "churn", stop, &wwg)
	}
	quiet := o.Noise(r.Rng(fmt.Sprint("noise", round)), 40*time.Millisecond+4*pace, nil)
	deadline := time.Now().Add(time.Duration(r.N(3, 10)) * time.Second)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("churn", round, "w", w))
		go func() {
			defer wg.Done()
			var ids []string
			for time.Now().Before(deadline) {
				time.Sleep(pace)
				switch x := wr.Intn(11); {
				case x == 10: // an assignment says nothing about whether its ticket is active
					if len(ids) > 0 {
						assign(o, fmt.Sprint("churn:", w), pickSome(wr, ids)...)
					}
				case x < 2 || len(ids) == 0:
					ids = append(ids, o.Create(lib.TagTicket("churn", fmt.Sprint(w))))
				case x < 5:
					o.Activate(pickSome(wr, ids)...)
				case x < 8:
					o.Deactivate(pickSome(wr, ids)...)
				case x < 9: // both in quick succession
					l := pickSome(wr, ids)
					o.Activate(l...)
					o.Deactivate(l...)
				default: // another instance at work
					x := s.AddMany([][]string{stored("churn"), stored("churn")})
					s.AddMany([][]string{{"activate", x[0]}, assignEntry(x[0], "churn"), {"deactivate", x[0]}, {"activate", x[1]}, assignEntry(x[1], "churn")})
					ids = append(ids, x...)
				}
			}
		}()
	}
	wg.Wait()
	quiet()
	o.BarrierInjected(s.AddMany)
	close(stop)
	wwg.Wait()
	tr.MarkApplied(finalLen(s))
	tr.OnlyMissing = false
	lo := tr.Begin()
	obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("churn")})
	tr.Judge(lo, s.Len(), idSet(obs.Pools["p"]), notBarrier(obs, tr))
	r.Count("stream_entries", s.Len())
	o.Stop()
}

// finalLen: everything before the two entries of the last injected barrier is applied.
func finalLen(s *fredis.Server) int { return s.Len() - 1 }

// notBarrier excludes marker tickets.
func notBarrier(_ *lib.Obs, tr *lib.Tracker) func(string) bool {
	bar := map[string]bool{}
	for _, u := range lib.DecodeAll(0, tr.S.Entries(0)) {
		if u.Cmd == "ticket" && u.Ticket != nil {
			for _, t := range u.Ticket.GetAttributes().GetTags() {
				if len(t) > 3 && t[:3] == "zz-" {
					bar[u.Key] = true
				}
			}
		}
	}
	return func(id string) bool { return !bar[id] }
}

func pickSome(rng *rand.Rand, ids []string) []string {
	n := 1 + rng.Intn(5)
	out := make([]string, n)
	for i := range out {
		out[i] = ids[rng.Intn(len(ids))]
	}
	return out
}

// c03burst: a large cache makes the snapshot of an invocation slow while never-activated tickets stream in.
func c03burst(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("burst", round))
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "1"}))
	tr := lib.NewTracker(r, s)
	tr.OnlyVisible = true
	var bulk [][]string
	for i := 0; i < r.N(60000, 120000); i++ {
		bulk = append(bulk, stored("bulk"))
	}
	s.AddMany(bulk)
	o.BarrierInjected(s.AddMany)
	bulkLen := s.Len()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	var created sync.Map
	go func() {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			var es [][]string
			for k := 0; k < 40; k++ {
				es = append(es, stored("never"))
			}
			ids := s.AddMany(es)
			for _, id := range ids {
				created.Store(id, true)
			}
			if i%3 == 0 { // some activity of activated and deactivated tickets too
				a := s.Add(stored("was")...)
				s.AddMany([][]string{{"activate", a}, {"deactivate", a}})
			}
			time.Sleep(time.Duration(1+rng.Intn(4)) * time.Millisecond)
		}
	}()
	deadline := time.Now().Add(time.Duration(r.N(6, 20)) * time.Second)
	var qwg sync.WaitGroup
	for w := 0; w < 3; w++ {
		qwg.Add(1)
		go func() {
			defer qwg.Done()
			for n := 0; time.Now().Before(deadline); n++ {
				obs := o.Query(map[string]*pb.Pool{"never": lib.TagPool("never"), "bulk": lib.TagPool("bulk"), "was": lib.TagPool("was")})
				for _, p := range []string{"never", "bulk"} {
					for id := range obs.Pools[p] {
						r.Violate("a ticket that was never activated is in a pool", map[string]any{"ticket": id, "pool": p, "cache_size": bulkLen, "log_length": s.Len()})
					}
				}
				r.Eval(true, "burst", round, w, n)
			}
		}()
	}
	qwg.Wait()
	close(stop)
	wg.Wait()
	n := 0
	created.Range(func(_, _ any) bool { n++; return true })
	r.Count("never_activated_tickets", n+len(bulk))
	r.Sample(map[string]any{"scenario": "burst", "cache_tickets": len(bulk), "never_activated_streamed_in": n})
	o.Stop()
}

// c03expire: inactive tickets (never activated, or deactivated) reach the end of their TTL while pools are watched.
func c03expire(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	const ttl = 2
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "1"}))
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	total := 0
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			var es [][]string
			for k := 0; k < 30; k++ {
				// the ticket itself would live much longer than its inactive mark
				es = append(es, storedTTL([]int{ttl, 2 * ttl, 600}[k%3], "exp"))
			}
			s.AddMany(es)
			total += len(es)
			time.Sleep(3 * time.Millisecond)
		}
	}()
	deadline := time.Now().Add(time.Duration(r.N(7, 20)) * time.Second)
	var qwg sync.WaitGroup
	for w := 0; w < 4; w++ {
		qwg.Add(1)
		go func() {
			defer qwg.Done()
			for n := 0; time.Now().Before(deadline); n++ {
				for id := range o.QueryTag("exp") {
					r.Violate("an inactive ticket appears in a pool around its expiration", map[string]any{"ticket": id, "now_ms": time.Now().UnixMilli(), "ttl_s": ttl})
				}
				r.Eval(true, "exp", round, w, n)
			}
		}()
	}
	qwg.Wait()
	close(stop)
	wg.Wait()
	r.Count("inactive_tickets_expired_under_watch", total)
	o.Stop()
}

// c03catchup: an instance starts on an existing stream and is watched while it catches up in small steps.
func c03catchup(r *lib.Run, round int, onlyVisible bool) {
	rng := r.Rng(fmt.Sprint("catchup", round))
	s := newRedis(r)
	defer s.Close()
	var ids []string
	began := time.Now().Add(-8 * time.Minute) // the stream spans most of the ten minutes that updates are kept for
	for i := 0; i < 4000; i++ {
		at := began.Add(time.Duration(i) * 120 * time.Millisecond).UnixMilli()
		s.SetClock(func() int64 { return at })
		var es [][]string
		for k := 0; k < 5; k++ {
			switch x := rng.Intn(7); {
			case x < 2 || len(ids) < 5:
				es = append(es, stored("cu"))
			case x == 6:
				es = append(es, assignEntry(lib.Pick(rng, ids), "cu"))
			case x < 4:
				es = append(es, []string{"activate", lib.Pick(rng, ids)})
			default:
				es = append(es, []string{"deactivate", lib.Pick(rng, ids)})
			}
		}
		for k, id := range s.AddMany(es) {
			if es[k][0] == "ticket" {
				ids = append(ids, id)
			}
		}
	}
	s.SetClock(func() int64 { return time.Now().UnixMilli() })
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint(lib.Pick(rng, []int{100, 333})), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "3"}))
	tr := lib.NewTracker(r, s)
	tr.OnlyVisible, tr.OnlyMissing = onlyVisible, !onlyVisible
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go watchPools(r, o, tr, "cu", stop, &wg)
	}
	o.BarrierInjected(s.AddMany)
	close(stop)
	wg.Wait()
	tr.MarkApplied(finalLen(s))
	tr.OnlyMissing = false
	obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("cu")})
	tr.Judge(tr.Begin(), s.Len(), idSet(obs.Pools["p"]), notBarrier(obs, tr))
	r.Count("stream_entries", s.Len())
	o.Stop()
}

// c03memory: in-memory storage, judged by what each client did to its own tickets.
func c03memory(r *lib.Run) {
	o := r.StartOM("om", lib.FastEnv())
	stop := make(chan struct{})
	var wg, qwg sync.WaitGroup
	var mu sync.Mutex
	state := map[string]string{} // ids that must not be visible from now on
	deadline := time.Now().Add(time.Duration(r.N(4, 15)) * time.Second)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("memw", w))
		go func() {
			defer wg.Done()
			for n := 0; time.Now().Before(deadline); n++ {
				id := o.Create(lib.TagTicket("mem3"))
				if wr.Intn(3) == 0 {
					assign(o, "mem3", id)
				}
				switch wr.Intn(3) {
				case 0: // never activated
					mu.Lock()
					state[id] = "never activated"
					mu.Unlock()
				case 1: // activated, seen, deactivated, barrier: gone for good
					o.Activate(id)
					o.Deactivate(id)
					o.Barrier()
					mu.Lock()
					state[id] = "deactivated and a later update was seen"
					mu.Unlock()
				case 2:
					o.Activate(id)
				}
			}
		}()
	}
	for w := 0; w < 3; w++ {
		qwg.Add(1)
		go func() {
			defer qwg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				mu.Lock()
				known := make(map[string]string, len(state))
				for k, v := range state {
					known[k] = v
				}
				mu.Unlock()
				for id := range o.QueryTag("mem3") {
					if why, bad := known[id]; bad {
						r.Violate("a ticket that is not active is in a pool (memory storage)", map[string]any{"ticket": id, "state": why})
					}
				}
				r.Eval(true, "mem", w, n)
			}
		}()
	}
	wg.Wait()
	close(stop)
	qwg.Wait()
	r.Count("memory_inactive_tickets", len(state))
	o.Stop()
}
