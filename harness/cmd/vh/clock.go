package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

// Scenarios with a server whose wall clock is moved by the check: hours pass in seconds.

// startClock starts a server with the given replaceable clock (and a storage that shows the same time).
func startClock(r *lib.Run, storage string, c *lib.Clock, env map[string]string) (*lib.OM, func()) {
	env = lib.Merge(lib.FastEnv(), env, c.Env())
	end := func() {}
	if storage == "redis" {
		s := newRedis(r)
		s.SetClock(func() int64 { return c.Now().UnixMilli() })
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		end = s.Close
	}
	return r.StartOM("omclock", env), end
}

// c12jump: tickets with lives of seconds to hours; time passes in jumps.
func c12jump(r *lib.Run, round int, storage string) {
	c := r.NewClock()
	if c == nil {
		return
	}
	name := fmt.Sprintf("jump/%s/%d", storage, round)
	rng := r.Rng(name)
	ttl := lib.Pick(rng, []int{600, 600, 120, 3600, 90000})
	env := map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl)}
	if ttl == 600 && rng.Intn(2) == 0 {
		env = nil // the default
	}
	c.Step(time.Duration(rng.Int63n(int64(400 * 24 * time.Hour)))) // any time of the coming year
	o, end := startClock(r, storage, c, env)
	defer end()
	ttld := time.Duration(ttl) * time.Second
	type tk struct {
		id           string
		active       bool
		from         time.Time // when it was known to be active
		low, high    time.Time // its expiration is between
		droppedAfter time.Time // inactive: dropped
		seen, gone   bool
	}
	var all []*tk
	create := func(n int) {
		var ts []*pb.Ticket
		for i := 0; i < n; i++ {
			t := lib.TagTicket("jump")
			switch rng.Intn(4) {
			case 0, 1: // its own expiration
				t.ExpirationTime = timestamppb.New(c.Now().Add(time.Duration(1+rng.Int63n(int64(ttld)*5/4)) * 1))
			case 2: // made some time ago
				t.Attributes.CreationTime = timestamppb.New(c.Now().Add(-time.Duration(rng.Int63n(int64(ttld)))))
			}
			ts = append(ts, t)
		}
		t0 := c.Now()
		ids := o.CreateN(ts)
		t1 := c.Now()
		var act []string
		for i, id := range ids {
			k := &tk{id: id, active: rng.Intn(4) > 0, droppedAfter: t1.Add(ttld)}
			x := ts[i]
			b0, b1 := t0, t1
			if ct := x.Attributes.CreationTime; ct != nil {
				b0, b1 = ct.AsTime(), ct.AsTime()
			}
			k.low, k.high = b0.Add(ttld), b1.Add(ttld)
			if e := x.ExpirationTime; e != nil {
				if e.AsTime().Before(k.low) {
					k.low = e.AsTime()
				}
				if e.AsTime().Before(k.high) {
					k.high = e.AsTime()
				}
			}
			if k.active {
				act = append(act, id)
			}
			all = append(all, k)
		}
		if len(act) > 0 {
			o.Activate(act...)
		}
		o.Barrier()
		for _, k := range all[len(all)-n:] {
			k.from = c.Now()
		}
	}
	create(150)
	start := c.Now()
	steps, queries := 0, 0
	for c.Now().Sub(start) < 2*ttld {
		steps++
		d := time.Duration(rng.Int63n(int64(ttld) / 10))
		if rng.Intn(2) == 0 { // close to the end of some ticket
			var ends []time.Time
			for _, k := range all {
				if k.low.After(c.Now()) {
					ends = append(ends, k.low)
				}
			}
			if len(ends) > 0 {
				sort.Slice(ends, func(i, j int) bool { return ends[i].Before(ends[j]) })
				d = lib.Pick(rng, ends[:(len(ends)+3)/4]).Sub(c.Now()) - time.Duration(rng.Intn(3000)-500)*time.Millisecond
				if d < 0 {
					d = 0
				}
			}
		}
		c.Step(d)
		if rng.Intn(4) == 0 && c.Now().Sub(start) < ttld {
			create(10)
		}
		jumped := c.Now()
		for i := 0; i < 4; i++ { // update cycles
			o.Barrier()
		}
		if d := time.Duration(r.N(0, 300)); d > 0 {
			time.Sleep(d * time.Millisecond)
		}
		// a full pass over the cache happens with every update cycle, at least every 500 ms
		var stale, early *tk
		judge := func() {
			begin := c.Now()
			obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("jump")})
			got := c.Now()
			stale, early = nil, nil
			for _, k := range all {
				v := obs.Pools["p"][k.id] != nil
				switch {
				case v && !k.active:
					r.Violate("an inactive ticket is in a pool", map[string]any{"ticket": k.id, "storage": storage, "ttl_s": ttl})
				case v && jumped.After(k.high):
					stale = k
				case !v && k.active && got.Before(k.low):
					early = k
				}
				if v {
					k.seen = true
				} else if k.seen && begin.After(k.high) {
					k.gone = true
				}
			}
			queries++
		}
		judge()
		for try := 0; stale != nil && try < 60; try++ { // not within the next cycle of a busy machine
			time.Sleep(50 * time.Millisecond)
			if o.Barrier(); try > 3 {
				time.Sleep(150 * time.Millisecond)
			}
			judge()
		}
		if stale != nil {
			r.Violate("a ticket is in a pool after its end", map[string]any{"ticket": stale.id, "storage": storage, "ttl_s": ttl, "expired_before_s": c.Now().Sub(stale.high).Seconds()})
		}
		if early != nil {
			r.Violate("an active ticket is missing before its expiration", map[string]any{"ticket": early.id, "storage": storage, "ttl_s": ttl, "left_s": early.low.Sub(c.Now()).Seconds(), "age_s": c.Now().Sub(start).Seconds()})
		}
	}
	// all over: nothing comes back
	var ids []string
	for _, k := range all {
		if c.Now().After(k.droppedAfter) {
			ids = append(ids, k.id)
		}
		r.Eval(k.seen && k.gone || !k.active, name, k.id)
		if k.seen && k.gone {
			r.Count("tickets_seen_present_then_absent", 1)
		}
	}
	for i := 0; i < len(ids); i += 400 {
		o.Activate(ids[i:min(i+400, len(ids))]...)
	}
	o.Barrier()
	for id := range o.QueryTag("jump") {
		r.Violate("an expired ticket is in a pool after being activated again", map[string]any{"ticket": id, "storage": storage, "ttl_s": ttl})
	}
	r.Count("clock_jumps", steps)
	r.Count("jump_queries", queries)
	r.Max("virtual_hours", int64(c.Now().Sub(start).Hours()))
	o.Stop()
}

// c13jump: assignments are kept for the ticket TTL and the additional TTL, here with the defaults and other long ones.
func c13jump(r *lib.Run, round int, storage string) {
	c := r.NewClock()
	if c == nil {
		return
	}
	name := fmt.Sprintf("jump/%s/%d", storage, round)
	rng := r.Rng(name)
	ttl, add := 600, 600
	env := map[string]string{}
	if round%2 == 1 {
		ttl, add = lib.Pick(rng, []int{30, 600, 7200}), lib.Pick(rng, []int{0, 45, 1000, 86400})
		env["OM_CACHE_TICKET_TTL_SECS"], env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = fmt.Sprint(ttl), fmt.Sprint(add)
	}
	life := time.Duration(ttl+add) * time.Second
	o, end := startClock(r, storage, c, env)
	defer end()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	type tk struct {
		id         string
		born, done time.Time // created between
		last       string
	}
	var tks []*tk
	byID := map[string]*tk{}
	assign := func(ids []string, conn string) {
		var ro []*pb.Ticket
		for _, id := range ids {
			ro = append(ro, &pb.Ticket{Id: id})
			if k := byID[id]; k != nil {
				k.last = conn
			}
		}
		if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: conn}, Tickets: ro}}); err != nil {
			r.Violate("CreateAssignments fails without reason", err.Error())
		}
	}
	start := c.Now()
	steps := 0
	present, absent := 0, 0
	for c.Now().Sub(start) < life*2 && steps < r.N(25, 80) {
		steps++
		// some new tickets, assigned at once; some assigned late, some again
		var ts []*pb.Ticket
		for i := 0; i < 3; i++ {
			ts = append(ts, lib.TagTicket("x"))
		}
		t0 := c.Now()
		ids := o.CreateN(ts)
		for _, id := range ids {
			k := &tk{id: id, born: t0, done: c.Now()}
			tks = append(tks, k)
			byID[id] = k
		}
		assign(ids[:2], "first")
		if len(tks) > 6 && rng.Intn(2) == 0 {
			var l []string
			for i := 0; i < 3; i++ {
				if k := lib.Pick(rng, tks); c.Now().Sub(k.done) < life-5*time.Second {
					l = append(l, k.id)
				}
			}
			if len(l) > 0 {
				assign(l, fmt.Sprint("again-", steps))
			}
		}
		d := time.Duration(rng.Int63n(int64(life) / 8))
		if rng.Intn(2) == 0 { // close to the end of one of them
			k := lib.Pick(rng, tks)
			if x := k.born.Add(life).Sub(c.Now()) - time.Duration(rng.Intn(6000)-2000)*time.Millisecond; x > 0 && x < life/4 {
				d = x
			}
		}
		c.Step(d)
		jumped := c.Now()
		for i := 0; i < 4; i++ {
			o.Barrier()
		}
		ctl := o.Create(lib.TagTicket("ctl"))
		assign([]string{ctl}, "ctl")
		o.Barrier()
		var stale []string
		look := func() {
			stale = nil
			got := map[string]string{}
			wctx, stop := context.WithTimeout(ctx, 40*time.Second)
			var mu sync.Mutex
			var watched []string
			for _, k := range tks {
				if k.last != "" {
					watched = append(watched, k.id)
				}
			}
			from := c.Now()
			var ctlAt time.Time
			var once sync.Once
			// one watch for all: every assignment held comes at once; the control assignment too
			watch(wctx, o.C, append(watched, ctl), func(id string, a *pb.Assignment) {
				mu.Lock()
				got[id] = a.GetConnection()
				mu.Unlock()
				if id == ctl {
					ctlAt = c.Now()
					once.Do(func() { time.AfterFunc(700*time.Millisecond, stop) })
				}
			})
			stop()
			mu.Lock()
			defer mu.Unlock()
			if ctlAt.IsZero() {
				r.Violate("an assignment is not delivered to a watch", map[string]any{"ticket": ctl, "storage": storage})
			}
			_ = from
			for _, k := range tks {
				if k.last == "" {
					continue
				}
				g, ok := got[k.id]
				det := map[string]any{"storage": storage, "ticket": k.id, "age_s": c.Now().Sub(k.born).Seconds(), "ttl_s": ttl, "additional_s": add, "delivered": g, "assigned": k.last}
				switch {
				case ok && g != k.last:
					r.Violate("a watch delivers an assignment that was already replaced when it began", det)
				case ok && jumped.After(k.done.Add(life+10*time.Millisecond)):
					stale = append(stale, k.id)
				case !ok && c.Now().Before(k.born.Add(life-10*time.Millisecond)):
					r.Violate("an assignment is gone before TTL and additional TTL", det)
				case ok:
					present++
				default:
					absent++
					k.last = "" // dropped
				}
				r.Eval(true, name, k.id, steps)
			}
		}
		look()
		for try := 0; len(stale) > 0 && try < 6; try++ {
			time.Sleep(300 * time.Millisecond)
			o.Barrier()
			look()
		}
		if len(stale) > 0 {
			r.Violate("an assignment is still there after TTL and additional TTL", map[string]any{"storage": storage, "tickets": strings.Join(stale, " "), "ttl_s": ttl, "additional_s": add})
		}
	}
	r.Count("clock_jumps", steps)
	r.Count("jump_assignments_present", present)
	r.Count("jump_assignments_absent", absent)
	o.Stop()
}

// c20clock: many updates while the clock stands still, and clocks that are set back and forth.
func c20clock(r *lib.Run) {
	c := r.NewClock()
	if c == nil {
		return
	}
	rng := r.Rng("clock")
	o, end := startClock(r, "memory", c, map[string]string{"OM_CACHE_TICKET_TTL_SECS": "8000000", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "500"})
	defer end()
	ids := map[string]string{}
	var mu sync.Mutex
	var topMS, topSeq int64 = -1, -1 // the highest id so far
	phase := func(kind string, workers, n int) {
		low, lowSeq := topMS, topSeq
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pm, ps := low, lowSeq
				for i := 0; i < n; i++ {
					mu.Lock()
					mark := fmt.Sprintf("clock-%d-%d-%d", w, i, len(ids))
					mu.Unlock()
					t0 := c.Now().UnixMilli()
					id := o.Create(lib.TagTicket("c20clock", mark))
					t1 := c.Now().UnixMilli()
					ms, seq := splitID(id)
					det := map[string]any{"id": id, "clock_before_ms": t0, "clock_after_ms": t1, "phase": kind, "highest_id_before_phase": fmt.Sprintf("%d-%d", low, lowSeq)}
					if !idForm.MatchString(id) {
						r.Violate("an id does not have the documented form", det)
					}
					if ms < pm || (ms == pm && seq <= ps) {
						det["previous"] = fmt.Sprint(pm, "-", ps)
						r.Violate("ids do not increase in the order of submission", det)
					}
					if ms > max(t1, low) || ms < min(t0, t1) {
						r.Violate("the time in an id is not the time of the creation in the unit ticket ages are computed in", det)
					}
					pm, ps = ms, seq
					mu.Lock()
					if x, dup := ids[id]; dup {
						r.Violate("two tickets got the same id", map[string]any{"id": id, "tickets": []any{x, mark}})
					}
					ids[id] = mark
					if ms > topMS || ms == topMS && seq > topSeq {
						topMS, topSeq = ms, seq
					}
					mu.Unlock()
					r.Eval(true, "clock", id)
				}
			}()
		}
		wg.Wait()
		r.Count("clock_phases", 1)
	}
	for round := 0; round < r.N(1, 5); round++ {
		phase("running", 8, 20)
		c.Freeze()
		phase("standing still", 60, r.N(60, 300))
		c.Run()
		phase("running again", 8, 20)
		for i := 0; i < r.N(6, 20); i++ {
			d := time.Duration(rng.Int63n(int64(lib.Pick(rng, []time.Duration{5 * time.Millisecond, time.Second, time.Hour, 200 * time.Hour}))))
			c.Freeze()
			c.Step(-d)
			phase("set back", 4, 15)
			c.Run()
			phase("set back and running", 4, 15)
			c.Step(d + time.Duration(rng.Intn(5000))*time.Millisecond)
			phase("set forward", 4, 10)
		}
	}
	o.Barrier()
	vis := map[string]string{}
	var l []string
	for id := range ids {
		l = append(l, id)
	}
	for i := 0; i < len(l); i += 400 {
		o.Activate(l[i:min(i+400, len(l))]...)
	}
	o.Barrier()
	for id, t := range o.QueryTag("c20clock") {
		vis[id] = t.GetAttributes().GetTags()[1]
	}
	for id, mark := range ids {
		if vis[id] != mark {
			r.Violate("the ticket under a returned id is missing or another one", map[string]any{"id": id, "created": mark, "found": vis[id]})
		}
	}
	r.Count("server_ids_judged", len(vis))
	o.Stop()
}
