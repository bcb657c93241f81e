package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C12"] = c12 }

func c12(r *lib.Run) {
	r.Rule = "one evaluation = one ticket followed over its life: while its expiration is ahead and it is known to be active every pool query must contain it, once it has expired (or was inactive beyond the ticket TTL) and several update cycles have demonstrably completed none may, also not after being activated again. Rounds: Redis stand-in and memory storage, with and without a continuous stream of foreign updates, entries of chosen age replayed at start. Non-trivial: the ticket was observed both present and absent, or was subject to the inactive or resurrection rule"
	n := r.N(1, 6)
	for i := 0; i < n; i++ {
		c12round(r, i, "redis", false)
		c12round(r, i, "redis", true)
		c12round(r, i, "memory", false)
		c12quiet(r, i, "memory")
		c12quiet(r, i, "redis")
		c12mass(r, i)
		c12late(r, i)
		for k := 0; k < 2; k++ {
			c12jump(r, 2*i+k, "memory")
			c12jump(r, 2*i+k, "redis")
		}
	}
}

// c12quiet: nothing at all is updated while the tickets expire; only pools are looked at.
func c12quiet(r *lib.Run, round int, storage string) {
	name := fmt.Sprintf("quiet/%s/%d", storage, round)
	rng := r.Rng(name)
	const ttl = 4
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl)})
	if storage == "redis" {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	type tk struct {
		id   string
		kind string
		exp  time.Time // certainly over then
		safe time.Time // certainly not over before
		seen bool
	}
	var ts []*pb.Ticket
	var tks []*tk
	for i := 0; i < 60; i++ {
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"quiet"}}}
		k := &tk{kind: []string{"own expiration", "default", "inactive"}[i%3]}
		if i%3 == 0 {
			k.exp = time.Now().Add(time.Duration(1000+rng.Intn(2500)) * time.Millisecond)
			k.safe = k.exp
			t.ExpirationTime = timestamppb.New(k.exp)
		}
		ts = append(ts, t)
		tks = append(tks, k)
	}
	t0 := time.Now()
	ids := o.CreateN(ts)
	created := time.Now()
	var act []string
	for i, k := range tks {
		k.id = ids[i]
		if k.exp.IsZero() {
			k.exp, k.safe = created.Add(ttl*time.Second), t0.Add(ttl*time.Second)
		}
		if k.kind != "inactive" {
			act = append(act, ids[i])
		}
	}
	o.Activate(act...)
	last := act[len(act)-1]
	if !lib.Await(60*time.Second, func() bool { return o.QueryTag("quiet")[last] != nil || time.Since(t0) > ttl*time.Second }) {
		r.Violate("an activated ticket never becomes visible", last)
	}
	visible := o.QueryTag("quiet")[last] != nil
	// no update from here on: only queries, and enough of them answered quickly show that the server is not starved
	since := map[string]int{}
	end := created.Add((ttl + 9) * time.Second)
	queries := 0
	for time.Now().Before(end) {
		begin := time.Now()
		vis := o.QueryTag("quiet")
		got := time.Now()
		queries++
		for _, k := range tks {
			v := vis[k.id] != nil
			det := map[string]any{"storage": storage, "ticket": k.id, "kind": k.kind, "expired_before_query_s": begin.Sub(k.exp).Seconds(), "queries_since": since[k.id]}
			switch {
			case v && k.kind == "inactive":
				r.Violate("an inactive ticket is in a pool", det)
			case v && since[k.id] >= 40 && begin.Sub(k.exp) > 6*time.Second:
				r.Violate("a ticket is still in its pool long after its expiration (while nothing is updated)", det)
			case !v && visible && k.kind != "inactive" && got.Before(k.safe):
				r.Violate("an active ticket is missing before its expiration", det)
			case v:
				k.seen = true
			}
			if begin.After(k.exp) && got.Sub(begin) < 300*time.Millisecond {
				since[k.id]++
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	// what was dropped stays away when activated again
	o.Activate(ids...)
	o.Barrier()
	for id := range o.QueryTag("quiet") {
		r.Violate("an expired ticket is in a pool after being activated again", map[string]any{"ticket": id, "storage": storage})
	}
	for _, k := range tks {
		r.Eval(k.seen || k.kind == "inactive", name, k.id)
		if k.seen {
			r.Count("tickets_seen_present_then_absent", 1)
		}
	}
	r.Count("quiet_queries", queries)
	o.Stop()
}

// c12mass: very many tickets expire at the same moment, on an instance whose update cycles are long.
func c12mass(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	rng := r.Rng(fmt.Sprint("mass", round))
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": fmt.Sprint(lib.Pick(rng, []int{250, 400}))}))
	n := r.N(15000, 60000)
	exp := time.Now().Add(time.Duration(r.N(14, 24)) * time.Second)
	tk := func(tag string, exp time.Time) []string {
		return []string{"ticket", string(lib.StoredTicket(&pb.Ticket{ExpirationTime: timestamppb.New(exp), Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}}}, 0))}
	}
	es := make([][]string, n)
	for i := range es {
		es[i] = tk("mass", exp)
	}
	es = append(es, tk("stays", exp.Add(5*time.Minute)))
	for i := r.N(45000, 150000); i > 0; i-- { // many others that stay
		es = append(es, tk("others", exp.Add(time.Hour)))
	}
	ids := s.AddMany(es)
	act := make([][]string, len(ids))
	for i, id := range ids {
		act[i] = []string{"activate", id}
	}
	s.AddMany(act)
	o.BarrierInjected(s.AddMany)
	begin := time.Now()
	before := len(o.QueryTag("mass"))
	if time.Now().Before(exp) && before != n {
		r.Violate("an active ticket is missing before its expiration", map[string]any{"active": n, "visible": before, "until_expiration_s": exp.Sub(begin).Seconds()})
	}
	time.Sleep(time.Until(exp.Add(100 * time.Millisecond)))
	for k := 0; k < 5 || time.Since(exp) < 2500*time.Millisecond; k++ { // every barrier takes at least one cycle
		o.BarrierInjected(s.AddMany)
	}
	left := len(o.QueryTag("mass"))
	if left > 0 {
		r.Violate("a ticket is in a pool after its end", map[string]any{"expired_together": n, "still_visible": left, "after_s": time.Since(exp).Seconds()})
	}
	if len(o.QueryTag("stays")) != 1 {
		r.Violate("an active ticket is missing before its expiration", map[string]any{"ticket": ids[n], "expired_together_with_others": n})
	}
	r.Eval(before > 0, "mass", round)
	r.Count("tickets_expired_together", before)
	o.Stop()
}

// c12late: tickets that expire while they are inactive are activated afterwards, among so many other updates that
// the cycle that applies the activation goes on for a while. They may not appear at any moment.
func c12late(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	rng := r.Rng(fmt.Sprint("late", round))
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "500"}))
	n := 200
	exp := time.Now().Add(2 * time.Second)
	var es [][]string
	for i := 0; i < n; i++ {
		e := exp.Add(-time.Duration(rng.Intn(1500)) * time.Millisecond)
		es = append(es, []string{"ticket", string(lib.StoredTicket(&pb.Ticket{ExpirationTime: timestamppb.New(e), Attributes: &pb.Ticket_FilterableData{Tags: []string{"late"}}}, 0))})
	}
	es = append(es, []string{"ticket", string(lib.StoredTicket(lib.TagTicket("late-stays"), 0))})
	ids := s.AddMany(es)
	s.AddMany([][]string{{"activate", ids[n]}})
	o.BarrierInjected(s.AddMany)
	time.Sleep(time.Until(exp.Add(100 * time.Millisecond)))
	for k := 0; k < 4; k++ { // every barrier takes at least one cycle
		o.BarrierInjected(s.AddMany)
	}
	ext := map[string]*anyT{}
	for i := 0; i < 300; i++ {
		ext[fmt.Sprintf("key-%d", i)] = lib.Any("v")
	}
	val, _ := proto.Marshal(&pb.Assignment{Connection: "busy", Extensions: ext})
	other := []string{"assign", fmt.Sprintf("%d-999999", time.Now().UnixMilli()), "connection", string(val)}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < n; i += 5 {
			var b [][]string
			for _, id := range ids[i : i+5] {
				b = append(b, []string{"activate", id})
			}
			for k := 0; k < 150; k++ {
				b = append(b, other)
			}
			s.AddMany(b)
			time.Sleep(time.Duration(30+rng.Intn(60)) * time.Millisecond)
		}
	}()
	queries := 0
	for run := true; run; {
		select {
		case <-done:
			run = false
		default:
		}
		vis := o.QueryTag("late")
		queries++
		for id := range vis {
			r.Violate("an expired ticket is in a pool after being activated", map[string]any{"ticket": id, "expired_for_s": time.Since(exp).Seconds(), "tickets": len(vis)})
		}
		if len(vis) > 0 {
			break
		}
	}
	<-done
	o.BarrierInjected(s.AddMany)
	if len(o.QueryTag("late")) != 0 {
		r.Violate("an expired ticket is in a pool after being activated", map[string]any{"expired_for_s": time.Since(exp).Seconds(), "when": "at the end"})
	}
	r.Eval(len(o.QueryTag("late-stays")) == 1, "late", round)
	r.Count("late_activations_queries", queries)
	o.Stop()
}

type c12t struct {
	id      string
	kind    string
	exp     time.Time // stored expiration time
	idAge   time.Time // creation according to the id
	active  atomic.Bool
	present atomic.Int64
	absent  atomic.Int64
}

// c12busy keeps the incoming queue of the instance full of (expensive to decode) foreign updates.
func c12busy(s *fredis.Server, stop chan struct{}, wg *sync.WaitGroup) *atomic.Int64 {
	ext := map[string]*anyT{}
	for i := 0; i < 300; i++ {
		ext[fmt.Sprintf("key-%d", i)] = lib.Any("v")
	}
	val, _ := proto.Marshal(&pb.Assignment{Connection: "busy", Extensions: ext})
	e := []string{"assign", fmt.Sprintf("%d-999999", time.Now().UnixMilli()), "connection", string(val)}
	batch := make([][]string, 250)
	for i := range batch {
		batch[i] = e
	}
	var read atomic.Int64 // number of entries handed out
	prev := ""
	var mu sync.Mutex
	index := map[string]int64{}
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		if c.Name == "XREAD" && len(c.Args) > 0 {
			mu.Lock()
			if id := c.Args[len(c.Args)-1]; id != prev {
				prev = id
				if v, ok := index[id]; ok {
					read.Store(v)
				} else { // an entry of the instance itself: approximate by its time
					read.Add(1)
				}
			}
			mu.Unlock()
		}
		return fredis.Action{}
	})
	wg.Add(1)
	go func() {
		defer wg.Done()
		added := int64(0)
		for {
			select {
			case <-stop:
				return
			default:
			}
			if added-read.Load() < 1500 {
				ids := s.AddMany(batch)
				mu.Lock()
				for i, id := range ids {
					index[id] = added + int64(i) + 1
				}
				mu.Unlock()
				added += int64(len(ids))
			} else {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	return &read
}

func c12round(r *lib.Run, round int, storage string, busy bool) {
	name := fmt.Sprintf("%s/%v/%d", storage, busy, round)
	rng := r.Rng(name)
	const ttl = 5
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_LOGGING_LEVEL": "error"})
	var s *fredis.Server
	if storage == "redis" {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		if busy {
			env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "500"
		}
	}
	tag := "c12"
	var all []*c12t
	var amu sync.Mutex
	byID := map[string]*c12t{}
	add := func(t *c12t) {
		amu.Lock()
		all = append(all, t)
		byID[t.id] = t
		amu.Unlock()
	}
	tk := func(create, exp *timestamppb.Timestamp) *pb.Ticket {
		return &pb.Ticket{ExpirationTime: exp, Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}, CreationTime: create}}
	}
	ttld := time.Duration(ttl) * time.Second
	// entries of chosen age that an instance finds when it starts
	if s != nil && !busy {
		now := time.Now()
		type e struct {
			age  time.Duration
			exp  time.Duration
			kind string
		}
		var es []e
		for age := 12 * time.Second; age > 0; age -= 100 * time.Millisecond {
			es = append(es, e{age, ttld - age, lib.Pick(rng, []string{"replayed active", "replayed inactive", "replayed active long", "replayed inactive long"})})
		}
		var acts []string
		for i, x := range es {
			t := now.Add(-x.age)
			exp := now.Add(x.exp)
			if strings.HasSuffix(x.kind, "long") {
				exp = now.Add(time.Hour)
			}
			id, err := s.AddAt(t.UnixMilli(), int64(i%3), "ticket", string(lib.StoredTicket(tk(timestamppb.New(t), timestamppb.New(exp)), 0)))
			if err != nil {
				r.Inconclusive("%v", err)
			}
			add(&c12t{id: id, kind: x.kind, exp: exp, idAge: t})
			if strings.Contains(x.kind, " active") {
				acts = append(acts, id)
			}
		}
		for _, id := range acts {
			s.Add("activate", id)
		}
	}
	o := r.StartOM("om", env)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if s != nil && !busy {
		o.Barrier() // the replayed tickets are applied now
		amu.Lock()
		for _, t := range all {
			// beyond the TTL a replayed ticket may be dropped between its creation and its activation
			if strings.Contains(t.kind, " active") && time.Now().Before(t.idAge.Add(ttld)) {
				t.active.Store(true)
			}
		}
		amu.Unlock()
	}
	if busy {
		c12busy(s, stop, &wg)
	}
	// tickets created now: expirations spread over the TTL
	var ts []*pb.Ticket
	var kinds []string
	nt := 400
	for i := 0; i < nt; i++ {
		switch i % 8 {
		case 0: // never activated, its content outlives the TTL (creation time ahead)
			ts = append(ts, tk(timestamppb.New(time.Now().Add(time.Hour)), nil))
			kinds = append(kinds, "inactive long")
		case 1: // active, its content outlives the TTL
			ts = append(ts, tk(timestamppb.New(time.Now().Add(time.Hour)), nil))
			kinds = append(kinds, "active long")
		case 2: // never activated, normal
			ts = append(ts, tk(nil, nil))
			kinds = append(kinds, "inactive")
		case 3: // activated shortly before its end
			ts = append(ts, tk(nil, nil))
			kinds = append(kinds, "late activation")
		default:
			ts = append(ts, tk(nil, timestamppb.New(time.Now().Add(time.Duration(500+rng.Intn(ttl*1000))*time.Millisecond))))
			kinds = append(kinds, "active")
		}
	}
	pre := time.Now()
	ids := o.CreateN(ts)
	var stored map[string]*pb.Ticket
	if s != nil {
		stored, _, _ = lib.Fold(lib.DecodeAll(0, c12own(s)))
	}
	var act, late []string
	for i, id := range ids {
		t := &c12t{id: id, kind: kinds[i]}
		if s != nil {
			t.exp = stored[id].GetExpirationTime().AsTime()
		} else if kinds[i] == "active" {
			t.exp = ts[i].GetExpirationTime().AsTime()
			if t.exp.After(pre.Add(ttld)) { // may have been shortened to creation + TTL: use what is certain
				t.exp = time.Time{}
			}
		} else if strings.HasSuffix(kinds[i], "long") {
			t.exp = ts[i].GetAttributes().GetCreationTime().AsTime().Add(ttld)
		}
		var ms int64
		fmt.Sscanf(id, "%d-", &ms)
		t.idAge = time.UnixMilli(ms)
		add(t)
		switch {
		case strings.HasPrefix(kinds[i], "active"):
			act = append(act, id)
		case kinds[i] == "late activation":
			late = append(late, id)
		}
	}
	markActive := func(ids []string) {
		o.Activate(ids...)
		o.Barrier()
		for _, id := range ids {
			byID[id].active.Store(true)
		}
	}
	markActive(act)
	// some tickets are assigned; that changes nothing about their expiration
	for lo := 0; lo < len(ids); lo += 90 {
		ctx, cancel := lib.Ctx()
		_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{
			Assignment: &pb.Assignment{Connection: "10.0.0.1:7777"}, Tickets: ticketsOf(ids[lo:min(lo+30, len(ids))])}})
		cancel()
		if err != nil {
			r.Violate("CreateAssignments fails without a fault", err.Error())
		}
	}

	// the observer
	var cycles atomic.Int64 // update cycles known to have completed since the start (time of the last barrier)
	type mark struct{ at time.Time }
	var mmu sync.Mutex
	var marks []mark                             // begin times of completed barriers
	certain := func(since, now time.Time) bool { // enough update cycles happened between since and now
		mmu.Lock()
		defer mmu.Unlock()
		n := 0
		for _, m := range marks {
			if m.at.After(since) {
				n++
			}
		}
		return n >= 4 && now.Sub(since) > 2500*time.Millisecond
	}
	end := pre.Add(ttld + 9*time.Second)
	wg.Add(2)
	go func() { // barriers, at least 600 ms apart
		defer wg.Done()
		for time.Now().Before(end.Add(30 * time.Second)) {
			select {
			case <-stop:
				return
			default:
			}
			t := time.Now()
			o.Barrier()
			mmu.Lock()
			marks = append(marks, mark{t})
			mmu.Unlock()
			cycles.Add(1)
			time.Sleep(600 * time.Millisecond)
		}
	}()
	var queries atomic.Int64
	go func() { // late activations: 1.5 s before the end of the TTL
		defer wg.Done()
		time.Sleep(time.Until(pre.Add(ttld - 2*time.Second)))
		if time.Since(pre) < ttld-time.Second {
			markActive(late)
		}
	}()
	resurrected := false
	for time.Now().Before(end) || !resurrected {
		mmu.Lock()
		nm := len(marks)
		mmu.Unlock()
		if !resurrected && time.Since(pre) > ttld+3500*time.Millisecond && nm > 6 {
			// everything inactive beyond the TTL is gone by now; activate it again
			resurrected = true
			var again []string
			for _, t := range all {
				if strings.Contains(t.kind, "inactive") && certain(t.idAge.Add(ttld), time.Now()) {
					again = append(again, t.id)
				}
			}
			o.Activate(again...)
			o.Barrier()
			r.Count("reactivations_of_dropped_tickets", len(again))
			end = time.Now().Add(1500 * time.Millisecond)
		}
		begin := time.Now()
		known := map[string]bool{}
		mustGone := map[string]string{}
		for _, t := range all {
			known[t.id] = t.active.Load()
			if !t.exp.IsZero() && certain(t.exp, begin) {
				mustGone[t.id] = "expired"
			}
			if strings.Contains(t.kind, "inactive") && certain(t.idAge.Add(ttld), begin) {
				mustGone[t.id] = "inactive beyond the ticket TTL"
			}
		}
		obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool(tag)})
		vis := obs.Pools["p"]
		queries.Add(1)
		for _, t := range all {
			_, v := vis[t.id]
			det := map[string]any{"storage": storage, "busy": busy, "ticket": t.id, "kind": t.kind, "expires": t.exp.String(), "query_begin": begin.String(), "query_received": obs.Got.String(), "barriers": nm}
			if v {
				t.present.Add(1)
				if why := mustGone[t.id]; why != "" {
					det["why"] = why
					r.Violate("a ticket is in a pool after its end", det)
				}
				if strings.Contains(t.kind, "inactive") {
					r.Violate("an inactive ticket is in a pool", det)
				}
			} else {
				t.absent.Add(1)
				if known[t.id] && !t.exp.IsZero() && obs.Got.Before(t.exp) {
					r.Violate("an active ticket is missing before its expiration", det)
				}
			}
		}
		time.Sleep(time.Duration(5+rng.Intn(20)) * time.Millisecond)
	}
	close(stop)
	wg.Wait()
	if s != nil {
		s.SetHook(nil)
	}
	for _, t := range all {
		p, a := t.present.Load(), t.absent.Load()
		r.Eval((p > 0 && a > 0) || strings.Contains(t.kind, "inactive"), name, t.id)
		r.Count("tickets: "+t.kind, 1)
		if p > 0 && a > 0 {
			r.Count("tickets_seen_present_then_absent", 1)
		}
	}
	r.Count("pool_queries_judged", int(queries.Load()))
	r.Count("update_cycles_proved", int(cycles.Load()))
	if r.WantSample() {
		r.Sample(map[string]any{"round": name, "tickets": len(all), "queries": queries.Load(), "barriers": cycles.Load()})
	}
	o.Stop()
}

// c12own returns the ticket entries (the foreign flood left out).
func c12own(s *fredis.Server) []fredis.Entry {
	var out []fredis.Entry
	for _, e := range s.Entries(0) {
		if e.Fields[0] != "assign" {
			out = append(out, e)
		}
	}
	return out
}
