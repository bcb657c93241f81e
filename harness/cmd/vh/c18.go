package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C18"] = c18 }

func c18(r *lib.Run) {
	r.Rule = "one evaluation = one acknowledged write after which the stream may hold nothing older than the TTL (measured from the start of the call), one stream entry that was removed (its age when removed must exceed the TTL), or one unexpired ticket that an instance started later must offer. Streams pre-filled with entries of every age around the TTL; TTLs from 1 s to 35 days. Non-trivial: something was removed, or was kept although old entries were removed"
	ttls := []int64{1, 3, 6, 600, 3_000_000}
	for i := 0; i < r.N(5, 20); i++ {
		c18round(r, i, ttls[i%len(ttls)])
	}
}

func c18round(r *lib.Run, round int, ttl int64) {
	rng := r.Rng(fmt.Sprint(round))
	s := newRedis(r)
	defer s.Close()
	type te struct {
		id  string
		exp time.Time
	}
	// what is there: ages from twice the TTL down to 0
	var ids []string
	fill := 600
	extra := map[string]string{}
	switch round % 3 {
	case 0: // far more entries than are read or written at a time
		extra["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "40"
		extra["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = "3"
		extra["OM_MAX_STATE_UPDATES_PER_CALL"] = "30"
	case 1:
		if ttl >= 3 {
			fill = r.N(25_000, 250_000)
		}
		extra["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "2000"
	}
	now := time.Now()
	span := 2 * ttl * 1000
	last := int64(-1)
	for i := 0; i < fill; i++ {
		age := span * int64(fill-i) / int64(fill)
		if rng.Intn(3) == 0 { // dense around the TTL
			age = ttl*1000 + 1500 - int64(i)*3000/int64(fill)
		}
		ms := now.UnixMilli() - age
		if ms <= last {
			ms = last
		}
		var f []string
		t := time.UnixMilli(ms)
		if rng.Intn(3) > 0 || len(ids) == 0 {
			f = []string{"ticket", string(lib.StoredTicket(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"c18"}, CreationTime: timestamppb.New(t)}, ExpirationTime: timestamppb.New(t.Add(time.Duration(ttl) * time.Second))}, 0))}
		} else {
			f = []string{"activate", lib.Pick(rng, ids)}
		}
		id, err := s.AddAt(ms, int64(i), f...)
		if err != nil {
			r.Inconclusive("%v", err)
		}
		last = ms
		if f[0] == "ticket" {
			ids = append(ids, id)
		}
	}
	env := lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl)}, extra)
	o := r.StartOM("om", env)
	dur := time.Duration(r.N(2500, 6000)) * time.Millisecond
	if ttl > 100 {
		dur = time.Second
	}
	var wg sync.WaitGroup
	stop := time.Now().Add(dur)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			var own []string
			for n := 0; time.Now().Before(stop); n++ {
				t0 := time.Now()
				what := "create"
				if len(own) > 0 && wr.Intn(2) == 0 {
					what = "activate"
					o.Activate(lib.Pick(wr, own))
				} else {
					own = append(own, o.Create(lib.TagTicket("c18")))
				}
				live := s.Live()
				limit := t0.UnixMilli() - ttl*1000
				if len(live) > 0 && live[0].MS < limit {
					r.Violate("entries older than the ticket TTL remain in the stream after a write", map[string]any{"ttl_s": ttl, "oldest": live[0].ID(), "older_than_ttl_by_ms": limit - live[0].MS, "write": what})
				}
				r.Eval(true, "write", round, w, n)
				time.Sleep(time.Duration(wr.Intn(30)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	c18removed(r, s, ttl, round)
	// an instance started now rebuilds everything within its TTL
	o.Barrier()
	o.Kill()
	all := lib.DecodeAll(0, s.Entries(0))
	_, active, _ := lib.Fold(all)
	t1 := time.Now()
	o2 := r.StartOM("om", env)
	o2.BarrierInjected(s.AddMany)
	obs := o2.Query(map[string]*pb.Pool{"p": lib.TagPool("c18")})
	need := 0
	for _, u := range all {
		if u.Cmd != "ticket" || u.Ticket == nil || !active[u.Key] {
			continue
		}
		// inactive tickets may be dropped when they reach the TTL; what is within it at the end must be there
		exp := u.Ticket.GetExpirationTime().AsTime()
		end := time.UnixMilli(u.MS + ttl*1000)
		if exp.After(end) {
			exp = end
		}
		if !obs.Got.Before(exp) {
			continue
		}
		need++
		if obs.Pools["p"][u.Key] == nil {
			r.Violate("an instance started later misses a ticket that is within its TTL", map[string]any{"ticket": u.Key, "age_ms": t1.UnixMilli() - u.MS, "ttl_s": ttl})
		}
		r.Eval(true, "rebuilt", round, u.Key)
	}
	r.Count("tickets_rebuilt", need)
	o2.Stop()
	c18removed(r, s, ttl, round)
	trims := s.Trims()
	r.Count("trims", len(trims))
	if r.WantSample() {
		r.Sample(map[string]any{"ttl_s": ttl, "entries": s.Len(), "live_at_end": len(s.Live()), "trims": len(trims), "tickets_rebuilt": need})
	}
}

func c18removed(r *lib.Run, s *fredis.Server, ttl int64, round int) {
	n := 0
	for _, e := range s.Entries(0) {
		if !e.Trimmed {
			continue
		}
		n++
		if age := e.TrimmedAt.UnixMilli() - e.MS; age < ttl*1000 {
			r.Violate("an entry younger than the ticket TTL is removed from the stream", map[string]any{"entry": e.ID(), "age_ms": age, "ttl_s": ttl})
		}
		r.Eval(true, "removed", round, e.ID())
	}
	r.Count("entries_removed_judged", n)
}
