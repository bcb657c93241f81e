package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C17"] = c17 }

func c17(r *lib.Run) {
	r.Rule = "one evaluation = one RPC answered (within its deadline) during the run, one sample of the number of open storage connections against the pool limits, one recovery (creation, activation and reads work again after an outage without a restart), or one acknowledged update looked up in the storage log and, at the end, in the pools. Outages: refused and cut connections, commands refused, commands hanging for a while, in sequence. Non-trivial: the RPC was made during or after an outage, or after more updates than the pool has connections"
	defer side(r, "cas")()
	for i := 0; i < r.N(3, 15); i++ {
		c17round(r, i)
	}
	c17hang(r)
}

func c17round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint(round))
	s := newRedis(r)
	defer s.Close()
	limit := []int{2, 4, 500}[round%3]
	idle := lib.Pick(rng, []int{1, limit})
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_REDIS_POOL_MAX_ACTIVE": fmt.Sprint(limit), "OM_REDIS_POOL_MAX_IDLE": fmt.Sprint(idle), "OM_LOGGING_LEVEL": "panic",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "1", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "2", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 10}))}))
	var acked sync.Map // update description -> true
	var nacked, nfailed atomic.Int64
	var down atomic.Bool
	var outages atomic.Int64
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("w", round, w))
		go func() {
			defer wg.Done()
			var mine []string
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				ctx, cancel := lib.Ctx()
				var err error
				if len(mine) == 0 || wr.Intn(3) == 0 {
					var resp *pb.CreateTicketResponse
					resp, err = o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("c17")})
					if err == nil {
						mine = append(mine, resp.GetTicketId())
						acked.Store("ticket "+resp.GetTicketId(), true)
					}
				} else {
					id := lib.Pick(wr, mine)
					on := wr.Intn(3) > 0
					if on {
						_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
					} else {
						_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
					}
					if err == nil {
						k := "deactivate "
						if on {
							k = "activate "
						}
						v, _ := acked.LoadOrStore(k+id, new(atomic.Int64))
						v.(*atomic.Int64).Add(1)
					}
				}
				cancel()
				if status.Code(err) == codes.DeadlineExceeded {
					r.Violate("a call is not answered", map[string]any{"round": round, "pool_limit": limit, "outages_so_far": outages.Load(), "calls_acknowledged": nacked.Load(), "calls_failed": nfailed.Load()})
				}
				if err != nil {
					nfailed.Add(1)
					time.Sleep(2 * time.Millisecond)
				} else {
					nacked.Add(1)
				}
				r.Eval(outages.Load() > 0 || n > limit, "rpc", round, w, n)
			}
		}()
	}
	// connection monitor
	wg.Add(1)
	go func() {
		defer wg.Done()
		over := 0
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			open, _, _ := s.Stats()
			r.Max("open_connections", int64(open))
			r.Count("connection_samples", 1)
			if open > 2*limit {
				over++
			} else {
				over = 0
			}
			if over > 150 { // 3 s: not just connections about to be closed
				r.Violate("more open storage connections than the pools allow", map[string]any{"open": open, "limit_per_pool": limit, "pools": 2, "outages_so_far": outages.Load()})
			}
		}
	}()
	recovered := func(kind string) {
		t0 := time.Now()
		ok := 0
		if !lib.Await(40*time.Second, func() bool { // 20 consecutive successes
			ctx, cancel := lib.Ctx()
			defer cancel()
			resp, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("c17")})
			if err != nil {
				ok = 0
				return false
			}
			acked.Store("ticket "+resp.GetTicketId(), true)
			ok++
			return ok >= 20
		}) {
			r.Violate("creations keep failing after a storage outage", map[string]any{"outage": kind, "round": round, "pool_limit": limit})
		}
		r.Max("recovery_ms", time.Since(t0).Milliseconds())
		if !o.Alive() {
			o.CheckLog()
		}
		// reads work again (an activation needs a successful write too: retried, since a pooled connection may still be stale)
		tag := fmt.Sprintf("c17-%d-%d", round, outages.Load())
		id := o.Create(lib.TagTicket(tag))
		o.Activate(id)
		o.AwaitVisible(tag, id)
		r.Eval(true, "recovery", round, outages.Load())
		r.Count("recoveries after: "+kind, 1)
	}
	time.Sleep(300 * time.Millisecond)
	recovered("start")
	for k := 0; k < r.N(8, 16); k++ {
		kind := []string{"refused connections", "cut connections", "commands refused", "short flapping", "writes refused", "reads refused", "slow", "cut replies"}[(k+round)%8]
		outages.Add(1)
		d := time.Duration(50+rng.Intn(700)) * time.Millisecond
		down.Store(true)
		switch kind {
		case "refused connections":
			s.SetDown(true)
			time.Sleep(d)
			s.SetDown(false)
		case "cut connections":
			for i := 0; i < 5; i++ {
				s.DropAll()
				time.Sleep(d / 10)
			}
		case "short flapping":
			for i := 0; i < 10; i++ {
				s.SetDown(true)
				time.Sleep(time.Duration(rng.Intn(15)) * time.Millisecond)
				s.SetDown(false)
				time.Sleep(time.Duration(rng.Intn(15)) * time.Millisecond)
			}
		default:
			s.SetHook(func(c *fredis.Cmd) fredis.Action {
				switch kind {
				case "commands refused":
					return fredis.Action{Err: lib.StorageError()}
				case "writes refused":
					if c.Name == "XADD" || c.Name == "XTRIM" {
						return fredis.Action{Err: lib.StorageError()}
					}
				case "reads refused":
					if c.Name == "XREAD" {
						return fredis.Action{Err: lib.StorageError()}
					}
				case "slow":
					return fredis.Action{Delay: 30 * time.Millisecond}
				case "cut replies":
					return fredis.Action{DropAfter: c.N%3 == 0}
				}
				return fredis.Action{}
			})
			time.Sleep(d)
			s.SetHook(nil)
		}
		down.Store(false)
		recovered(kind)
		time.Sleep(100 * time.Millisecond)
	}
	close(stop)
	wg.Wait()
	o.Barrier()
	// nothing acknowledged is missing from the log, and the pools agree with the log
	us := lib.DecodeAll(0, s.Entries(0))
	have := map[string]int64{}
	for _, u := range us {
		have[u.Cmd+" "+u.Key]++
	}
	acked.Range(func(k, v any) bool {
		want := int64(1)
		if c, ok := v.(*atomic.Int64); ok {
			want = c.Load()
		}
		if have[k.(string)] < want {
			r.Violate("an acknowledged update is not stored", map[string]any{"update": k, "acknowledged": want, "stored": have[k.(string)], "round": round})
		}
		r.Eval(true, "acked", round, k)
		return true
	})
	_, active, _ := lib.Fold(us)
	vis := o.QueryTag("c17")
	for _, u := range us {
		if u.Cmd != "ticket" || u.Ticket == nil || len(u.Ticket.GetAttributes().GetTags()) != 1 || u.Ticket.Attributes.Tags[0] != "c17" {
			continue
		}
		if (vis[u.Key] != nil) != active[u.Key] {
			r.Violate("the pools differ from the stored updates after the outages", map[string]any{"ticket": u.Key, "active_by_log": active[u.Key], "in_pool": vis[u.Key] != nil})
		}
	}
	_, max, total := s.Stats()
	r.Count("calls_acknowledged", int(nacked.Load()))
	r.Count("calls_failed", int(nfailed.Load()))
	r.Count("connections_opened", total)
	_ = max
	if r.WantSample() {
		r.Sample(map[string]any{"round": round, "pool_limit": limit, "acknowledged": nacked.Load(), "failed": nfailed.Load(), "outages": outages.Load(), "log_entries": len(us)})
	}
	o.Stop()
}

// c17hang: commands hang for some seconds and then go on; nothing is lost.
func c17hang(r *lib.Run) {
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_REDIS_POOL_MAX_ACTIVE": "2", "OM_REDIS_POOL_MAX_IDLE": "1", "OM_LOGGING_LEVEL": "panic"}))
	ids := []string{}
	for i := 0; i < 50; i++ {
		ids = append(ids, o.Create(lib.TagTicket("hang")))
	}
	var n atomic.Int64
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		if n.Add(1)%20 == 0 {
			return fredis.Action{Delay: 1500 * time.Millisecond}
		}
		return fredis.Action{}
	})
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(ids); i += 8 {
				o.Activate(ids[i])
			}
		}()
	}
	wg.Wait()
	s.SetHook(nil)
	o.Barrier()
	if v := len(o.QueryTag("hang")); v != len(ids) {
		r.Violate("acknowledged activations are missing after the storage was slow", map[string]any{"acknowledged": len(ids), "visible": v})
	}
	r.Eval(true, "hang")
	o.Stop()
}
