package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func c04(r *lib.Run) {
	r.Rule = "one evaluation = one ActivateTickets or DeactivateTickets call (unique ids per call, concurrent with others, with and without storage faults) judged on the storage log: acknowledged ids stored once, in request order, between the calls before and after; failed ids named exactly. The pools are compared with the fold of the log at quiescence and prefix-wise during the run. Non-trivial: the call had at least two ids or met a fault"
	defer side(r, "a")()
	for i := 0; i < r.N(6, 30); i++ {
		c04round(r, i)
	}
	for i := 0; i < r.N(1, 6); i++ {
		c03churn(r, 100+i, false)
		c03catchup(r, 100+i, false)
	}
	c04same(r)
	c04memory(r)
}

// c04same: several clients update the same ticket at the same time; each of their updates is stored.
func c04same(r *lib.Run) {
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "40", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "5000"}))
	rng := r.Rng("same")
	for k := 0; k < r.N(12, 60); k++ {
		base := s.Len()
		want := map[string]int{}
		var wg sync.WaitGroup
		for i := 0; i < 25; i++ {
			id := fmt.Sprintf("%d-%d", 4000+k, i)
			n := 2 + rng.Intn(3)
			for c := 0; c < n; c++ {
				on := rng.Intn(2) == 0
				if c < 2 {
					on = c == 0 != (rng.Intn(2) == 0)
				}
				verb := "deactivate "
				if on {
					verb = "activate "
				}
				want[verb+id]++
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx, cancel := lib.Ctx()
					defer cancel()
					var err error
					if on {
						_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
					} else {
						_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
					}
					if err != nil {
						r.Violate("a request fails without a fault", map[string]any{"request": verb + id, "error": err.Error()})
					}
				}()
			}
		}
		wg.Wait()
		got := map[string]int{}
		for _, u := range lib.DecodeAll(base, s.Entries(base)) {
			got[u.Cmd+" "+u.Key]++
		}
		for w, n := range want {
			if got[w] != n {
				r.Violate("updates of one ticket by several clients at once are not stored exactly once each", map[string]any{"update": w, "acknowledged": n, "stored": got[w]})
			}
		}
		r.Eval(true, "same", k)
	}
	o.Stop()
}

type c04call struct {
	on         bool
	ids        []string // the well-formed ones
	sent       []string // everything, malformed ids too
	start, end int      // log length at start and at return
	worker     int
	err        error
	t0, t1     int64
}

func violatedIDs(err error) []string {
	var out []string
	for _, d := range status.Convert(err).Details() {
		if br, ok := d.(*errdetails.BadRequest); ok {
			for _, v := range br.GetFieldViolations() {
				out = append(out, strings.TrimPrefix(v.GetField(), "ticketId/"))
			}
		}
	}
	sort.Strings(out)
	return out
}

func c04round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint(round))
	s := newRedis(r)
	defer s.Close()
	mode := round % 5 // 0: no faults, 1: error replies, 2: dropped connections, 3: error replies, big batches, 4: most updates refused, large requests
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 4, 50, 500})),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":     fmt.Sprint(lib.Pick(rng, []int{1, 5, 20})),
	}))
	var ts []*pb.Ticket
	nt := 300
	for i := 0; i < nt; i++ {
		ts = append(ts, lib.TagTicket("c04"))
	}
	ids := o.CreateN(ts)
	base := s.Len()
	var fmu sync.Mutex
	refused := map[string]int{} // update -> times refused
	var drops atomic.Int64
	frng := r.Rng(fmt.Sprint("f", round))
	if mode != 0 {
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			if c.Name != "XADD" {
				return fredis.Action{}
			}
			fmu.Lock()
			defer fmu.Unlock()
			x := frng.Intn(100)
			if (mode == 1 || mode == 3 || mode == 4) && x < map[int]int{1: 10, 3: 10, 4: 75}[mode] && len(c.Args) >= 4 {
				refused[c.Args[2]+" "+c.Args[3]]++
				return fredis.Action{Err: lib.StorageError()}
			}
			if mode == 2 && x < 3 {
				drops.Add(1)
				return fredis.Action{DropBefore: frng.Intn(2) == 0, DropAfter: true}
			}
			return fredis.Action{}
		})
	}
	tr := lib.NewTracker(r, s)
	tr.OnlyMissing = true
	stop := make(chan struct{})
	var wwg sync.WaitGroup
	wwg.Add(1)
	go watchPools(r, o, tr, "c04", stop, &wwg)

	quiet := o.Noise(r.Rng(fmt.Sprint("noise", round)), 15*time.Millisecond, ids)
	workers := 12
	var mu sync.Mutex
	var calls []*c04call
	var wg sync.WaitGroup
	var clock atomic.Int64
	each := r.N(20, 60)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("w", round, w))
		go func() {
			defer wg.Done()
			own := ids[w*nt/workers : (w+1)*nt/workers]
			for k := 0; k < each; k++ {
				// ids of this call: own real tickets, plus unique well-formed ids nobody else uses
				c := &c04call{on: wr.Intn(2) == 0, worker: w}
				n := 1 + wr.Intn(lib.Pick(wr, []int{3, 20, 120}))
				if mode == 4 && k%4 == 0 {
					n = 300 + wr.Intn(100)
				}
				malformed := wr.Intn(3) == 0
				used := map[string]bool{}
				for i := 0; i < n; i++ {
					var id string
					if wr.Intn(3) == 0 {
						id = lib.Pick(wr, own)
					} else {
						id = fmt.Sprintf("%d-%d", 1000+w*1000+k, i)
					}
					if used[id] && mode != 0 {
						continue // with faults every id once, so that failures can be attributed
					}
					used[id] = true
					c.ids = append(c.ids, id)
					c.sent = append(c.sent, id)
					for malformed && wr.Intn(4) == 0 {
						c.sent = append(c.sent, lib.Pick(wr, []string{"", "bad", id + "-", "x" + id, id + " ", "-", "7", "1-1-1"}))
					}
				}
				ctx, cancel := lib.Ctx()
				c.start, c.t0 = s.Len(), clock.Add(1)
				if c.on {
					_, c.err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: c.sent})
				} else {
					_, c.err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: c.sent})
				}
				c.end, c.t1 = s.Len(), clock.Add(1)
				cancel()
				if code := status.Code(c.err); code == codes.DeadlineExceeded {
					r.Violate("(de)activation hangs", map[string]any{"error": c.err.Error()})
				}
				mu.Lock()
				calls = append(calls, c)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	quiet()
	s.SetHook(nil)
	all := lib.DecodeAll(0, s.Entries(0))
	claimed := make([]*c04call, len(all))
	for ci, c := range calls {
		verb := "deactivate"
		if c.on {
			verb = "activate"
		}
		// entries of this call: in [start,end), with its verb and ids, in order
		count := map[string]int{}
		for _, id := range c.ids {
			count[id]++
		}
		var got []string
		var pos []int
		mine := func(id string) bool { return count[id] > 0 }
		for i := c.start; i < c.end && i < len(all); i++ {
			if all[i].Cmd == verb && mine(all[i].Key) && claimed[i] == nil {
				got = append(got, all[i].Key)
				pos = append(pos, i)
			}
		}
		named := violatedIDs(c.err)
		det := map[string]any{"call": verb, "ids": c.ids, "sent": c.sent, "stored": got, "error": fmt.Sprint(c.err), "named_in_error": named, "log_window": []int{c.start, c.end}, "mode": mode}
		for _, p := range pos {
			claimed[p] = c
		}
		if c.err == nil {
			if strings.Join(got, ",") != strings.Join(c.ids, ",") {
				r.Violate("acknowledged updates are not stored exactly once and in order", det)
			}
		} else {
			if mode == 0 {
				r.Violate("(de)activation fails without a fault", det)
			}
			// what is stored must be a subsequence of the request; each at most once
			j := 0
			for _, id := range c.ids {
				if j < len(got) && got[j] == id {
					j++
				}
			}
			if j != len(got) {
				r.Violate("updates of a partly failed call are stored twice or out of order", det)
			}
			st := map[string]bool{}
			for _, id := range got {
				st[id] = true
			}
			nm := map[string]bool{}
			for _, id := range named {
				nm[id] = true
				if !mine(id) {
					r.Violate("error details name an id that is not in the request", det)
				}
				if st[id] && mode != 2 { // a lost reply makes an update fail although it was stored
					r.Violate("error details name an id that was stored", det)
				}
			}
			for _, id := range c.ids {
				if !st[id] && !nm[id] {
					r.Violate("error details do not name an id that was not stored", det)
				}
			}
			r.Count("calls_failed_partly", 1)
		}
		r.Eval(len(c.ids) > 1 || c.err != nil, round, ci, len(c.ids))
		if r.WantSample() && c.err != nil {
			r.Sample(det)
		}
	}
	for i := base; i < len(all); i++ {
		if claimed[i] == nil && (all[i].Cmd == "activate" || all[i].Cmd == "deactivate") && !isMarker(all, all[i].Key) {
			r.Violate("the log holds an update nobody requested (or a second copy)", map[string]any{"entry": all[i].ID, "cmd": all[i].Cmd, "key": all[i].Key, "index": i, "mode": mode})
		}
	}
	o.BarrierInjected(s.AddMany)
	close(stop)
	wwg.Wait()
	tr.OnlyMissing = false
	tr.MarkApplied(finalLen(s))
	obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("c04")})
	tr.Judge(tr.Begin(), s.Len(), idSet(obs.Pools["p"]), notBarrier(obs, tr))
	_, act, _ := lib.Fold(lib.DecodeAll(0, s.Entries(0)))
	for _, id := range ids {
		if act[id] != (obs.Pools["p"][id] != nil) {
			r.Violate("pool differs from the fold of the log at quiescence", map[string]any{"ticket": id, "active_by_log": act[id]})
		}
	}
	r.Count("calls", len(calls))
	r.Count("connection_drops", int(drops.Load()))
	r.Count("stream_entries", s.Len())
	o.Stop()
}

func isMarker(all []lib.Upd, key string) bool {
	for _, u := range all {
		if u.Cmd == "ticket" && u.Key == key {
			for _, t := range u.Ticket.GetAttributes().GetTags() {
				if strings.HasPrefix(t, "zz-") {
					return true
				}
			}
		}
	}
	return false
}

// c04memory: with the in-memory storage the last acknowledged update of each ticket decides.
func c04memory(r *lib.Run) {
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "3"}))
	for k := 0; k < r.N(4, 20); k++ {
		var ts []*pb.Ticket
		tag := fmt.Sprint("c04m", k)
		for i := 0; i < 160; i++ {
			ts = append(ts, lib.TagTicket(tag))
		}
		ids := o.CreateN(ts)
		active := make([]bool, len(ids))
		quiet := o.Noise(r.Rng(fmt.Sprint("mnoise", k)), 10*time.Millisecond, ids)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			wr := r.Rng(fmt.Sprint("m", k, w))
			go func() {
				defer wg.Done()
				for n := 0; n < 12; n++ {
					on := wr.Intn(2) == 0
					var l []string
					for i := w * 20; i < (w+1)*20; i++ {
						if wr.Intn(3) == 0 {
							l = append(l, ids[i])
							active[i] = on
						}
					}
					if len(l) > 0 {
						if on {
							o.Activate(l...)
						} else {
							o.Deactivate(l...)
						}
					}
					r.Eval(len(l) > 1, "mem", k, w, n)
				}
			}()
		}
		wg.Wait()
		quiet()
		o.Barrier()
		vis := o.QueryTag(tag)
		for i, id := range ids {
			if active[i] != (vis[id] != nil) {
				r.Violate("pool differs from the last acknowledged update (memory storage)", map[string]any{"ticket": id, "want_active": active[i]})
			}
		}
	}
	o.Stop()
}
