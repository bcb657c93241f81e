package main

import (
	"fmt"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

// side starts scenarios that mostly wait, each with a server of its own, next to the rest of a check: a storage that
// answers slowly, and pauses without any write. kinds: which updates are made (c: creations, a: activations and
// deactivations, s: assignments). The returned function waits for their end.
func side(r *lib.Run, kinds string) func() {
	var wg sync.WaitGroup
	for v := 0; v < r.N(4, 8); v++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sideRun(r, kinds, v)
		}()
	}
	return wg.Wait
}

func sideRun(r *lib.Run, kinds string, v int) {
	rng := r.Rng(fmt.Sprint("side", v))
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("ommulti", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"VERIF_SECONDARY": "1", "OM_CACHE_TICKET_TTL_SECS": "600"}))
	tag := fmt.Sprint("side", v)
	fill := func(n int) (ts []*pb.Ticket) {
		for i := 0; i < n; i++ {
			ts = append(ts, lib.TagTicket(tag))
		}
		return
	}
	ids := o.CreateN(fill(40))
	idx := newIndex(s)
	serial := 0
	slow := v%2 == 1
	for phase := 0; phase < r.N(3, 6); phase++ {
		switch {
		case phase == 0:
		case slow: // one reply takes long
			var mu sync.Mutex
			n, at := 0, 2+rng.Intn(20)
			d := time.Duration([]int{8, 13, 22, 35}[(v/2+2*phase)%4])*time.Second + time.Duration(rng.Intn(1000))*time.Millisecond
			s.SetHook(func(c *fredis.Cmd) fredis.Action {
				if c.Name != "XADD" {
					return fredis.Action{}
				}
				mu.Lock()
				defer mu.Unlock()
				if n++; n == at {
					return fredis.Action{Delay: d}
				}
				return fredis.Action{}
			})
		default: // nothing is written for a while
			pause := time.Duration(15500+rng.Intn(3000)) * time.Millisecond
			at := time.Duration(rng.Int63n(int64(pause)))
			time.Sleep(at)
			if (v/2+phase)%2 == 0 { // the storage closes its connections meanwhile
				s.DropAll()
				r.Count("connections_closed_in_a_pause", 1)
			}
			time.Sleep(pause - at)
		}
		var wg sync.WaitGroup
		call := func(what string, f func() error) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := f()
				if status.Code(err) == codes.DeadlineExceeded && slow {
					// A server may give up on its own; that it answers at all is judged by the time below.
					r.Count("calls_given_up_by_a_slow_storage", 1)
				}
				if err != nil && !slow {
					r.Violate(what+" fails without a fault", map[string]any{"error": err.Error(), "phase": phase, "after_a_pause": phase > 0})
				}
				r.Eval(true, "side", what, v, phase)
			}()
		}
		timed := func(what string, f func() error) func() error {
			return func() error {
				t0 := time.Now()
				err := f()
				if time.Since(t0) > 85*time.Second {
					r.Violate(what+" hangs", map[string]any{"slow_storage": slow, "phase": phase, "error": fmt.Sprint(err)})
				}
				return err
			}
		}
		has := func(k rune) bool {
			for _, x := range kinds {
				if x == k {
					return true
				}
			}
			return false
		}
		for i := 0; i < 16; i++ {
			serial++
			n := serial
			if has('c') {
				call("CreateTicket", timed("CreateTicket", func() error {
					ctx, cancel := lib.Ctx()
					defer cancel()
					m := fmt.Sprintf("m-side-%d-%d", v, n)
					resp, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket(m)})
					if err != nil {
						return err
					}
					u, ok := idx.get(resp.GetTicketId())
					if !ok || u.Cmd != "ticket" || u.Ticket == nil || len(u.Ticket.GetAttributes().GetTags()) != 1 || u.Ticket.Attributes.Tags[0] != m {
						r.Violate("CreateTicket succeeds but its id does not belong to its ticket in storage (after a pause or with a slow storage)", map[string]any{"marker": m, "id": resp.GetTicketId(), "slow_storage": slow, "phase": phase})
					}
					return nil
				}))
			}
			if has('a') {
				id, on := ids[n%len(ids)], n%3 > 0
				call("ActivateTickets", timed("ActivateTickets", func() error {
					ctx, cancel := lib.Ctx()
					defer cancel()
					before := s.Len()
					var err error
					want := "activate"
					if on {
						_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id, id}})
					} else {
						want = "deactivate"
						_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{id, id}})
					}
					if err != nil {
						for _, x := range violatedIDs(err) {
							if x != id {
								r.Violate("an error names another ticket than the failed one", map[string]any{"id": id, "named": x})
							}
						}
						return err
					}
					k := 0
					for _, u := range lib.DecodeAll(before, s.Entries(before)) {
						if u.Cmd == want && u.Key == id {
							k++
						}
					}
					if k < 2 {
						r.Violate("an acknowledged request is not stored (after a pause or with a slow storage)", map[string]any{"id": id, "updates_stored": k, "slow_storage": slow, "phase": phase})
					}
					return nil
				}))
			}
			if has('s') {
				id := ids[n%len(ids)]
				conn := fmt.Sprintf("side-%d-%d", v, n)
				call("CreateAssignments", timed("CreateAssignments", func() error {
					ctx, cancel := lib.Ctx()
					defer cancel()
					_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: conn}, Tickets: []*pb.Ticket{{Id: id}}}})
					if err != nil {
						return err
					}
					k := 0
					for _, u := range lib.DecodeAll(0, s.Entries(0)) {
						a := &pb.Assignment{}
						if u.Cmd == "assign" && u.Key == id && proto.Unmarshal(u.Val, a) == nil && a.GetConnection() == conn {
							k++
						}
					}
					if k != 1 {
						r.Violate("an acknowledged assignment is not stored exactly once (after a pause or with a slow storage)", map[string]any{"id": id, "stored": k, "slow_storage": slow, "phase": phase})
					}
					return nil
				}))
			}
		}
		wg.Wait()
		s.SetHook(nil)
		// from now on everything works again
		t0 := time.Now()
		o.Create(lib.TagTicket("again"))
		o.Barrier()
		r.Max("ms_until_everything_works_after_a_pause_or_slow_reply", time.Since(t0).Milliseconds())
	}
	o.Barrier()
	_, active, _ := lib.Fold(lib.DecodeAll(0, s.Entries(0)))
	vis := o.QueryTag(tag)
	for _, id := range ids {
		if active[id] != (vis[id] != nil) {
			r.Violate("the pools are not what the stored updates say (after pauses or with a slow storage)", map[string]any{"id": id, "active_by_the_log": active[id], "visible": vis[id] != nil, "slow_storage": slow})
		}
	}
	r.Count("side_runs", 1)
	o.Stop()
}
