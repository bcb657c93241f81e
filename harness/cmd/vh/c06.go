package main

import (
	"fmt"
	"sync"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C06"] = c06 }

func c06(r *lib.Run) {
	r.Rule = "one evaluation = one (pool, ticket) membership decision by the real filter code or by a running om-core, compared with the reference model of the filters, or one validity decision. Non-trivial: the ticket is a member, a double range is involved, or the pool is invalid"
	r.Comp("comp-filter", "filter")
	c06system(r)
}

// c06system: pools as matchmaking functions receive them.
func c06system(r *lib.Run) {
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": "1000000000"}))
	rng := r.Rng("system")
	n := r.N(700, 3000)
	ts := make([]*pb.Ticket, n)
	for i := range ts {
		ts[i] = &pb.Ticket{Attributes: lib.GenAttrs(rng)}
		if a := ts[i].Attributes; a != nil && rng.Intn(3) == 0 { // resembles what pools ask for
			for k, v := range a.Tags {
				a.Tags[k] = lib.Near(rng, v)
			}
			for k, v := range a.StringArgs {
				a.StringArgs[k] = lib.Near(rng, v)
			}
		}
		if i%20 == 19 { // a lot of everything
			ts[i].Attributes = lib.Crowd(rng, ts[i].Attributes, []int{70, 300, 1500}[i/20%3])
		}
		if ts[i].Attributes != nil && rng.Intn(3) > 0 {
			ts[i].Attributes.CreationTime = lib.GenTime(rng)
		}
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.Barrier()
	all := o.Query(map[string]*pb.Pool{"all": {}}).Pools["all"]
	byID := map[string]*pb.Ticket{}
	for i, id := range ids {
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
		if a := ts[i].Attributes; a != nil {
			t.Attributes = &pb.Ticket_FilterableData{Tags: a.Tags, StringArgs: a.StringArgs, DoubleArgs: a.DoubleArgs, CreationTime: a.CreationTime}
		}
		if all[id] == nil {
			r.Violate("a pool without filters does not hold every active ticket", map[string]any{"ticket": ts[i].String(), "id": id})
		}
		if t.Attributes.CreationTime == nil {
			t.Attributes.CreationTime = all[id].GetAttributes().GetCreationTime()
		}
		byID[id] = t
	}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("sysw", w))
		go func() {
			defer wg.Done()
			for k := 0; k < r.N(60, 600); k++ {
				pools := map[string]*pb.Pool{}
				for i := 1 + wr.Intn(12); i > 0; i-- {
					pools[fmt.Sprint("p", i)] = lib.GenPool(wr, lib.PoolOpt{CreationTime: true, InvalidTime: true})
				}
				obs := o.Query(pools)
				if len(obs.Dups) > 0 {
					r.Violate("ticket delivered twice in a pool", obs.Dups)
				}
				for name, p := range pools {
					got := obs.Pools[name]
					if !lib.ValidPool(p) {
						if len(got) > 0 {
							r.Violate("an invalid pool is filled", map[string]any{"pool": p.String()})
						}
						continue
					}
					for id, t := range byID {
						want, is := lib.InPool(p, t), got[id] != nil
						r.Eval(want, "sys", lib.Det(p), id)
						if want != is && !(p.GetCreationTimeRangeFilter() != nil && is == lib.InPoolInverted(p, t) && r.Known("C06-creation-time-inverted")) {
							r.Violate("pool received by a function differs from the conjunction of its filters", map[string]any{"pool": p.String(), "ticket": t.String(), "member_by_specification": want, "in_pool": is})
						}
					}
					for id := range got {
						if byID[id] == nil && p.String() != "" {
							// the marker ticket of the barrier has been deactivated; nothing else exists
							if len(p.GetTagPresentFilters())+len(p.GetStringEqualsFilters())+len(p.GetDoubleRangeFilters()) > 0 {
								r.Violate("unknown ticket in a pool", map[string]any{"id": id})
							}
						}
					}
					r.Count("pools_compared", 1)
				}
			}
		}()
	}
	wg.Wait()
	o.Stop()
}
