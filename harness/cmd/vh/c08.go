package main

import (
	"fmt"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C08"] = c08 }

func c08(r *lib.Run) {
	r.Rule = "one evaluation = one chunk received by a function, compared with the caller's profile (name, extensions, and per pool name, filters and extensions), or the set of pools of one request. Non-trivial: the profile has pools"
	o := r.StartOM("om", lib.FastEnv())
	rng := r.Rng("tickets")
	var ts []*pb.Ticket
	for i := 0; i < 160; i++ {
		t := &pb.Ticket{Attributes: lib.GenAttrs(rng)}
		if i < 90 { // enough for several chunks in pools that everybody matches
			t.Extensions = map[string]*anypb.Any{"pad": bigAny(60_000 + rng.Intn(60_000))}
			t.Attributes = &pb.Ticket_FilterableData{Tags: []string{"fat"}}
		}
		ts = append(ts, t)
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.Barrier()
	known := map[string]bool{}
	for _, id := range ids {
		known[id] = true
	}
	var ms []*lib.MMF
	for i := 0; i < 2; i++ {
		ms = append(ms, r.NewMMF())
	}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("w", w))
		go func() {
			defer wg.Done()
			for k := 0; k < r.N(120, 1200); k++ {
				p := &pb.Profile{Name: fmt.Sprintf("%s#%d-%d", lib.Pick(wr, []string{"", "profile", "ünï \"quoted\" \n", "a/b?c=d", lib.Pad(2000)}), w, k), Extensions: lib.GenExt(wr, 4)}
				np := lib.Pick(wr, []int{0, 1, 2, 5, 20, 90})
				if np > 0 {
					p.Pools = map[string]*pb.Pool{}
				}
				for i := 0; i < np; i++ {
					pl := lib.GenPool(wr, lib.PoolOpt{CreationTime: true, InvalidTime: wr.Intn(3) == 0})
					kind := wr.Intn(8)
					if np > 20 && (kind == 4 || kind == 5) {
						kind = 0
					}
					switch kind {
					case 4: // a great many filters
						for n := 10 + wr.Intn(290); n > 0; n-- {
							q := lib.GenPool(wr, lib.PoolOpt{})
							pl.TagPresentFilters = append(pl.TagPresentFilters, q.TagPresentFilters...)
							pl.StringEqualsFilters = append(pl.StringEqualsFilters, q.StringEqualsFilters...)
							pl.DoubleRangeFilters = append(pl.DoubleRangeFilters, q.DoubleRangeFilters...)
						}
					case 5:
						pl.Name = lib.Pad(wr.Intn(100_000))
						pl.TagPresentFilters = append(pl.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: lib.Pad(wr.Intn(100_000))})
						pl.StringEqualsFilters = append(pl.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: lib.Pad(wr.Intn(100_000)), Value: lib.Pad(wr.Intn(100_000))})
					case 0:
						pl.Name = ""
					case 1:
						pl = lib.TagPool("fat")
						pl.Extensions = lib.GenExt(wr, 3)
					case 2:
						pl.TagPresentFilters = append(pl.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: "nobody has this"})
					case 3:
						// whatever participants the caller puts in are not tickets of the pool
						pl.Participants = &pb.Roster{Name: "mine", Tickets: []*pb.Ticket{{Id: "bogus-1"}}}
					}
					p.Pools[lib.Pick(wr, []string{"", "x", "pool", "ключ"})+fmt.Sprint(i)] = pl
				}
				if wr.Intn(20) == 0 && np > 0 && np <= 20 {
					for _, pl := range p.Pools {
						pl.Extensions = map[string]*anypb.Any{"big": bigAny(100_000)}
					}
				}
				sent := proto.Clone(p).(*pb.Profile)
				calls := runCapture(r, o, ms[:1+wr.Intn(2)], p, fmt.Sprint(w, "/", k))
				for _, c := range calls {
					c08judge(r, sent, c, known)
				}
			}
		}()
	}
	wg.Wait()
	o.Stop()
}

func c08judge(r *lib.Run, p *pb.Profile, c *lib.Call, known map[string]bool) {
	if c.Err != nil {
		r.Violate("a function does not receive the announced number of chunks", map[string]any{"error": c.Err.Error()})
	}
	seen := map[string]bool{}
	bare := func(pl *pb.Pool) string {
		all := pl.Participants
		pl.Participants = nil // what is compared does not hold the tickets
		q := proto.Clone(pl).(*pb.Pool)
		pl.Participants = all
		return lib.Det(q)
	}
	for i, ch := range c.Chunks {
		q := ch.GetProfile()
		if q.GetName() != p.GetName() {
			r.Violate("the profile name is changed", map[string]any{"sent": fmt.Sprintf("%.60q", p.GetName()), "received": fmt.Sprintf("%.60q", q.GetName()), "chunk": i})
		}
		if lib.Det(&pb.Profile{Extensions: q.GetExtensions()}) != lib.Det(&pb.Profile{Extensions: p.GetExtensions()}) {
			r.Violate("the profile extensions are changed", map[string]any{"sent": fmt.Sprint(p.GetExtensions()), "received": fmt.Sprint(q.GetExtensions()), "chunk": i, "of": len(c.Chunks)})
		}
		for name, got := range q.GetPools() {
			seen[name] = true
			want := p.GetPools()[name]
			if want == nil {
				r.Violate("a pool that the profile does not have", map[string]any{"pool": name})
			}
			if !lib.ValidPool(want) {
				r.Violate("a pool with an invalid filter is delivered", map[string]any{"pool": want.String()})
			}
			if bare(want) != bare(got) {
				g := proto.Clone(got).(*pb.Pool)
				g.Participants = nil
				r.Violate("a pool is changed on its way to the function", map[string]any{"sent": want.String(), "received": g.String(), "chunk": i, "of": len(c.Chunks)})
			}
			for _, t := range got.GetParticipants().GetTickets() {
				if !known[t.GetId()] && t.GetId() == "bogus-1" {
					r.Violate("a pool holds participants that the caller put into the profile", map[string]any{"pool": name})
				}
			}
			if len(got.GetParticipants().GetTickets()) == 0 {
				r.Count("empty_pools_delivered", 1)
			}
			r.Count("pools_compared", 1)
		}
		r.Eval(len(p.GetPools()) > 0, p.GetName(), i)
	}
	for name, want := range p.GetPools() {
		if lib.ValidPool(want) && !seen[name] {
			r.Violate("a valid pool is not delivered", map[string]any{"pool": name, "filters": want.String(), "pools_in_profile": len(p.GetPools()), "delivered": len(seen)})
		}
		if !lib.ValidPool(want) {
			r.Count("invalid_pools", 1)
		}
	}
	if len(c.Chunks) > 1 {
		r.Count("multi_chunk_requests", 1)
	}
	if r.WantSample() && len(p.GetPools()) > 1 {
		r.Sample(map[string]any{"profile": fmt.Sprintf("%.40q", p.GetName()), "pools": len(p.GetPools()), "delivered": len(seen), "chunks": len(c.Chunks)})
	}
}
