package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C10"] = c10 }

func c10(r *lib.Run) {
	r.Rule = "one evaluation = one match received (deactivation waiting on: pools are queried at once, from within the receive loop) or one invocation ended (pools are queried at once after the end of the stream) or one abandoned invocation (storage log and pools after it settled). Non-trivial: the match holds tickets that were active when it was sent"
	defer c10longlag(r)()
	for round := 0; round < r.N(6, 24); round++ {
		c10round(r, round)
	}
	for round := 0; round < r.N(2, 8); round++ {
		c10cancel(r, round)
	}
	for round := 0; round < r.N(2, 6); round++ {
		c10lag(r, round)
	}
	for round := 0; round < r.N(4, 12); round++ {
		c10order(r, round)
	}
	for round := 0; round < r.N(2, 8); round++ {
		c10fresh(r, round)
	}
	for round := 0; round < r.N(2, 6); round++ {
		c10unknown(r, round)
	}
}

// c10unknown: the instance does not know the tickets yet when a function matches them: they were created and activated
// (through another instance) while it does not get to read the storage.
func c10unknown(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	wait := round%2 == 0
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait)}))
	m := r.NewMMF()
	var mu sync.Mutex
	var until time.Time
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		mu.Lock()
		defer mu.Unlock()
		if d := time.Until(until); c.Name == "XREAD" && d > 0 {
			return fredis.Action{Delay: d}
		}
		return fredis.Action{}
	})
	o.Barrier()
	var all, others []string
	for k := 0; k < 4; k++ {
		name := fmt.Sprint("unknown", round, "-", k)
		var mine []string
		m.On(name, func(c *lib.Call) error {
			mu.Lock()
			until = time.Now().Add(1200 * time.Millisecond)
			mu.Unlock()
			time.Sleep(300 * time.Millisecond) // a read already waiting at the storage is over by then
			es := make([][]string, 14)
			for i := range es {
				es[i] = stored("unknown")
			}
			got := s.AddMany(es)
			act := make([][]string, len(got))
			for i, id := range got {
				act[i] = []string{"activate", id}
			}
			s.AddMany(act)
			mine, others = got[:10], append(others, got[10:]...)
			all = append(all, mine...)
			x := &pb.Match{Id: name, Rosters: map[string]*pb.Roster{"r": {}}}
			for _, id := range mine {
				x.Rosters["r"].Tickets = append(x.Rosters["r"].Tickets, &pb.Ticket{Id: id})
			}
			return c.Send(x)
		})
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		got, err := o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
		cancel()
		if err != nil || len(got) != 1 {
			r.Violate("invocation fails", map[string]any{"error": fmt.Sprint(err), "matches": len(got)})
		}
		vis := o.QueryTag("unknown")
		for _, id := range mine {
			if vis[id] != nil {
				r.Violate("a ticket that was matched before the instance knew it is in a pool after the invocation ended", map[string]any{"ticket": id, "match": name, "wait": wait})
			}
		}
		r.Eval(true, "unknown", name)
		r.Count("tickets_matched_before_known", len(mine))
	}
	o.Barrier()
	vis := o.QueryTag("unknown")
	for _, id := range all {
		if vis[id] != nil {
			r.Violate("a ticket that was matched before the instance knew it is in a pool", map[string]any{"ticket": id, "wait": wait})
		}
	}
	for _, id := range others {
		if vis[id] == nil {
			r.Violate("tickets that are in no match left the pool", map[string]any{"ticket": id})
		}
	}
	m.Stop()
	o.Stop()
}

// c10lag: a match of very many tickets while the instance does not get to read the storage for a long time.
func c10lag(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	wait := round%2 == 0
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait), "OM_MAX_STATE_UPDATES_PER_CALL": fmt.Sprint([]int{500, 400}[round%2])}))
	m := r.NewMMF()
	var ts []*pb.Ticket
	for i := 0; i < 1300; i++ {
		ts = append(ts, lib.TagTicket("lag"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.Barrier()
	var mu sync.Mutex
	var until time.Time
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		mu.Lock()
		defer mu.Unlock()
		if d := time.Until(until); c.Name == "XREAD" && d > 0 {
			if round%4 >= 2 {
				return fredis.Action{Err: lib.StorageError()}
			}
			return fredis.Action{Delay: d}
		}
		return fredis.Action{}
	})
	name := fmt.Sprint("lag", round)
	lag := time.Duration(r.N(8, []int{8, 25, 45, 12, 35, 50}[round%6])) * time.Second
	rng := r.Rng(name)
	m.On(name, func(c *lib.Call) error {
		mu.Lock()
		until = time.Now().Add(lag)
		mu.Unlock()
		time.Sleep(500 * time.Millisecond) // a read already waiting at the storage is over by then
		c.Send(c10match(rng, name+"/big", ids[:1200], nil))
		c.Send(c10match(rng, name+"/small", ids[1200:1230], nil))
		return nil
	})
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	t0 := time.Now()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
	var all []string
	check := func(when string, l []string) {
		vis := o.QueryTag("lag")
		n := 0
		ex := ""
		for _, id := range l {
			if vis[id] != nil {
				n++
				ex = id
			}
		}
		if n > 0 {
			r.Violate("a matched ticket is in a pool "+when, map[string]any{"ticket": ex, "such_tickets": n, "tickets_in_match": len(l), "wait": wait, "storage_lag_s": lag.Seconds(), "after_s": time.Since(t0).Seconds()})
		}
	}
	n := 0
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err == nil {
			n++
			l := ticketIDs(x.GetMatch())
			all = append(all, l...)
			if wait {
				check("when its match is received (deactivation waiting on)", l)
			}
			r.Eval(true, "lag", name, n)
		}
	}
	if err != io.EOF || n != 2 {
		r.Violate("invocation fails", map[string]any{"error": fmt.Sprint(err), "matches": n, "storage_lag_s": lag.Seconds()})
	}
	check("after the invocation ended", all)
	if v := len(o.QueryTag("lag")); v != 70 {
		r.Violate("tickets that are in no match left the pool", map[string]any{"visible": v, "expected": 70})
	}
	r.Max("storage_lag_ms", lag.Milliseconds())
	m.Stop()
	o.Stop()
}

// c10longlag: the instance learns of the deactivations only after most of a minute.
func c10longlag(r *lib.Run) func() {
	var wg sync.WaitGroup
	for v := 0; v < 2; v++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wait := v == 0
			const lag = 50 * time.Second
			x := newSplit(r)
			o := r.StartOM("ommulti", lib.Merge(lib.FastEnv(), map[string]string{"VERIF_SECONDARY": "1", "OM_STATE_STORAGE_TYPE": "redis",
				"OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_WRITE_PORT": fmt.Sprint(x.w.Port()), "OM_REDIS_READ_HOST": "127.0.0.1", "OM_REDIS_READ_PORT": fmt.Sprint(x.rd.Port()),
				"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait)}))
			var ts []*pb.Ticket
			for i := 0; i < 40; i++ {
				ts = append(ts, lib.TagTicket("longlag"))
			}
			ids := o.CreateN(ts)
			o.Activate(ids...)
			for _, id := range ids {
				o.AwaitVisible("longlag", id)
			}
			m := r.NewMMF()
			var t0 time.Time
			m.On("longlag", func(c *lib.Call) error {
				x.setHold(true)
				t0 = time.Now()
				time.AfterFunc(lag, func() { x.setHold(false) })
				c.Send(&pb.Match{Id: "a", Rosters: map[string]*pb.Roster{"r": {Tickets: ticketsOf(ids[:20])}}})
				return c.Send(&pb.Match{Id: "b", Rosters: map[string]*pb.Roster{"r": {Tickets: ticketsOf(ids[20:30])}}})
			})
			check := func(when string, l []string) {
				vis := o.QueryTag("longlag")
				for _, id := range l {
					if vis[id] != nil {
						r.Violate("a matched ticket is in a pool "+when, map[string]any{"ticket": id, "wait": wait, "replication_lag_s": lag.Seconds(), "after_s": time.Since(t0).Seconds()})
					}
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
			defer cancel()
			st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "longlag"}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
			n := 0
			for err == nil {
				var res *pb.StreamedMmfResponse
				if res, err = st.Recv(); err == nil {
					n++
					if wait {
						check("when its match is received (deactivation waiting on)", ticketIDs(res.GetMatch()))
					}
				}
			}
			if err != io.EOF || n != 2 {
				r.Violate("invocation fails", map[string]any{"error": fmt.Sprint(err), "matches": n, "replication_lag_s": lag.Seconds()})
			}
			check("after the invocation ended", ids[:30])
			r.Eval(true, "longlag", v)
			r.Max("storage_lag_ms", lag.Milliseconds())
			m.Stop()
			o.Stop()
			x.w.Close()
			x.rd.Close()
		}()
	}
	return wg.Wait
}

// c10order: all storage ids fall into one millisecond, so that only their sequence part (of growing length) tells how
// far the instance has come, and the instance applies them a few at a time.
func c10order(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	wait := round%2 == 0
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait),
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL":  fmt.Sprint([]int{2, 1, 3, 7}[round%4]), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "5"}))
	m := r.NewMMF()
	rng := r.Rng(fmt.Sprint("order", round))
	es := make([][]string, 150)
	for i := range es {
		es[i] = stored("order")
	}
	ids := s.AddMany(es)
	act := make([][]string, len(ids))
	for i, id := range ids {
		act[i] = []string{"activate", id}
	}
	s.AddMany(act)
	o.BarrierInjected(s.AddMany)
	time.Sleep(20 * time.Millisecond)
	// the storage answers reads only every so often
	var mu sync.Mutex
	nread := 0
	pace := time.Duration([]int{40, 20, 60, 120}[round%4]) * time.Millisecond
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		if c.Name == "XREAD" {
			mu.Lock()
			nread++
			mu.Unlock()
			return fredis.Action{Delay: pace}
		}
		return fredis.Action{}
	})
	frozen := time.Now().UnixMilli() + 5
	s.SetClock(func() int64 { return frozen })
	free := ids
	for k := 0; k < r.N(4, 6) && len(free) > 0; k++ {
		name := fmt.Sprint("order", round, "-", k)
		var plan []*pb.Match
		for i := 0; i < 3; i++ {
			n := 1 + rng.Intn(12)
			if n > len(free) {
				n = len(free)
			}
			x := &pb.Match{Id: fmt.Sprint(name, "/", i), Rosters: map[string]*pb.Roster{"r": {}}}
			for _, id := range free[:n] {
				x.Rosters["r"].Tickets = append(x.Rosters["r"].Tickets, &pb.Ticket{Id: id})
			}
			free = free[n:]
			plan = append(plan, x)
		}
		c10invoke(r, o, []*lib.MMF{m}, name, "order", [][]*pb.Match{plan}, wait, rng)
	}
	s.SetClock(func() int64 { return time.Now().UnixMilli() })
	r.Count("deactivations_within_one_millisecond", len(ids)-len(free))
	m.Stop()
	o.Stop()
}

// c10fresh: the function activates tickets itself and matches them at once, before any instance can have applied the
// activation.
func c10fresh(r *lib.Run, round int) {
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "400", "OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(round%2 == 0)})
	if round%4 < 2 {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		var slow sync.Mutex
		last := time.Now()
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			if c.Name != "XREAD" {
				return fredis.Action{}
			}
			slow.Lock()
			defer slow.Unlock()
			d := time.Until(last.Add(250 * time.Millisecond))
			last = time.Now().Add(max(d, 0))
			return fredis.Action{Delay: max(d, 0)}
		})
	}
	o := r.StartOM("om", env)
	m := r.NewMMF()
	var ts []*pb.Ticket
	for i := 0; i < 60; i++ {
		ts = append(ts, lib.TagTicket("fresh"))
	}
	ids := o.CreateN(ts)
	o.Barrier()
	for k := 0; k < 4; k++ {
		name := fmt.Sprint("fresh", round, "-", k)
		part := ids[k*15 : (k+1)*15]
		m.On(name, func(c *lib.Call) error {
			o.Activate(part...)
			return c.Send(&pb.Match{Id: name, Rosters: map[string]*pb.Roster{"r": {Tickets: func() (l []*pb.Ticket) {
				for _, id := range part {
					l = append(l, &pb.Ticket{Id: id})
				}
				return
			}()}}})
		})
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		got, err := o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
		cancel()
		if err != nil || len(got) != 1 {
			r.Violate("invocation fails", map[string]any{"error": fmt.Sprint(err), "matches": len(got)})
		}
		vis := o.QueryTag("fresh")
		for _, id := range part {
			if vis[id] != nil {
				r.Violate("a ticket activated just before it was matched is in a pool after the invocation ended", map[string]any{"ticket": id, "match": name})
			}
		}
		r.Eval(true, "fresh", name)
	}
	o.Barrier()
	for id := range o.QueryTag("fresh") {
		r.Violate("a matched ticket is back in the pool", map[string]any{"ticket": id})
	}
	m.Stop()
	o.Stop()
}

// c10match puts the tickets into 1-3 rosters, together with tickets that are inactive, unknown or have bad ids.
func c10match(rng *rand.Rand, id string, tickets, old []string) *pb.Match {
	m := &pb.Match{Id: id, Rosters: map[string]*pb.Roster{}}
	var all []string
	all = append(all, tickets...)
	if rng.Intn(3) == 0 && len(old) > 0 {
		all = append(all, lib.Pick(rng, old)) // already inactive, at the end
	}
	if rng.Intn(8) == 0 {
		all = append(all, lib.Pick(rng, []string{"", "no id", "123", "99-99", "1795125183203-0"}))
	}
	if rng.Intn(8) == 0 {
		all = append([]string{lib.Pick(rng, []string{"", "x", "5-5"})}, all...)
	}
	if rng.Intn(3) == 0 {
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	}
	n := 1 + rng.Intn(3)
	for i := 0; i < n; i++ {
		m.Rosters[fmt.Sprint("r", i)] = &pb.Roster{Name: fmt.Sprint("r", i)}
	}
	for i, id := range all {
		ro := m.Rosters[fmt.Sprint("r", i*n/len(all))]
		t := &pb.Ticket{Id: id}
		switch rng.Intn(6) {
		case 0: // as a function would do it: the ticket as received
			t.Attributes = lib.GenAttrs(rng)
			t.ExpirationTime = timestamppb.New(time.Now().Add(time.Duration(rng.Intn(600)-60) * time.Second))
		case 1:
			t.Extensions = lib.GenExt(rng, 2)
		}
		ro.Tickets = append(ro.Tickets, t)
	}
	for key, ro := range m.Rosters {
		switch rng.Intn(6) {
		case 0:
			ro.Assignment = &pb.Assignment{Connection: "1.2.3.4:5"}
		case 1:
			ro.Assignment = &pb.Assignment{}
		case 2:
			ro.Extensions = lib.GenExt(rng, 2)
		case 3:
			ro.Name = lib.Pick(rng, []string{"", "r0", "r1", "someone else"})
		case 4:
			delete(m.Rosters, key)
			m.Rosters[""] = ro
		}
		if m.Rosters[""] != nil {
			break
		}
	}
	if rng.Intn(4) == 0 {
		m.Id = ""
	}
	return m
}

func ticketIDs(m *pb.Match) (out []string) {
	for _, ro := range m.GetRosters() {
		for _, t := range ro.GetTickets() {
			out = append(out, t.GetId())
		}
	}
	return
}

func c10round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("round", round))
	wait := round%2 == 0
	env := lib.Merge(lib.FastEnv(), map[string]string{
		"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":       fmt.Sprint([]int{250, 700, 20}[round/2%3]),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":      fmt.Sprint(lib.Pick(rng, []int{2, 60})),
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD":  fmt.Sprint(lib.Pick(rng, []int{3, 50})),
	})
	if round%3 != 0 {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF(), r.NewMMF()}
	tag := "c10"
	var ts []*pb.Ticket
	nt := 700
	for i := 0; i < nt; i++ {
		ts = append(ts, lib.TagTicket(tag))
	}
	ids := o.CreateN(ts)
	quiet := o.Noise(r.Rng(fmt.Sprint("noise", round)), 40*time.Millisecond, ids)
	for pass := 0; pass < 2; pass++ { // in the second pass every ticket has been inactive, active, inactive and active again
		o.Activate(ids...)
		o.Barrier()
		if n := len(o.QueryTag(tag)); n != nt {
			r.Violate("(re-)activated tickets are missing", map[string]any{"active": nt, "visible": n})
		}
		free := append([]string{}, ids...)
		rng.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
		var used []string
		var umu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			wr := r.Rng(fmt.Sprint("w", round, pass, w))
			mine := free[w*nt/3 : (w+1)*nt/3]
			go func() {
				defer wg.Done()
				for k := 0; len(mine) > 0 && k < r.N(4, 8); k++ {
					name := fmt.Sprintf("c10-%d-%d-%d-%d", round, pass, w, k)
					var plans [][]*pb.Match
					for f := 0; f < 1+wr.Intn(3); f++ {
						var l []*pb.Match
						for i := wr.Intn(5); i >= 0 && len(mine) > 0; i-- {
							n := lib.Pick(wr, []int{1, 2, 2, 5, 20})
							if n > len(mine) {
								n = len(mine)
							}
							umu.Lock()
							l = append(l, c10match(wr, fmt.Sprint(name, f, i), mine[:n], used))
							used = append(used, mine[:n]...)
							umu.Unlock()
							if wr.Intn(3) > 0 { // sometimes the same tickets are in several matches
								mine = mine[n:]
							}
						}
						plans = append(plans, l)
					}
					c10invoke(r, o, ms, name, tag, plans, wait, wr)
				}
			}()
		}
		wg.Wait()
		if pass == 0 {
			r.Count("tickets_matched", len(used))
		}
		o.Barrier()
		vis := o.QueryTag(tag)
		for _, id := range used {
			if vis[id] != nil {
				r.Violate("a matched ticket is back in the pool", map[string]any{"ticket": id, "wait": wait})
			}
		}
	}
	quiet()
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

func c10invoke(r *lib.Run, o *lib.OM, ms []*lib.MMF, name, tag string, plans [][]*pb.Match, wait bool, rng *rand.Rand) {
	var specs []*pb.MatchmakingFunctionSpec
	for f, l := range plans {
		m := ms[f%len(ms)]
		d := time.Duration(rng.Intn(30)) * time.Millisecond
		m.On(name, func(c *lib.Call) error {
			for _, x := range l {
				c.Send(x)
				time.Sleep(d)
			}
			return nil
		})
		specs = append(specs, m.Spec("f"))
		defer m.Off(name)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	// Nothing has to be waited for any more once no ticket of any match is in the pools.
	over := make(chan struct{})
	defer close(over)
	go func() {
		left := map[string]bool{}
		for {
			select {
			case <-over:
				return
			case <-time.After(4 * time.Second):
			}
			clear(left)
			vis := o.QueryTag(tag)
			for _, l := range plans {
				for _, x := range l {
					for _, id := range ticketIDs(x) {
						if vis[id] != nil {
							left[id] = true
						}
					}
				}
			}
			if len(left) > 0 {
				continue
			}
			select {
			case <-over:
				return
			case <-time.After(40 * time.Second):
				r.Violate("an invocation goes on long after all matched tickets have left the pools and the functions have ended", map[string]any{"wait": wait, "functions": len(plans)})
			}
		}
	}()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: specs})
	var got []*pb.Match
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err != nil {
			break
		}
		got = append(got, x.GetMatch())
		if wait {
			vis := o.QueryTag(tag)
			l := ticketIDs(x.GetMatch())
			for _, id := range l {
				if vis[id] != nil {
					r.Violate("a ticket of a received match is still in the pool (deactivation waiting on)", map[string]any{"ticket": id, "match": x.GetMatch().GetId(), "tickets_in_match": l})
				}
			}
			r.Eval(len(l) > 0, "recv", x.GetMatch().GetId())
			r.Count("queries_at_receipt", 1)
		}
	}
	if err != io.EOF {
		time.Sleep(100 * time.Millisecond)
		o.CheckLog()
		r.Violate("invocation fails", map[string]any{"error": err.Error()})
	}
	vis := o.QueryTag(tag)
	n := 0
	for _, m := range got {
		for _, id := range ticketIDs(m) {
			n++
			if vis[id] != nil {
				r.Violate("a matched ticket is in a pool after the invocation ended", map[string]any{"ticket": id, "match": m.GetId(), "wait": wait, "tickets_in_match": ticketIDs(m)})
			}
		}
	}
	r.Eval(n > 0, "end", name)
	if r.WantSample() {
		r.Sample(map[string]any{"invocation": name, "functions": len(plans), "matches": len(got), "tickets": n, "wait": wait, "pool_size_after": len(vis)})
	}
}

// c10cancel: the caller goes away before the functions finish.
func c10cancel(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	rng := r.Rng(fmt.Sprint("cancel", round))
	wait := round%2 == 1
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait)}))
	m := r.NewMMF()
	nt := 200
	var ts []*pb.Ticket
	for i := 0; i < nt; i++ {
		ts = append(ts, lib.TagTicket("can"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.Barrier()
	var wg sync.WaitGroup
	var mu sync.Mutex
	matched := map[string]bool{}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		mine := ids[w*nt/8 : (w+1)*nt/8]
		go func() {
			defer wg.Done()
			for k := 0; k < 4; k++ {
				name := fmt.Sprintf("can-%d-%d-%d", round, w, k)
				mode := wr.Intn(4)
				called := make(chan struct{})
				gone := make(chan struct{})
				finished := make(chan struct{})
				part := mine[k*len(mine)/4 : (k+1)*len(mine)/4]
				m.On(name, func(c *lib.Call) error {
					defer close(finished)
					close(called)
					for i, id := range part {
						if (mode == 0 && i == 0) || (mode == 1 && i == len(part)/2) {
							<-gone // the rest is sent after the caller disconnected
							time.Sleep(30 * time.Millisecond)
						}
						mt := &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: id}}}}}
						if err := c.Send(mt); err != nil {
							r.Violate("a function is cancelled because the caller went away", map[string]any{"error": err.Error(), "mode": mode})
						}
						mu.Lock()
						matched[id] = true
						mu.Unlock()
					}
					if mode == 3 { // an error at the end changes nothing for the matches sent before
						return status.Error(codes.Internal, "done badly")
					}
					return nil
				})
				ctx, cancel := context.WithCancel(context.Background())
				st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
				if err != nil {
					r.Violate("invocation fails", map[string]any{"error": err.Error()})
				}
				select {
				case <-called:
				case <-time.After(60 * time.Second):
					r.Violate("function is not called", map[string]any{"invocation": name})
				}
				if mode == 2 {
					st.Recv()
				}
				cancel()
				for err == nil {
					_, err = st.Recv()
				}
				close(gone)
				<-finished
				m.Off(name)
				r.Eval(len(part) > 0, "cancel", name, mode)
				r.Count("abandoned_invocations", 1)
			}
		}()
	}
	wg.Wait()
	deact := func() map[string]bool {
		out := map[string]bool{}
		for _, u := range lib.DecodeAll(0, s.Entries(0)) {
			if u.Cmd == "deactivate" {
				out[u.Key] = true
			}
		}
		return out
	}
	missing := ""
	if !lib.Await(40*time.Second, func() bool {
		d := deact()
		missing = ""
		for id := range matched {
			if !d[id] {
				missing = id
			}
		}
		return missing == ""
	}) {
		r.Violate("tickets of matches sent after the caller went away are not deactivated", map[string]any{"ticket": missing, "matched": len(matched), "wait": wait})
	}
	o.Barrier()
	for id := range o.QueryTag("can") {
		if matched[id] {
			r.Violate("a matched ticket of an abandoned invocation is in a pool", map[string]any{"ticket": id})
		}
	}
	r.Count("matches_after_disconnect_judged", len(matched))
	m.Stop()
	o.Stop()
}
