package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C07"] = c07 }

const grpcLimit = 4 << 20

func c07(r *lib.Run) {
	r.Rule = "one evaluation = one (invocation, function) pair: the chunks received are compared with the reference pools (every valid pool, exactly its active tickets, no duplicates), the announced count, the size limit and the chunks the other functions received. Non-trivial: more than one chunk, more than one pool or more than one function"
	r.Assumptions = []string{"profiles and tickets leave room: empty profile plus largest ticket stays below 4,000,000 bytes"}
	type sc struct {
		name string
		f    func(r *lib.Run, rng *rand.Rand) ([]*pb.Ticket, []*pb.Profile, int)
	}
	for round := 0; round < r.N(1, 5); round++ {
		for _, s := range []sc{{"mixed", c07mixed}, {"tiny", c07tiny}, {"bigprofile", c07bigprofile}, {"huge", c07huge}, {"manypools", c07manypools}, {"exact", c07exact}, {"manychunks", c07manychunks}, {"empty", c07empty}, {"hundreds", c07hundreds}} {
			rng := r.Rng(fmt.Sprint(s.name, round))
			ts, profiles, nmmf := s.f(r, rng)
			c07run(r, s.name, ts, profiles, nmmf, rng)
		}
	}
	c07live(r)
	c07slow(r)
}

// c07slow: functions that take their time before they read the request, and between its chunks, while tickets come and
// go, receive the same request as the others.
func c07slow(r *lib.Run) {
	o := r.StartOM("om", lib.FastEnv())
	rng := r.Rng("slow")
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF(), r.NewMMF()}
	pauses := []time.Duration{time.Duration(r.N(4, 20)) * time.Second, 0, 300 * time.Millisecond}
	for i, m := range ms {
		m.SetPre(func(st pb.MatchMakingFunctionService_RunServer) (bool, error) {
			time.Sleep(pauses[i])
			return false, nil
		})
		m.ChunkPause = pauses[i] / 4
	}
	var base []*pb.Ticket
	for i := 0; i < 300; i++ {
		base = append(base, secTicket(rng, 20_000+rng.Intn(60_000), "slow", "base"))
	}
	ids := o.CreateN(base)
	o.Activate(ids...)
	o.Barrier()
	want := map[string]bool{}
	for _, id := range ids[:200] {
		want[id] = true
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // a third of the tickets leaves and others join while the slow functions sleep
		defer wg.Done()
		for k := 200; ; k++ {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			if k < 300 {
				o.Deactivate(ids[k])
			}
			o.Activate(o.Create(secTicket(rng, 10_000, "slow")))
		}
	}()
	for k := 0; k < r.N(1, 4); k++ {
		p := &pb.Profile{Name: fmt.Sprint("slow", k), Pools: map[string]*pb.Pool{"slow": lib.TagPool("slow"), "base": lib.TagPool("base")}, Extensions: lib.GenExt(rng, 3)}
		calls := runCapture(r, o, ms, p, p.GetName())
		w := map[string]map[string]bool{}
		for _, pn := range []string{"slow", "base"} { // all functions against the first one, which must hold the constant part
			w[pn] = map[string]bool{}
			pools, _ := lib.PoolsOf(calls[0].Chunks)
			for id := range pools[pn] {
				w[pn][id] = true
			}
			for id := range want {
				if !w[pn][id] {
					r.Violate("a ticket active throughout is missing from a pool", map[string]any{"ticket": id, "pool": pn, "profile": p.GetName()})
				}
			}
		}
		c07judge(r, p.GetName(), p, calls, w)
		r.Count("requests_to_slow_functions", len(calls))
	}
	close(stop)
	wg.Wait()
	o.Stop()
}

func bigAny(n int) *anypb.Any {
	a, _ := anypb.New(wrapperspb.Bytes(make([]byte, n)))
	return a
}

func secTicket(rng *rand.Rand, pad int, tags ...string) *pb.Ticket {
	t := &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1000},
		Attributes: &pb.Ticket_FilterableData{Tags: tags, CreationTime: &timestamppb.Timestamp{Seconds: time.Now().Unix()}}}
	if pad > 0 {
		t.Extensions = map[string]*anypb.Any{"pad": bigAny(pad)}
	}
	return t
}

func c07mixed(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for total := 0; total < r.N(25_000_000, 80_000_000); {
		pad := int(math.Exp(rng.Float64() * math.Log(150_000)))
		var tags []string
		for _, g := range []string{"a", "b", "c"} {
			if rng.Intn(2) == 0 {
				tags = append(tags, g)
			}
		}
		ts = append(ts, secTicket(rng, pad, tags...))
		total += pad * (1 + len(tags))
	}
	for i := 0; i < 3; i++ {
		p := &pb.Profile{Name: fmt.Sprint("mixed", i), Pools: map[string]*pb.Pool{}, Extensions: lib.GenExt(rng, 3)}
		for k, g := range []string{"a", "b", "c", "nobody"} {
			if i > 0 || k != 1 {
				pl := lib.TagPool(g)
				pl.Name = "pool " + g
				p.Pools[g] = pl
			}
		}
		if i == 2 {
			p.Pools["ab"] = lib.TagPool("a", "b")
			p.Pools["all"] = &pb.Pool{}
		}
		ps = append(ps, p)
	}
	return ts, ps, 3
}

func c07tiny(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for i := 0; i < r.N(130_000, 300_000); i++ {
		ts = append(ts, secTicket(rng, 0, "t"))
	}
	return ts, []*pb.Profile{{Name: "tiny", Pools: map[string]*pb.Pool{"p": lib.TagPool("t")}},
		{Name: "tiny2", Pools: map[string]*pb.Pool{"p": lib.TagPool("t"), "q": {}}}}, 2
}

func c07bigprofile(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for i := 0; i < 60; i++ {
		ts = append(ts, secTicket(rng, 10_000+rng.Intn(190_000), "x"))
	}
	for i := 0; i < 3; i++ {
		p := &pb.Profile{Name: fmt.Sprint("big", i), Pools: map[string]*pb.Pool{"x": lib.TagPool("x"), "none": lib.TagPool("none")}}
		switch i {
		case 0:
			p.Extensions = map[string]*anypb.Any{"e": bigAny(3_400_000)}
		case 1:
			p.Pools["x"].Extensions = map[string]*anypb.Any{"e": bigAny(3_000_000)}
		case 2:
			p.Pools["none"].Extensions = map[string]*anypb.Any{"e": bigAny(2_500_000)}
			p.Extensions = map[string]*anypb.Any{"e": bigAny(900_000)}
		}
		ps = append(ps, p)
	}
	return ts, ps, 2
}

func c07huge(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for i := 0; i < 9; i++ {
		ts = append(ts, secTicket(rng, 1_900_000+rng.Intn(2_000_000), "h"))
	}
	for i := 0; i < 40; i++ {
		ts = append(ts, secTicket(rng, rng.Intn(2000), "h", "s"))
	}
	return ts, []*pb.Profile{{Name: "huge", Pools: map[string]*pb.Pool{"h": lib.TagPool("h"), "s": lib.TagPool("s")}}}, 2
}

func c07manypools(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for i := 0; i < 40; i++ {
		ts = append(ts, secTicket(rng, 20+rng.Intn(200), fmt.Sprint("g", i%5)))
	}
	p := &pb.Profile{Name: "manypools", Pools: map[string]*pb.Pool{}}
	for i := 0; i < 1500; i++ {
		pl := lib.TagPool(fmt.Sprint("g", i%6))
		pl.Name = lib.Pad(200)
		p.Pools[fmt.Sprintf("pool-%04d-%s", i, lib.Pad(300))] = pl
	}
	return ts, []*pb.Profile{p}, 2
}

// c07exact: tickets of one size close to divisors of the limit, so that chunks are filled to the brim.
func c07exact(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	size := lib.Pick(rng, []int{499_900, 799_950, 999_900, 1_333_000, 99_990})
	for i := 0; i < 30_000_000/size; i++ {
		ts = append(ts, secTicket(rng, size+rng.Intn(40)-20, "e"))
	}
	return ts, []*pb.Profile{{Name: "exact", Pools: map[string]*pb.Pool{"e": lib.TagPool("e")}}, {Name: "exact2", Pools: map[string]*pb.Pool{"e": lib.TagPool("e"), "f": lib.TagPool("e")}}}, 2
}

// c07manychunks: pools that overlap completely; every ticket is sent once per pool.
func c07manychunks(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for total := 0; total < 9_000_000; {
		pad := rng.Intn(150_000)
		ts = append(ts, secTicket(rng, pad, "m"))
		total += pad
	}
	p := &pb.Profile{Name: "manychunks", Pools: map[string]*pb.Pool{}}
	for i := 0; i < r.N(20, 80); i++ {
		p.Pools[fmt.Sprint("m", i)] = lib.TagPool("m")
	}
	return ts, []*pb.Profile{p}, 1
}

// c07hundreds: a profile so big that each chunk has little room left for tickets.
func c07hundreds(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	for i := 0; i < r.N(900, 1800); i++ {
		ts = append(ts, secTicket(rng, 25_000+rng.Intn(10_000), "hu"))
	}
	return ts, []*pb.Profile{{Name: "hundreds", Extensions: map[string]*anypb.Any{"e": bigAny(3_800_000)},
		Pools: map[string]*pb.Pool{"a": lib.TagPool("hu"), "none": lib.TagPool("nobody")}}}, 1
}

func c07empty(r *lib.Run, rng *rand.Rand) (ts []*pb.Ticket, ps []*pb.Profile, n int) {
	return nil, []*pb.Profile{{Name: "nopools"}, {Name: "emptypool", Pools: map[string]*pb.Pool{"e": lib.TagPool("e")}}}, 4
}

// runCapture runs an invocation on nm functions and returns what each received.
func runCapture(r *lib.Run, o *lib.OM, ms []*lib.MMF, p *pb.Profile, key string) []*lib.Call {
	var mu sync.Mutex
	var calls []*lib.Call
	var specs []*pb.MatchmakingFunctionSpec
	for _, m := range ms {
		specs = append(specs, m.Spec("f"))
		m.On(p.GetName(), func(c *lib.Call) error {
			if n := c.Extra(30 * time.Millisecond); n > 0 {
				r.Violate("a function receives more chunks than announced", map[string]any{"profile": key, "announced": len(c.Chunks), "extra": n})
			}
			mu.Lock()
			calls = append(calls, c)
			mu.Unlock()
			return nil
		})
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: p, Mmfs: specs})
	if err == nil {
		for err == nil {
			_, err = st.Recv()
		}
	}
	for _, m := range ms {
		m.Off(p.GetName()) // lets go of what was received
	}
	if err != io.EOF {
		o.CheckLog()
		r.Violate("invocation fails", map[string]any{"profile": key, "error": err.Error()})
	}
	mu.Lock()
	defer mu.Unlock()
	if len(calls) != len(ms) {
		r.Violate("a requested function was not called (exactly once)", map[string]any{"profile": key, "functions": len(ms), "calls": len(calls)})
	}
	return calls
}

func c07judge(r *lib.Run, key string, p *pb.Profile, calls []*lib.Call, want map[string]map[string]bool) {
	for ci, c := range calls {
		if c.Err != nil {
			r.Violate("a function does not receive the announced number of chunks", map[string]any{"profile": key, "error": c.Err.Error()})
		}
		for i, ch := range c.Chunks {
			r.Max("chunk_bytes", int64(c.Sizes[i]))
			if c.Sizes[i] > grpcLimit {
				r.Violate("a chunk exceeds the message limit", map[string]any{"profile": key, "chunk": i, "of": len(c.Chunks), "bytes": c.Sizes[i], "limit": grpcLimit})
			}
			if int(ch.GetNumChunks()) != len(c.Chunks) {
				r.Violate("announced number of chunks differs between chunks", map[string]any{"profile": key, "chunk": i, "announced": ch.GetNumChunks(), "received": len(c.Chunks)})
			}
		}
		pools, dups := lib.PoolsOf(c.Chunks)
		if len(dups) > 0 {
			r.Violate("a ticket is delivered twice in a pool", map[string]any{"profile": key, "duplicates": head(dups)})
		}
		for name, w := range want {
			got := pools[name]
			var missing, extra []string
			for id := range w {
				if got[id] == nil {
					missing = append(missing, id)
				}
			}
			for id := range got {
				if !w[id] {
					extra = append(extra, id)
				}
			}
			if len(missing)+len(extra) > 0 {
				r.Violate("a pool differs from the active tickets that match it", map[string]any{"profile": key, "pool": name, "expected": len(w), "received": len(got), "missing": head(missing), "extra": head(extra), "chunks": len(c.Chunks)})
			}
			r.Count("tickets_delivered", len(got))
		}
		for name := range pools {
			if _, ok := want[name]; !ok && len(pools[name]) > 0 {
				r.Violate("tickets in a pool that is not valid or not in the profile", map[string]any{"profile": key, "pool": name})
			}
		}
		if ci > 0 {
			a, b := calls[0], c
			if len(a.Chunks) != len(b.Chunks) {
				r.Violate("functions of one invocation receive different requests", map[string]any{"profile": key, "chunks": []int{len(a.Chunks), len(b.Chunks)}})
			}
			for i := range a.Chunks {
				if !proto.Equal(a.Chunks[i], b.Chunks[i]) && lib.Det(a.Chunks[i]) != lib.Det(b.Chunks[i]) {
					r.Violate("functions of one invocation receive different requests", map[string]any{"profile": key, "chunk": i})
				}
			}
		}
		r.Eval(len(c.Chunks) > 1 || len(want) > 1 || len(calls) > 1, key, ci, len(c.Chunks), len(want))
		r.Count("chunks", len(c.Chunks))
		r.Max("chunks_per_request", int64(len(c.Chunks)))
	}
}

func head(s []string) []string {
	if len(s) > 5 {
		return s[:5]
	}
	return s
}

func c07run(r *lib.Run, name string, ts []*pb.Ticket, profiles []*pb.Profile, nmmf int, rng *rand.Rand) {
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": "500"}))
	var ids []string
	for i := 0; i < len(ts); i += 200 {
		var es [][]string
		for k := i; k < i+200 && k < len(ts); k++ {
			es = append(es, []string{"ticket", string(lib.StoredTicket(ts[k], 1000))})
		}
		ids = append(ids, s.AddMany(es)...)
	}
	active := map[string]*pb.Ticket{}
	var es [][]string
	for i, id := range ids {
		if rng.Intn(20) > 0 {
			es = append(es, []string{"activate", id})
			active[id] = ts[i]
		}
	}
	s.AddMany(es)
	o.BarrierInjected(s.AddMany)
	o.Barrier() // the marker of the first barrier is inactive now
	var ms []*lib.MMF
	for i := 0; i < nmmf; i++ {
		ms = append(ms, r.NewMMF())
	}
	marker := o.Query(map[string]*pb.Pool{"all": {}}).Pools["all"]
	for id := range marker {
		if active[id] == nil { // a marker whose deactivation is still on its way
			time.Sleep(300 * time.Millisecond)
		}
	}
	var wg sync.WaitGroup
	for _, p := range profiles {
		want := map[string]map[string]bool{}
		for pn, pool := range p.GetPools() {
			want[pn] = map[string]bool{}
			for id, t := range active {
				if lib.InPool(pool, t) {
					want[pn][id] = true
				}
			}
		}
		wg.Add(1)
		run := func() {
			defer wg.Done()
			calls := runCapture(r, o, ms, p, p.GetName())
			c07judge(r, p.GetName(), p, calls, want)
			if r.WantSample() {
				r.Sample(map[string]any{"scenario": name, "profile": p.GetName(), "tickets": len(ts), "pools": len(p.GetPools()), "functions": len(calls), "chunks": len(calls[0].Chunks), "chunk_bytes": calls[0].Sizes})
			}
		}
		if name == "mixed" {
			go run()
		} else {
			run()
		}
	}
	wg.Wait()
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

// c07live: while tickets are created and activated, every function of an invocation receives the same request, without
// duplicates, and the tickets that are active throughout are in it.
func c07live(r *lib.Run) {
	o := r.StartOM("om", lib.FastEnv())
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF(), r.NewMMF()}
	rng := r.Rng("live")
	var base []*pb.Ticket
	for i := 0; i < 400; i++ {
		base = append(base, secTicket(rng, rng.Intn(40_000), "live", "base"))
	}
	ids := o.CreateN(base)
	o.Activate(ids...)
	o.Barrier()
	want := map[string]bool{}
	for _, id := range ids {
		want[id] = true
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("livew", w))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				id := o.Create(secTicket(wr, wr.Intn(30_000), "live"))
				o.Activate(id)
				if wr.Intn(2) == 0 {
					o.Deactivate(id)
				}
			}
		}()
	}
	for k := 0; k < r.N(25, 200); k++ {
		p := &pb.Profile{Name: fmt.Sprint("live", k), Pools: map[string]*pb.Pool{"base": lib.TagPool("base"), "live": lib.TagPool("live")}}
		calls := runCapture(r, o, ms, p, p.GetName())
		for _, c := range calls {
			pools, _ := lib.PoolsOf(c.Chunks)
			for id := range want {
				if pools["live"][id] == nil {
					r.Violate("a ticket active throughout is missing from a pool", map[string]any{"ticket": id, "pool": "live"})
				}
			}
		}
		pools, _ := lib.PoolsOf(calls[0].Chunks)
		live := map[string]bool{}
		for id := range pools["live"] {
			live[id] = true
		}
		c07judge(r, p.GetName(), p, calls, map[string]map[string]bool{"base": want, "live": live})
	}
	close(stop)
	wg.Wait()
	o.Stop()
}
