package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C09"] = c09 }

func c09(r *lib.Run) {
	r.Rule = "one evaluation = one invocation (1-8 scripted functions streaming 0-150 random matches each, in bursts, with delays, concurrent with other invocations); the multiset of matches sent by the functions is compared with the multiset the caller received before the end of its stream. Non-trivial: at least one match was sent"
	for round := 0; round < r.N(5, 25); round++ {
		c09round(r, round)
	}
	for round := 0; round < r.N(1, 4); round++ {
		c09late(r, round)
	}
}

func genMatch(rng *rand.Rand, uniq string, ids []string) *pb.Match {
	m := &pb.Match{Id: uniq, Extensions: lib.GenExt(rng, 3)}
	if k := rng.Intn(24); k < 8 { // values under names one might expect to mean something, some of which no reader understands
		if m.Extensions == nil {
			m.Extensions = map[string]*anyT{}
		}
		m.Extensions[lib.Pick(rng, []string{"score", "mmfName", "profileName", "evaluation_input", "quality", "region"})] = []*anyT{
			{}, {TypeUrl: "type.example/unknown.Type", Value: []byte{1}}, {TypeUrl: "type.googleapis.com/google.protobuf.DoubleValue", Value: []byte{0xff}},
			{TypeUrl: "/", Value: []byte("x")}, {TypeUrl: "type.googleapis.com/google.protobuf.Int32Value", Value: []byte{8}}, nil, lib.Any("high"),
			{TypeUrl: "type.googleapis.com/openmatch.DefaultEvaluationCriteria"}}[k]
	}
	switch rng.Intn(8) {
	case 0: // no tickets at all
	case 1:
		m.Rosters = map[string]*pb.Roster{"empty": {Name: "empty"}}
	case 2:
		m.Id = "same id" // ids need not be unique
		m.Extensions = map[string]*anyT{"u": lib.Any(uniq)}
		fallthrough
	default:
		m.Rosters = map[string]*pb.Roster{}
		for i := 1 + rng.Intn(3); i > 0; i-- {
			ro := &pb.Roster{Name: fmt.Sprint("r", i), Extensions: lib.GenExt(rng, 2)}
			for k := rng.Intn(5); k > 0; k-- {
				id := lib.Pick(rng, ids)
				t := &pb.Ticket{Id: id}
				if rng.Intn(3) == 0 {
					t.Attributes = lib.GenAttrs(rng)
					t.Extensions = lib.GenExt(rng, 2)
				}
				switch rng.Intn(12) {
				case 0: // tickets that are not known, or have no id
					t.Id = lib.Pick(rng, []string{"", "x", "0-0", "99999999999999-1"})
				case 1:
					t.ExpirationTime = timestamppb.New(time.Now())
				case 3: // or one that only resembles
					t.Id = lib.Pick(rng, []string{t.Id + " ", " " + t.Id, "\t" + t.Id + "\n", "0" + t.Id, t.Id + "-0", "ID-" + t.Id, "ünï", lib.Pad(500)})
				case 2: // the same ticket again
					ro.Tickets = append(ro.Tickets, t)
				}
				ro.Tickets = append(ro.Tickets, t)
			}
			switch rng.Intn(8) {
			case 0:
				ro.Name = ""
			case 1:
				ro.Name = lib.Pick(rng, []string{"named differently", "r1", " ", "r1 "})
			case 2:
				ro.Tickets = nil
			}
			if rng.Intn(6) == 0 {
				ro.Assignment = &pb.Assignment{Connection: "1.2.3.4:5", Extensions: lib.GenExt(rng, 2)}
			}
			key := fmt.Sprint("r", i)
			if rng.Intn(10) == 0 {
				key = ""
			}
			if rng.Intn(12) == 0 {
				ro = &pb.Roster{}
			}
			m.Rosters[key] = ro
		}
	}
	if rng.Intn(12) == 0 && m.Id != "same id" { // no id either, only something to tell it apart
		m.Id = ""
		m.Extensions = map[string]*anyT{"u": lib.Any(uniq)}
	}
	return m
}

func c09round(r *lib.Run, round int) {
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "200"})
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = fmt.Sprint(round%2 == 1)
	if round%5 >= 2 {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		if round%5 >= 3 { // a storage that is slow and now and then refuses updates
			hrng := r.Rng(fmt.Sprint("h", round))
			var hm sync.Mutex
			s.SetHook(func(c *fredis.Cmd) fredis.Action {
				hm.Lock()
				defer hm.Unlock()
				if c.Name != "XADD" || c.Args[2] == "ticket" || c.Args[2] == "activate" {
					return fredis.Action{}
				}
				switch hrng.Intn(40) {
				case 0:
					return fredis.Action{Err: lib.StorageError()}
				case 1:
					return fredis.Action{Delay: time.Duration(hrng.Intn(20)) * time.Millisecond}
				case 2:
					if round%5 == 4 {
						return fredis.Action{DropAfter: true}
					}
				}
				return fredis.Action{}
			})
		}
	}
	o := r.StartOM("om", env)
	var ts []*pb.Ticket
	for i := 0; i < 300; i++ {
		ts = append(ts, lib.TagTicket("c09"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	quiet := o.Noise(r.Rng(fmt.Sprint("noise", round)), 30*time.Millisecond, ids)
	var ms []*lib.MMF
	for i := 0; i < 4; i++ {
		ms = append(ms, r.NewMMF())
	}
	var wg sync.WaitGroup
	if round < 2 {
		wg.Add(1)
		go func() { defer wg.Done(); c09slow(r, o, ids, fmt.Sprint("slow-", round)) }()
	}
	for w := 0; w < 6; w++ {
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("w", round, w))
		go func() {
			defer wg.Done()
			for k := 0; k < r.N(5, 10); k++ {
				c09invoke(r, o, ms, rng, ids, fmt.Sprintf("inv-%d-%d-%d", round, w, k), rng.Intn(12) == 0)
			}
		}()
	}
	wg.Wait()
	quiet()
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

// c09late: the functions are done at once, but the caller takes longer than the time limit of functions to read.
func c09late(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	const limit = 5
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_MMF_TIMEOUT_SECS": fmt.Sprint(limit), "OM_MATCH_TICKET_DEACTIVATION_WAIT": "false"}))
	var ts []*pb.Ticket
	for i := 0; i < 50; i++ {
		ts = append(ts, lib.TagTicket("late"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF()}
	name := fmt.Sprint("late-", round)
	n := r.N(1500, 4000)
	finished := make(chan bool, 2)
	for f, m := range ms {
		m.On(name, func(c *lib.Call) error {
			for i := 0; i < n; i++ {
				x := &pb.Match{Id: fmt.Sprint(f, "/", i), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: ids[i%len(ids)]}}}}, Extensions: map[string]*anyT{"fat": bigAny(1000)}}
				if c.Send(x) != nil {
					finished <- false
					return nil
				}
			}
			finished <- true
			return nil
		})
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	t0 := time.Now()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{ms[0].Spec("f"), ms[1].Spec("g")}})
	ok := <-finished && <-finished
	took := time.Since(t0)
	got := map[string]int{}
	time.Sleep(time.Until(t0.Add((limit + 3) * time.Second)))
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err == nil {
			got[x.GetMatch().GetId()]++
		}
	}
	// only if the functions were certainly finished, and what they sent taken, well before the limit
	if ok && took < 1800*time.Millisecond {
		det := map[string]any{"matches_sent": 2 * n, "distinct_matches_received": len(got), "functions_done_after_s": took.Seconds(), "function_time_limit_s": limit, "caller_starts_reading_after_s": limit + 3, "end": fmt.Sprint(err)}
		if err != io.EOF {
			r.Violate("an invocation with healthy functions fails or does not end", det)
		}
		for f := range ms {
			for i := 0; i < n; i++ {
				if k := got[fmt.Sprint(f, "/", i)]; k != 1 {
					det["match"], det["times"] = i, k
					r.Violate("a match is not received exactly once by a caller that reads slowly", det)
				}
			}
		}
		r.Count("matches_read_after_the_function_time_limit", 2*n)
	}
	r.Eval(ok, name)
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

func c09invoke(r *lib.Run, o *lib.OM, ms []*lib.MMF, rng *rand.Rand, ids []string, name string, fat bool) {
	nm := 1 + rng.Intn(8)
	var mu sync.Mutex
	sent := map[string]int{}
	perCall := [][]*pb.Match{}
	total := 0
	for i := 0; i < nm; i++ {
		var l []*pb.Match
		for k := lib.Pick(rng, []int{0, 1, 1, 3, 20, 150}); k > 0; k-- {
			m := genMatch(rng, fmt.Sprintf("%s/%d/%d", name, i, k), ids)
			if fat && k%15 == 1 {
				m.Extensions = map[string]*anyT{"fat": bigAny(3_000_000 + rng.Intn(1_100_000)), "u": lib.Any(fmt.Sprint(name, i, k))}
			}
			if rng.Intn(30) == 0 && len(l) > 0 { // the same match twice is two matches
				m = l[len(l)-1]
			}
			l = append(l, m)
			total++
		}
		perCall = append(perCall, l)
	}
	mode := rng.Intn(4)
	next := 0
	started := 0
	script := func(c *lib.Call) error {
		mu.Lock()
		l := perCall[next]
		next++
		started++
		mu.Unlock()
		lr := rand.New(rand.NewSource(int64(len(l)) + 7))
		for k, m := range l {
			switch mode {
			case 1:
				time.Sleep(time.Duration(lr.Intn(4)) * time.Millisecond)
			case 2:
				if k == len(l)-1 {
					time.Sleep(120 * time.Millisecond)
				}
			}
			mu.Lock()
			sent[lib.Det(m)]++
			mu.Unlock()
			if err := c.Send(m); err != nil {
				r.Violate("the server stops listening to a function", map[string]any{"invocation": name, "error": err.Error(), "match": k})
			}
		}
		return nil
	}
	var specs []*pb.MatchmakingFunctionSpec
	for i := 0; i < nm; i++ {
		m := ms[rng.Intn(len(ms))]
		m.On(name, script)
		sp := m.Spec(fmt.Sprint("f", i%3))
		if rng.Intn(4) == 0 { // host:port in the host field
			sp.Host, sp.Port = fmt.Sprintf("127.0.0.1:%d", m.Port), 0
		}
		specs = append(specs, sp)
	}
	defer func() {
		for _, m := range ms {
			m.Off(name)
		}
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name, Pools: map[string]*pb.Pool{"p": lib.TagPool("c09")}}, Mmfs: specs})
	got := map[string]int{}
	n := 0
	slow := rng.Intn(4) == 0
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err == nil {
			n++
			got[lib.Det(x.GetMatch())]++
			if slow && n < 100 {
				time.Sleep(2 * time.Millisecond)
			}
		}
	}
	if err != io.EOF {
		time.Sleep(200 * time.Millisecond)
		o.CheckLog()
		r.Violate("an invocation with healthy functions fails or does not end", map[string]any{"invocation": name, "error": err.Error(), "received": n, "expected": total})
	}
	mu.Lock()
	defer mu.Unlock()
	det := map[string]any{"invocation": name, "functions": nm, "matches_sent": total, "matches_received": n, "delays": mode, "slow_reader": slow}
	if started != nm {
		r.Violate("not every requested function was called exactly once", det)
	}
	for k, c := range sent {
		if got[k] < c {
			det["match"] = fmt.Sprintf("%.300q", k)
			r.Violate("a match is lost", det)
		}
	}
	for k, c := range got {
		if sent[k] == 0 {
			det["match"] = fmt.Sprintf("%.300q", k)
			r.Violate("a match is received that no function of the invocation sent", det)
		}
		if c > sent[k] {
			det["match"] = fmt.Sprintf("%.300q", k)
			r.Violate("a match is received more often than it was sent", det)
		}
	}
	r.Eval(total > 0, name, total)
	r.Count("matches", total)
	r.Count("function_runs", nm)
	if r.WantSample() && total > 0 {
		r.Sample(det)
	}
}

// c09slow: the caller does not read for a long time while many matches wait for it.
func c09slow(r *lib.Run, o *lib.OM, ids []string, name string) {
	m := r.NewMMF()
	defer m.Stop()
	const n = 4000
	m.On(name, func(c *lib.Call) error {
		for i := 0; i < n; i++ {
			x := &pb.Match{Id: fmt.Sprint(name, "/", i), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: ids[i%len(ids)]}}}}, Extensions: map[string]*anyT{"fat": bigAny(1000)}}
			if err := c.Send(x); err != nil {
				r.Violate("the server stops listening to a function", map[string]any{"invocation": name, "error": err.Error(), "match": i})
			}
		}
		return nil
	})
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
	got := map[string]int{}
	pause := time.Duration(r.N(13, 75)) * time.Second
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err == nil {
			got[x.GetMatch().GetId()]++
			if len(got) == 3 {
				time.Sleep(pause)
			}
		}
	}
	det := map[string]any{"invocation": name, "matches_sent": n, "distinct_matches_received": len(got), "pause_s": pause.Seconds()}
	if err != io.EOF {
		det["error"] = err.Error()
		r.Violate("an invocation with healthy functions fails or does not end", det)
	}
	for i := 0; i < n; i++ {
		if c := got[fmt.Sprint(name, "/", i)]; c != 1 {
			det["match"], det["times"] = i, c
			r.Violate("a match is not received exactly once by a caller that reads slowly", det)
		}
	}
	r.Eval(true, name, n)
	r.Count("matches", n)
	r.Count("matches_to_a_slow_caller", n)
}
