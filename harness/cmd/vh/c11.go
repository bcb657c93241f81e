package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C11"] = c11 }

const c11timeout = 4 // OM_MMF_TIMEOUT_SECS

func c11(r *lib.Run) {
	r.Rule = "one evaluation = one invocation mixing healthy functions with functions failing in 14 ways (refused, unresolvable, silent or closing port, REST type, error status before/between/after matches, connection reset, timeout, oversized match, never reading the request); judged: healthy matches complete, matches before an error status complete and their tickets gone, the invocation ends, the server serves afterwards. Non-trivial: at least one function fails"
	defer c11prompt(r)()
	for round := 0; round < r.N(2, 10); round++ {
		c11round(r, round)
	}
	for round := 0; round < r.N(1, 4); round++ {
		c11revive(r, round)
	}
	for round := 0; round < r.N(2, 8); round++ {
		c11residue(r, round)
	}
	c11many(r)
}

// c11many: invocations of a great many functions, named in every form a host and a port can take, some of them failing.
func c11many(r *lib.Run) {
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_MMF_TIMEOUT_SECS": "8", "OM_LOGGING_LEVEL": "fatal"}))
	rng := r.Rng("many")
	refused, _, closing := deadPorts(r)
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF(), r.NewMMF()}
	hosts := []string{"127.0.0.1"}
	if a, err := net.LookupHost("localhost"); err == nil && len(a) > 0 && a[0] == "127.0.0.1" {
		hosts = append(hosts, "localhost")
	}
	for k, n := range []int{1, 40, 150, 70, 16, 33, 65, 129} {
		if k >= r.N(4, 8) {
			break
		}
		name := fmt.Sprint("many", k)
		var mu sync.Mutex
		sent := map[string]int{}
		calls := 0
		for _, m := range ms {
			m.On(name, func(c *lib.Call) error {
				mu.Lock()
				calls++
				x := &pb.Match{Id: fmt.Sprint(name, "/", calls)}
				sent[x.Id]++
				mu.Unlock()
				return c.Send(x)
			})
		}
		var specs []*pb.MatchmakingFunctionSpec
		forms, healthy, failing := map[string]int{}, 0, 0
		for i := 0; i < n; i++ {
			m := ms[rng.Intn(len(ms))]
			s := m.Spec(fmt.Sprint("f", rng.Intn(2*n)))
			host, form := lib.Pick(rng, hosts), rng.Intn(6)
			switch form {
			case 0:
				s.Host, s.Port = host, int32(m.Port)
			case 1:
				s.Host, s.Port = fmt.Sprintf("%s:%d", host, m.Port), 0
			case 2:
				s.Host, s.Port = fmt.Sprintf("passthrough:///%s:%d", host, m.Port), 0
			case 3:
				s.Host, s.Port = "passthrough:///"+host, int32(m.Port)
			case 4:
				s.Host, s.Port = fmt.Sprintf("%s:%d", host, m.Port), -1
			}
			if form == 5 && i > 0 {
				s.Port = int32([]int{refused, closing}[rng.Intn(2)])
				failing++
			} else {
				healthy++
			}
			forms[fmt.Sprint(s.Host == "localhost", "/", form)]++
			specs = append(specs, s)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		got, err := o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: specs})
		cancel()
		ids := map[string]int{}
		for _, m := range got {
			ids[m.GetId()]++
		}
		det := map[string]any{"functions": n, "healthy": healthy, "failing": failing, "called": calls, "received": len(ids), "forms": forms, "end": fmt.Sprint(err)}
		if calls != healthy {
			r.Violate("the number of calls differs from the number of healthy functions", det)
		}
		for id := range sent {
			if ids[id] != 1 {
				r.Violate("a match of a healthy function, or one sent before an error status, is lost", det)
			}
		}
		r.Eval(failing > 0, name)
		r.Max("functions_in_one_invocation", int64(n))
		r.Count("healthy_functions_among_many", healthy)
	}
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

// c11prompt: matches of healthy functions do not wait for functions that hang, whether those share a server with them
// or not. The hanging ones give way once the caller has everything, so only a server that lets them hold up the others
// gets to see their time limit.
func c11prompt(r *lib.Run) func() {
	const limit = 40
	o := r.StartOM("ommulti", lib.Merge(lib.FastEnv(), map[string]string{"VERIF_SECONDARY": "1", "OM_MMF_TIMEOUT_SECS": fmt.Sprint(limit), "OM_LOGGING_LEVEL": "fatal"}))
	_, silent, _ := deadPorts(r)
	var all sync.WaitGroup
	for v := 0; v < r.N(6, 24); v++ {
		all.Add(1)
		rng := r.Rng(fmt.Sprint("prompt", v))
		go func() {
			defer all.Done()
			name := fmt.Sprint("prompt", v)
			a, b := r.NewMMF(), r.NewMMF()
			defer a.Stop()
			defer b.Stop()
			release := make(chan struct{})
			var mu sync.Mutex
			calls, held, over := 0, 0, 0
			hang := 1 + rng.Intn(2)
			sent := map[string]bool{}
			script := func(early bool) lib.Script {
				return func(c *lib.Call) error {
					mu.Lock()
					calls++
					id := fmt.Sprint(name, "/", calls)
					stuck := held < hang && early
					if stuck {
						held++
					}
					sent[id] = true
					mu.Unlock()
					if err := c.Send(&pb.Match{Id: id}); err != nil {
						return err
					}
					if stuck {
						select {
						case <-release:
						case <-c.Stream.Context().Done():
							mu.Lock()
							over++
							mu.Unlock()
						}
					}
					return nil
				}
			}
			a.On(name, script(true))
			b.On(name, script(false))
			// the same server asked for several functions, first and last in the list, and a server of its own
			n := hang + 1 + rng.Intn(3)
			var specs []*pb.MatchmakingFunctionSpec
			for i := 0; i < n; i++ {
				specs = append(specs, a.Spec(lib.Pick(rng, []string{"f", fmt.Sprint("f", i)})))
			}
			specs = append(specs, b.Spec("g"), b.Spec("f"))
			n += 2
			if v%2 == 1 {
				specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "dead", Host: "127.0.0.1", Port: int32(silent), Type: pb.MatchmakingFunctionSpec_GRPC})
			}
			rng.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
			ctx, cancel := context.WithTimeout(context.Background(), 3*limit*time.Second)
			defer cancel()
			st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: specs})
			got := map[string]bool{}
			t0 := time.Now()
			for err == nil && len(got) < n {
				var x *pb.StreamedMmfResponse
				if x, err = st.Recv(); err == nil {
					got[x.GetMatch().GetId()] = true
				}
			}
			took := time.Since(t0)
			mu.Lock()
			det := map[string]any{"functions": n, "hanging": hang, "called": calls, "received": len(got), "ran_into_the_limit": over, "time_limit_s": limit, "took_s": took.Seconds(), "unreachable_too": v%2 == 1, "end": fmt.Sprint(err)}
			mu.Unlock()
			if len(got) < n {
				r.Violate("a match of a healthy function is lost when another function hangs", det)
			} else if over > 0 {
				r.Violate("the matches of healthy functions are held up by a function that hangs", det)
			}
			close(release)
			cancel()
			r.Eval(true, "prompt", v)
			r.Max("slowest_invocation_with_hanging_functions_ms", took.Milliseconds())
		}()
	}
	return func() { all.Wait(); o.Stop() }
}

// c11residue: once its functions have ended or run out of time, nothing of an invocation is left in the server, however
// the functions and the caller ended it.
func c11residue(r *lib.Run, round int) {
	const limit = 3
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_MMF_TIMEOUT_SECS": fmt.Sprint(limit), "OM_LOGGING_LEVEL": "fatal", "OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(round%2 == 1)})
	if round%4 >= 2 {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	good, bad := r.NewMMF(), r.NewMMF()
	refused, silent, closing := deadPorts(r)
	var ts []*pb.Ticket
	for i := 0; i < 60; i++ {
		ts = append(ts, lib.TagTicket("res"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.QueryTag("res")
	base, _, perr := lib.Goroutines()
	var wg sync.WaitGroup
	const workers, each = 6, 12
	for w := 0; w < workers; w++ {
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("res", round, "w", w))
		go func() {
			defer wg.Done()
			for k := 0; k < each; k++ {
				name := fmt.Sprintf("res-%d-%d-%d", round, w, k)
				caller := (w + k) % 4 // 0: reads to the end, 1: leaves at once, 2: leaves after some matches, 3: never reads, leaves later
				how := rng.Intn(8)
				send := func(c *lib.Call) {
					for i := 0; i < 30; i++ {
						x := &pb.Match{Id: name, Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: lib.Pick(rng, ids)}}}}}
						if caller == 3 {
							x.Extensions = map[string]*anyT{"fat": bigAny(20_000)}
						}
						if c.Send(x) != nil {
							return
						}
						if i == 10 {
							time.Sleep(60 * time.Millisecond) // the caller is gone when the rest comes
						}
					}
				}
				var rmu sync.Mutex
				good.On(name, func(c *lib.Call) error { rmu.Lock(); defer rmu.Unlock(); send(c); return nil })
				specs := []*pb.MatchmakingFunctionSpec{good.Spec("f")}
				switch how {
				case 0, 1:
				case 2:
					bad.On(name, func(c *lib.Call) error { return status.Error(codes.Internal, "scripted") })
					specs = append(specs, bad.Spec("bad"))
				case 3:
					bad.On(name, func(c *lib.Call) error {
						c.Send(&pb.Match{Id: "x"})
						<-c.Stream.Context().Done()
						return nil
					})
					specs = append(specs, bad.Spec("bad"))
				default:
					specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "dead", Host: "127.0.0.1", Port: int32([]int{refused, silent, closing, refused}[how-4])})
					if how == 7 {
						specs[1].Type = pb.MatchmakingFunctionSpec_REST
					}
				}
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name, Pools: map[string]*pb.Pool{"p": lib.TagPool("res")}}, Mmfs: specs})
				switch caller {
				case 1:
					cancel()
				case 2:
					for i := 0; i < 3 && err == nil; i++ {
						_, err = st.Recv()
					}
					cancel()
				case 3:
					time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
					cancel()
				}
				for err == nil {
					_, err = st.Recv()
				}
				cancel()
				r.Eval(true, "residue", name, caller, how)
			}
		}()
	}
	wg.Wait()
	if perr == nil {
		n, prof := 0, ""
		var err error
		if !lib.Await(40*time.Second, func() bool { n, prof, err = lib.Goroutines(); return err != nil || n < base+workers*each/3 }) {
			if len(prof) > 4000 {
				prof = prof[:4000]
			}
			r.Violate("ended invocations leave something running in the server", map[string]any{"goroutines_before": base, "goroutines_after": n, "invocations": workers * each, "function_time_limit_s": limit, "profile": prof})
		}
		r.Count("invocations_checked_for_residue", workers*each)
		r.Max("goroutines_left_over", int64(max(n-base, 0)))
	}
	o.Barrier()
	good.Stop()
	bad.Stop()
	o.Stop()
}

// c11revive: a function that could not be reached, refused, broke off or ran into the timeout is a healthy function like
// any other as soon as it works again.
func c11revive(r *lib.Run, round int) {
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_MMF_TIMEOUT_SECS": "2", "OM_LOGGING_LEVEL": "fatal"}))
	port := lib.FreePort()
	other := r.NewMMF()
	spec := &pb.MatchmakingFunctionSpec{Name: "f", Host: "127.0.0.1", Port: int32(port), Type: pb.MatchmakingFunctionSpec_GRPC}
	n := 0
	invoke := func(what string, mustArrive bool, scripts func(name string) *pb.Match) {
		n++
		name := fmt.Sprintf("revive-%d-%d", round, n)
		want := scripts(name)
		ok := &pb.Match{Id: name + "/other"}
		other.On(name, func(c *lib.Call) error { return c.Send(ok) })
		defer other.Off(name)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		got, err := o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{spec, other.Spec("f")}})
		ids := map[string]int{}
		for _, m := range got {
			ids[m.GetId()]++
		}
		det := map[string]any{"function": what, "invocation": n, "received": ids, "end": fmt.Sprint(err)}
		if ids[ok.Id] != 1 {
			r.Violate("a match of a healthy function, or one sent before an error status, is lost", det)
		}
		if mustArrive && (ids[want.GetId()] != 1 || err != nil) {
			r.Violate("a function that failed in earlier invocations but works now is not used", det)
		}
		r.Eval(true, "revive", name)
		r.Count("revive: "+what, 1)
	}
	none := func(string) *pb.Match { return nil }
	up := func(m *lib.MMF) func(string) *pb.Match {
		return func(name string) *pb.Match {
			x := &pb.Match{Id: name + "/revived"}
			m.On(name, func(c *lib.Call) error { return c.Send(x) })
			return x
		}
	}
	start := func() *lib.MMF {
		var m *lib.MMF
		if !lib.Await(20*time.Second, func() bool {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				return false
			}
			l.Close()
			m = r.NewMMFAt(port)
			return true
		}) {
			r.Inconclusive("port %d is not free any more", port)
		}
		return m
	}
	for i := 0; i < 6; i++ { // nobody there
		invoke("not running", false, none)
		time.Sleep(time.Duration(50*(i+1)) * time.Millisecond)
	}
	m := start()
	for i := 0; i < 3; i++ {
		invoke("started after refusing", true, up(m))
	}
	m.Stop()
	for i := 0; i < 6; i++ {
		invoke("stopped", false, none)
		time.Sleep(time.Duration(50*(i+1)) * time.Millisecond)
	}
	m = start()
	invoke("restarted", true, up(m))
	for _, code := range []codes.Code{codes.Unavailable, codes.Internal, codes.Unimplemented, codes.ResourceExhausted, codes.Canceled, codes.DeadlineExceeded} {
		for i := 0; i < 4; i++ {
			invoke("error status "+code.String(), false, func(name string) *pb.Match {
				m.On(name, func(c *lib.Call) error { return status.Error(code, "scripted") })
				return nil
			})
		}
		invoke("works after error statuses", true, up(m))
	}
	for i := 0; i < 4; i++ {
		invoke("cuts its connections", false, func(name string) *pb.Match {
			m.On(name, func(c *lib.Call) error { m.DropAll(); return nil })
			return nil
		})
	}
	invoke("works after cutting connections", true, up(m))
	invoke("runs into the timeout", false, func(name string) *pb.Match {
		m.On(name, func(c *lib.Call) error { <-c.Stream.Context().Done(); return nil })
		return nil
	})
	invoke("works after a timeout", true, up(m))
	m.Stop()
	other.Stop()
	o.Stop()
}

// deadPorts: a TCP port nobody listens on, one that accepts and stays silent, one that accepts and closes.
func deadPorts(r *lib.Run) (refused, silent, closing int) {
	refused = lib.FreePort()
	for i, p := range []*int{&silent, &closing} {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Inconclusive("%v", err)
		}
		r.OnExit(func() { l.Close() })
		*p = l.Addr().(*net.TCPAddr).Port
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				if i == 1 {
					c.Close()
				}
			}
		}()
	}
	return
}

func c11round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("round", round))
	wait := round%2 == 1
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{
		"OM_MMF_TIMEOUT_SECS": fmt.Sprint(c11timeout), "OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait), "OM_LOGGING_LEVEL": "fatal"}))
	good := []*lib.MMF{r.NewMMF(), r.NewMMF()}
	bad := []*lib.MMF{r.NewMMF(), r.NewMMF()}
	fragile := r.NewMMF() // its connections get cut
	stuck := r.NewMMF()   // never reads its request
	stuck.SetPre(func(st pb.MatchMakingFunctionService_RunServer) (bool, error) {
		<-st.Context().Done()
		return true, st.Context().Err()
	})
	refused, silent, closing := deadPorts(r)
	var ts []*pb.Ticket
	const nt = 1200
	for i := 0; i < nt; i++ {
		t := lib.TagTicket("c11")
		if i < 120 { // a request of several chunks, so that a function that does not read blocks the sender
			t.Extensions = map[string]*anyT{"pad": bigAny(100_000)}
		}
		ts = append(ts, t)
	}
	ids := o.CreateN(ts)
	o.Activate(ids...)
	o.Barrier()
	quiet := o.Noise(r.Rng(fmt.Sprint("noise", round)), 30*time.Millisecond, ids)
	free := append([]string{}, ids[120:]...) // matched tickets come from the small ones
	var fmu sync.Mutex
	take := func(n int) []string {
		fmu.Lock()
		defer fmu.Unlock()
		if n > len(free) {
			n = len(free)
		}
		x := free[:n]
		free = free[n:]
		return x
	}
	var wg sync.WaitGroup
	for w := 0; w < 5; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for k := 0; k < r.N(8, 20); k++ {
				c11invoke(r, o, good, bad, fragile, stuck, [3]int{refused, silent, closing}, wr, fmt.Sprintf("c11-%d-%d-%d", round, w, k), (w*31+k)%14, take)
			}
		}()
	}
	wg.Wait()
	quiet()
	// the server keeps serving
	o.Barrier()
	for _, m := range append(append(good, bad...), fragile, stuck) {
		m.Stop()
	}
	o.Stop()
}

func c11invoke(r *lib.Run, o *lib.OM, good, bad []*lib.MMF, fragile, stuck *lib.MMF, dead [3]int, rng *rand.Rand, name string, first int, take func(int) []string) {
	var mu sync.Mutex
	must := map[string]int{} // matches that have to arrive
	may := map[string]int{}  // matches that may arrive
	var gone []string        // tickets that have to be out of the pools at the end
	n := 0
	mk := func() *pb.Match {
		n++
		m := &pb.Match{Id: fmt.Sprint(name, "/", n), Rosters: map[string]*pb.Roster{"r": {}}}
		for _, id := range take(1 + rng.Intn(2)) {
			m.Rosters["r"].Tickets = append(m.Rosters["r"].Tickets, &pb.Ticket{Id: id})
		}
		return m
	}
	mks := func(c int) (l []*pb.Match) {
		for ; c > 0; c-- {
			l = append(l, mk())
		}
		return
	}
	note := func(m *pb.Match, required bool) {
		mu.Lock()
		defer mu.Unlock()
		if required {
			must[lib.Det(m)]++
			gone = append(gone, ticketIDs(m)...)
		} else {
			may[lib.Det(m)]++
		}
	}
	var specs []*pb.MatchmakingFunctionSpec
	var offs []func()
	on := func(m *lib.MMF, s lib.Script) {
		m.On(name, s)
		offs = append(offs, func() { m.Off(name) })
		specs = append(specs, m.Spec("f"))
	}
	bigReq := rng.Intn(3) == 0
	kinds := []int{first}
	if rng.Intn(2) == 0 {
		kinds = append(kinds, rng.Intn(14))
	}
	usedBad := 0
	fragileUsed := false
	sendAll := func(c *lib.Call, l []*pb.Match, required bool, gap time.Duration) {
		for _, m := range l {
			note(m, required)
			if err := c.Send(m); err != nil && required {
				r.Violate("the server stops listening to a healthy function", map[string]any{"error": err.Error()})
			}
			time.Sleep(gap)
		}
	}
	desc := []string{}
	for _, kd := range kinds {
		switch kd {
		case 0:
			desc = append(desc, "refused")
			specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "x", Host: "127.0.0.1", Port: int32(dead[0]), Type: pb.MatchmakingFunctionSpec_GRPC})
		case 1:
			desc = append(desc, "silent")
			specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "x", Host: "127.0.0.1", Port: int32(dead[1]), Type: pb.MatchmakingFunctionSpec_GRPC})
		case 2:
			desc = append(desc, "closing")
			specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "x", Host: "127.0.0.1", Port: int32(dead[2]), Type: pb.MatchmakingFunctionSpec_GRPC})
		case 3:
			desc = append(desc, "unresolvable or malformed host")
			specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "x", Host: lib.Pick(rng, []string{"", "no.such.host.invalid", ":::", "http://x/y", "127.0.0.1", "dns:///", "%zz", "unix:/nonexistent"}), Port: lib.Pick(rng, []int32{0, -5, 70000, 1 << 30}), Type: lib.Pick(rng, []pb.MatchmakingFunctionSpec_Type{1, 1, 0, 77})})
		case 4:
			desc = append(desc, "REST type")
			specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "x", Host: "127.0.0.1", Port: int32(good[0].Port), Type: pb.MatchmakingFunctionSpec_REST})
		case 12:
			desc = append(desc, "never reads its request")
			bigReq = true
			specs = append(specs, stuck.Spec("f"))
		case 13:
			desc = append(desc, "empty specification")
			specs = append(specs, &pb.MatchmakingFunctionSpec{})
		case 5, 6, 7, 8, 10, 11:
			if usedBad >= len(bad) {
				continue
			}
			m := bad[usedBad]
			usedBad++
			l := mks(rng.Intn(4))
			code := lib.Pick(rng, []codes.Code{codes.Internal, codes.Unavailable, codes.ResourceExhausted, codes.Canceled, codes.DeadlineExceeded, codes.Unknown, codes.Unauthenticated})
			switch kd {
			case 5, 6:
				desc = append(desc, "error status after matches")
				on(m, func(c *lib.Call) error { sendAll(c, l, true, 0); return status.Error(code, "scripted") })
			case 7:
				desc = append(desc, "error status some time after matches")
				on(m, func(c *lib.Call) error {
					sendAll(c, l, true, 5*time.Millisecond)
					time.Sleep(50 * time.Millisecond)
					return status.Error(code, "scripted")
				})
			case 8:
				desc = append(desc, "timeout after matches")
				on(m, func(c *lib.Call) error {
					sendAll(c, l, false, 0)
					<-c.Stream.Context().Done()
					return nil
				})
			case 10:
				desc = append(desc, "keeps sending until the timeout")
				on(m, func(c *lib.Call) error {
					for i := 0; ; i++ {
						x := &pb.Match{Id: fmt.Sprint(name, "/endless/", i)}
						note(x, false)
						if c.Send(x) != nil {
							return nil
						}
						time.Sleep(10 * time.Millisecond)
					}
				})
			case 11:
				desc = append(desc, "oversized match")
				on(m, func(c *lib.Call) error {
					sendAll(c, l, true, 0)
					x := &pb.Match{Id: name + "/oversized", Extensions: map[string]*anyT{"x": bigAny(5 << 20)}}
					note(x, false)
					c.Send(x)
					return nil
				})
			}
		case 9:
			if fragileUsed {
				continue
			}
			fragileUsed = true
			desc = append(desc, "connection reset")
			l := mks(rng.Intn(3))
			on(fragile, func(c *lib.Call) error {
				sendAll(c, l, false, time.Millisecond)
				fragile.DropAll()
				return nil
			})
		}
	}
	for i := rng.Intn(3); i > 0 && i <= len(good); i-- {
		l := mks(lib.Pick(rng, []int{0, 1, 4}))
		gap := time.Duration(rng.Intn(40)) * time.Millisecond
		on(good[i-1], func(c *lib.Call) error { sendAll(c, l, true, gap); return nil })
	}
	rng.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
	p := &pb.Profile{Name: name, Pools: map[string]*pb.Pool{"none": lib.TagPool("nobody")}}
	if bigReq {
		p.Pools["all"] = lib.TagPool("c11")
	}
	det := map[string]any{"invocation": name, "failures": desc, "functions": len(specs), "large_request": bigReq}
	ctx, cancel := context.WithTimeout(context.Background(), (c11timeout+60)*time.Second)
	defer cancel()
	t0 := time.Now()
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: p, Mmfs: specs})
	got := map[string]int{}
	for err == nil {
		var x *pb.StreamedMmfResponse
		x, err = st.Recv()
		if err == nil {
			got[lib.Det(x.GetMatch())]++
		}
	}
	for _, f := range offs {
		f()
	}
	det["ended_after_s"] = time.Since(t0).Seconds()
	if err != io.EOF && status.Code(err) == codes.DeadlineExceeded {
		o.CheckLog()
		r.Violate("the invocation does not end", det)
	}
	if err != io.EOF {
		time.Sleep(200 * time.Millisecond)
		o.CheckLog()
		det["status"] = err.Error() // an error at the end is not excluded by the property, but it must come after all matches
		r.Count("invocations_ended_with_error", 1)
	}
	vis := o.QueryTag("c11")
	mu.Lock()
	defer mu.Unlock()
	det["matches_required"], det["matches_received"] = len(must), len(got)
	for k, c := range must {
		if got[k] < c {
			det["match"] = fmt.Sprintf("%.200q", k)
			r.Violate("a match of a healthy function, or one sent before an error status, is lost", det)
		}
	}
	for k, c := range got {
		if c > must[k]+may[k] {
			det["match"] = fmt.Sprintf("%.200q", k)
			r.Violate("a match nobody sent (or one too many) is received", det)
		}
	}
	for _, id := range gone {
		if vis[id] != nil {
			det["ticket"] = id
			r.Violate("a ticket of a match sent before the failure is still in the pools", det)
		}
	}
	r.Eval(len(desc) > 0, name, fmt.Sprint(desc))
	for _, d := range desc {
		r.Count("failure: "+d, 1)
	}
	r.Count("matches_required", len(must))
	if r.WantSample() {
		r.Sample(det)
	}
}
