package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C29"] = c29 }

func c29(r *lib.Run) {
	r.Rule = "one evaluation = one environment (subset of the documented variables with values of their types) for which every key is read back and the logging setup inspected in-process, or one behaviour of a running server that shows the value in use (storage addresses, credentials, poll arguments, limits, TTL, timeouts, port, deactivation wait, batch threshold). Non-trivial: at least one variable is set, or the all-defaults environment"
	r.Comp("comp-config", "all")
	defer c29idle(r)()
	for i := 0; i < r.N(2, 8); i++ {
		c29redis(r, i)
	}
	c29memory(r)
	c29defaults(r)
}

type splitRedis struct {
	w, rd *fredis.Server
	mu    sync.Mutex
	hold  bool
	n     int
	xread [][]string
}

// newSplit makes a primary and a read replica; replication can be held back.
func newSplit(r *lib.Run) *splitRedis {
	x := &splitRedis{w: newRedis(r), rd: newRedis(r)}
	x.rd.SetHook(func(c *fredis.Cmd) fredis.Action {
		if c.Name == "XREAD" {
			x.mu.Lock()
			x.xread = append(x.xread, append([]string{}, c.Args...))
			x.mu.Unlock()
		}
		return fredis.Action{}
	})
	go func() {
		for {
			time.Sleep(3 * time.Millisecond)
			x.mu.Lock()
			if !x.hold {
				for _, e := range x.w.Entries(x.n) {
					x.rd.AddAt(e.MS, e.Seq, e.Fields...)
					x.n++
				}
			}
			x.mu.Unlock()
		}
	}()
	return x
}

func (x *splitRedis) setHold(h bool) { x.mu.Lock(); x.hold = h; x.mu.Unlock() }

func c29redis(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("redis", round))
	x := newSplit(r)
	wu, wp := lib.Pick(rng, []string{"writer", "w üser", "default"}), lib.Pick(rng, []string{"wpass", "p w\"'", "500"})
	ru, rp := lib.Pick(rng, []string{"reader", "r=user"}), lib.Pick(rng, []string{"rpass", "false", "x,y"})
	count, block := 1+rng.Intn(5000), 10+rng.Intn(90)
	ttl := 100 + rng.Intn(900)
	limit := 1 + rng.Intn(40)
	wait := round%2 == 0
	env := map[string]string{
		"OM_REDIS_WRITE_HOST": lib.Pick(rng, []string{"127.0.0.1", "localhost"}), "OM_REDIS_WRITE_PORT": fmt.Sprint(x.w.Port()), "OM_REDIS_WRITE_USER": wu, "OM_REDIS_WRITE_PASSWORD": wp,
		"OM_REDIS_READ_HOST": lib.Pick(rng, []string{"127.0.0.1", "localhost"}), "OM_REDIS_READ_PORT": fmt.Sprint(x.rd.Port()), "OM_REDIS_READ_USER": ru, "OM_REDIS_READ_PASSWORD": rp,
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint(count), "OM_CACHE_IN_WAIT_TIMEOUT_MS": fmt.Sprint(block),
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "1", "OM_CACHE_OUT_WAIT_TIMEOUT_MS": "5", "OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_MAX_STATE_UPDATES_PER_CALL": fmt.Sprint(limit),
		"OM_LOGGING_LEVEL": "fatal", "OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(wait), "OM_MMF_TIMEOUT_SECS": "3",
	}
	if rng.Intn(2) == 0 {
		env["OM_STATE_STORAGE_TYPE"] = "redis" // also the default
	}
	o := r.StartOM("om", env)
	say := func(what string, d any) {
		r.Violate("the server does not use a configured value", map[string]any{"what": what, "environment": env, "seen": d})
	}
	id := o.Create(lib.TagTicket("c29"))
	o.Activate(id)
	o.AwaitVisible("c29", id)
	for c, n := range x.w.Counts() {
		if strings.HasPrefix(c, "XREAD") && n > 0 {
			say("reads go to the write host", x.w.Counts())
		}
	}
	if x.w.Counts()["XADD"] == 0 || x.rd.Counts()["XADD"]+x.rd.Counts()["XTRIM"] > 0 {
		say("write host/port", map[string]any{"writer": x.w.Counts(), "reader": x.rd.Counts()})
	}
	if u := x.w.Users(); len(u) != 1 || u[wu] != wp {
		say("credentials of the write host", u)
	}
	if u := x.rd.Users(); len(u) != 1 || u[ru] != rp {
		say("credentials of the read host", u)
	}
	x.mu.Lock()
	for _, a := range x.xread {
		s := strings.ToUpper(strings.Join(a, " "))
		if !strings.Contains(" "+s, fmt.Sprintf(" COUNT %d ", count)) || !strings.Contains(" "+s, fmt.Sprintf(" BLOCK %d ", block)) {
			x.mu.Unlock()
			say("poll size or wait", s)
			return
		}
	}
	r.Count("polls_inspected", len(x.xread))
	x.mu.Unlock()
	u := lib.Decode(0, x.w.Entries(0)[0])
	if d := u.Ticket.GetExpirationTime().AsTime().Sub(u.Ticket.GetAttributes().GetCreationTime().AsTime()); d != time.Duration(ttl)*time.Second {
		say("ticket TTL", d.String())
	}
	if ts := x.w.Trims(); len(ts) > 0 {
		tr := ts[len(ts)-1]
		if d := tr.At.UnixMilli() - tr.MinMS - int64(ttl)*1000; d < -1500 || d > 30_000 {
			say("trim threshold", map[string]any{"threshold": tr.MinMS, "at": tr.At.UnixMilli()})
		}
	}
	// limits
	ctx, cancel := lib.Ctx()
	defer cancel()
	ids := make([]string, limit+1)
	for i := range ids {
		ids[i] = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), i)
	}
	try := func(n int, ok bool) {
		_, e1 := o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids[:n]})
		_, e2 := o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids[:n]})
		_, e3 := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "x"}, Tickets: ticketsOf(ids[:n])}})
		for _, e := range []error{e1, e2, e3} {
			if (e == nil) != ok || !ok && status.Code(e) != codes.InvalidArgument {
				say("maximum updates per call", map[string]any{"requested": n, "errors": []string{fmt.Sprint(e1), fmt.Sprint(e2), fmt.Sprint(e3)}})
			}
		}
	}
	try(limit, true)
	try(limit+1, false)
	// deactivation wait: the replica lags behind
	m := r.NewMMF()
	m.On("wait", func(c *lib.Call) error {
		return c.Send(&pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"r": {Tickets: ticketsOf([]string{id})}}})
	})
	o.Barrier()
	x.setHold(true)
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "wait"}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("w")}})
	if err != nil {
		r.Violate("invocation with a healthy function fails", err.Error())
	}
	got := make(chan error, 1)
	go func() { _, err := st.Recv(); got <- err }()
	hold := 2500 * time.Millisecond
	if !wait {
		hold = 30 * time.Second
	}
	select {
	case err := <-got:
		if wait {
			say("deactivation wait is on, yet the match is returned before the deactivation is replicated", fmt.Sprint(err))
		}
		if err != nil {
			r.Violate("invocation with a healthy function fails", err.Error())
		}
	case <-time.After(hold):
		if !wait {
			say("deactivation wait is off, yet the match waits for the replication", hold.String())
		}
	}
	x.setHold(false)
	if wait {
		select {
		case err := <-got:
			if err != nil {
				r.Violate("invocation with a healthy function fails", err.Error())
			}
		case <-time.After(50 * time.Second):
			r.Violate("the match is not returned after the replication caught up", nil)
		}
	}
	for err == nil {
		_, err = st.Recv()
	}
	if err != io.EOF {
		r.Violate("invocation with a healthy function fails", err.Error())
	}
	// function timeout of 3 seconds
	m.On("slow", func(c *lib.Call) error { <-c.Stream.Context().Done(); return c.Stream.Context().Err() })
	t0 := time.Now()
	o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "slow"}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("s")}})
	if d := time.Since(t0); d < 2500*time.Millisecond || d > 60*time.Second {
		say("function timeout of 3 s", d.String())
	}
	r.Eval(true, "redis", round, fmt.Sprint(env))
	r.Sample(map[string]any{"environment of a running server": env})
	m.Stop()
	o.Stop()
	x.w.Close()
	x.rd.Close()
}

// c29idle: the time limit of the storage connections decides how long the server waits for a reply, on both hosts.
func c29idle(r *lib.Run) func() {
	var wg sync.WaitGroup
	for v, limit := range []string{"2s", "60s", ""} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			short := limit == "2s"
			hold := time.Duration(map[bool]int{true: 25, false: 17}[short]) * time.Second
			w, rd := newRedis(r), newRedis(r)
			defer w.Close()
			defer rd.Close()
			env := lib.Merge(lib.FastEnv(), map[string]string{"VERIF_SECONDARY": "1", "OM_STATE_STORAGE_TYPE": "redis", "OM_LOGGING_LEVEL": "fatal",
				"OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_WRITE_PORT": fmt.Sprint(w.Port()), "OM_REDIS_READ_HOST": "127.0.0.1", "OM_REDIS_READ_PORT": fmt.Sprint(rd.Port())})
			if limit != "" {
				env["OM_REDIS_POOL_IDLE_TIMEOUT"] = limit
			}
			o := r.StartOM("ommulti", env)
			say := func(what string, d any) {
				r.Violate("the server does not use a configured value", map[string]any{"what": what, "OM_REDIS_POOL_IDLE_TIMEOUT": limit, "reply_delayed_s": hold.Seconds(), "seen": d})
			}
			o.Create(lib.TagTicket("idle"))
			// one poll is answered late: when does the next one come?
			var mu sync.Mutex
			var first, next time.Time
			rd.SetHook(func(c *fredis.Cmd) fredis.Action {
				if c.Name != "XREAD" {
					return fredis.Action{}
				}
				mu.Lock()
				defer mu.Unlock()
				if first.IsZero() {
					first = time.Now()
					return fredis.Action{Delay: hold}
				}
				if next.IsZero() {
					next = time.Now()
				}
				return fredis.Action{}
			})
			late := true
			w.SetHook(func(c *fredis.Cmd) fredis.Action {
				if c.Name == "XADD" && late {
					late = false
					return fredis.Action{Delay: hold}
				}
				return fredis.Action{}
			})
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			defer cancel()
			t0 := time.Now()
			_, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("late")})
			d := time.Since(t0)
			switch {
			case short && (err == nil || d < 1500*time.Millisecond || d > 8*time.Second):
				say("a write whose reply is late", fmt.Sprint("after ", d, ": ", err))
			case !short && err != nil:
				say("a write whose reply is late, but within the limit", fmt.Sprint("after ", d, ": ", err))
			}
			lib.Await(hold+30*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return !next.IsZero() })
			mu.Lock()
			gap := next.Sub(first)
			mu.Unlock()
			switch {
			case next.IsZero():
				say("no poll after one whose reply was late", nil)
			case short && (gap < 1500*time.Millisecond || gap > 8*time.Second):
				say("the poll after one whose reply was late", gap.String())
			case !short && gap < hold-time.Second:
				say("the poll after one whose reply was late, but within the limit", gap.String())
			}
			r.Eval(true, "idle", v)
			r.Count("late_replies_of_the_storage", 2)
			o.Stop()
		}()
	}
	return wg.Wait
}

func c29memory(r *lib.Run) {
	s := newRedis(r)
	defer s.Close()
	port := lib.FreePort()
	o := r.StartOM("om", lib.Merge(lib.RedisEnv(s.Port()), map[string]string{"OM_STATE_STORAGE_TYPE": "memory", "PORT": fmt.Sprint(port), "OM_LOGGING_LEVEL": "fatal",
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "2", "OM_CACHE_OUT_WAIT_TIMEOUT_MS": "40000", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "20"}))
	// batches of two do not wait
	for i := 0; i < 5; i++ {
		t0 := time.Now()
		o.CreateN([]*pb.Ticket{lib.TagTicket("a"), lib.TagTicket("b")})
		if d := time.Since(t0); d > 30*time.Second {
			r.Violate("the server does not use a configured value", map[string]any{"what": "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD 2", "two creations took": d.String()})
		}
	}
	// one alone waits for its partner
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("c")})
		done <- err
	}()
	select {
	case <-done:
		r.Violate("the server does not use a configured value", map[string]any{"what": "OM_CACHE_OUT_WAIT_TIMEOUT_MS 40000", "a single creation took": "less than 2 s"})
	case <-time.After(2 * time.Second):
	}
	o.Create(lib.TagTicket("d"))
	<-done
	if _, _, total := s.Stats(); total > 0 {
		r.Violate("the server does not use a configured value", map[string]any{"what": "OM_STATE_STORAGE_TYPE memory", "storage connections": total})
	}
	if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err != nil {
		r.Violate("the server does not use a configured value", map[string]any{"what": "PORT", "error": err.Error()})
	} else {
		c.Close()
	}
	r.Eval(true, "memory", port)
	o.Stop()
}

// c29defaults: nothing set but the storage type and the port.
func c29defaults(r *lib.Run) {
	o := r.StartOM("om", map[string]string{"OM_STATE_STORAGE_TYPE": "memory"})
	ctx, cancel := lib.Ctx()
	defer cancel()
	ids := make([]string, 501)
	for i := range ids {
		ids[i] = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), i)
	}
	if _, err := o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids[:500]}); err != nil {
		r.Violate("a default is not as documented", map[string]any{"what": "500 updates per call", "error": err.Error()})
	}
	if _, err := o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids}); status.Code(err) != codes.InvalidArgument {
		r.Violate("a default is not as documented", map[string]any{"what": "500 updates per call", "501 ids": fmt.Sprint(err)})
	}
	id := o.Create(lib.TagTicket("def"))
	o.Activate(id)
	o.AwaitVisible("def", id)
	t := o.QueryTag("def")[id]
	if t == nil {
		r.Violate("an activated ticket is not in its pool", id)
	}
	if d := t.GetExpirationTime().AsTime().Sub(t.GetAttributes().GetCreationTime().AsTime()); d != 600*time.Second {
		r.Violate("a default is not as documented", map[string]any{"what": "ticket TTL of 600 s", "seen": d.String()})
	}
	if l := o.Log(); !strings.Contains(l, `"level":"info"`) || strings.Contains(l, `"level":"debug"`) {
		r.Violate("a default is not as documented", map[string]any{"what": "JSON logs of level info", "log": l[:min(len(l), 800)]})
	}
	r.Eval(true, "defaults")
	o.Stop()
}
