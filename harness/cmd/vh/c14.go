package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C14"] = c14 }

func c14(r *lib.Run) {
	r.Rule = "one evaluation = one watch (ended by its time limit, by its client cancelling, by its client's connection closing, by a REST client going away, with none, some or all of its tickets assigned, read or not read by its client) or one comparison of the server's goroutine and connection counts with the counts before. Non-trivial: at least one watched ticket was not assigned when the watch ended"
	for i := 0; i < r.N(1, 5); i++ {
		c14round(r, i, "memory")
		c14round(r, i, "redis")
	}
	c14long(r)
	c14real(r)
}

// c14real: watches of tickets that exist and live on (unlike their watches) do not stay behind when the client goes.
func c14real(r *lib.Run) {
	o := r.StartOM("om", lib.FastEnv()) // ticket TTL: 10 minutes
	var ts []*pb.Ticket
	for i := 0; i < 120; i++ {
		ts = append(ts, lib.TagTicket("real"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids[:60]...)
	o.Barrier()
	wctx, wcancel := lib.Ctx()
	watch(wctx, o.C, nil, nil)
	wcancel()
	base, _, err := lib.Goroutines()
	if err != nil {
		r.Inconclusive("no goroutine profile")
	}
	cpu := func() float64 { // seconds used by the process so far
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", o.Pid()))
		f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
		var u, s float64
		fmt.Sscan(f[11], &u)
		fmt.Sscan(f[12], &s)
		return (u + s) / 100
	}
	for w := 0; w < 20; w++ {
		ctx, cancel := context.WithCancel(context.Background())
		if w%2 == 1 {
			ctx, cancel = context.WithTimeout(context.Background(), 300*time.Millisecond)
		}
		st, err := o.C.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids[w%5*20 : w%5*20+40]})
		if err != nil {
			r.Violate("watch fails", err.Error())
		}
		time.Sleep(time.Duration(20*(w%4)) * time.Millisecond)
		if w%2 == 0 {
			cancel()
		}
		st.Recv()
		cancel()
		r.Eval(true, "real", w)
	}
	var wg sync.WaitGroup
	for w := 0; w < r.N(90, 300); w++ { // a great many watches of one or two tickets each
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithCancel(context.Background())
			if w%3 == 1 {
				ctx, cancel = context.WithTimeout(context.Background(), time.Duration(100+w)*time.Millisecond)
			}
			defer cancel()
			st, err := o.C.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids[w%100 : w%100+1+w%2]})
			if err != nil {
				r.Violate("watch fails", err.Error())
			}
			if w%3 != 1 {
				time.Sleep(time.Duration(w) * time.Millisecond)
				cancel()
			}
			st.Recv()
			r.Eval(true, "small", w)
		}()
	}
	wg.Wait()
	many := make([]string, r.N(3000, 10000)) // as many as a whole match of a large game
	for i := range many {
		many[i] = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 5000+i)
	}
	for w := 0; w < 3; w++ {
		ctx, cancel := context.WithCancel(context.Background())
		st, err := o.C.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: many})
		if err != nil {
			r.Violate("watch fails", err.Error())
		}
		time.Sleep(time.Duration(50+200*w) * time.Millisecond)
		cancel()
		st.Recv()
		r.Eval(true, "many", w)
	}
	n, prof := 0, ""
	if !lib.Await(15*time.Second, func() bool {
		time.Sleep(100 * time.Millisecond)
		x, p, err := lib.Goroutines()
		n, prof = x, p
		return err == nil && x <= base+30
	}) {
		r.Violate("background work remains after watches whose clients went away", map[string]any{"goroutines_before": base, "goroutines_after": n, "watched_tickets": 20 * 40, "profile": prof[:min(len(prof), 3000)]})
	}
	c0 := cpu()
	time.Sleep(2 * time.Second)
	used := cpu() - c0
	r.Max("cpu_ms_in_2s_after_watches", int64(used*1000))
	if used > 1.5 {
		r.Violate("the server keeps working after watches whose clients went away", map[string]any{"cpu_s": used, "in_s": 2})
	}
	o.Barrier()
	o.Stop()
}

func c14round(r *lib.Run, round int, storage string) {
	const ttl = 3
	name := fmt.Sprint(storage, round)
	rng := r.Rng(name)
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": "600"})
	if storage == "redis" {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	seq := 0
	var smu sync.Mutex
	fresh := func(n int, ahead time.Duration) (ids []string) { // ids of tickets of this moment
		smu.Lock()
		defer smu.Unlock()
		for ; n > 0; n-- {
			seq++
			ids = append(ids, fmt.Sprintf("%d-%d", time.Now().Add(ahead).UnixMilli(), 1000+seq))
		}
		return
	}
	assign := func(conn string, ids []string) {
		ctx, cancel := lib.Ctx()
		defer cancel()
		req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: conn}}}
		for _, id := range ids {
			req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
		}
		if _, err := o.C.CreateAssignments(ctx, req); err != nil {
			r.Violate("CreateAssignments fails without reason", err.Error())
		}
	}
	dial := func() (*grpc.ClientConn, pb.OpenMatchServiceClient, net.Conn) {
		var raw net.Conn
		var mu sync.Mutex
		c, err := grpc.Dial(fmt.Sprintf("passthrough:///127.0.0.1:%d", o.Port), grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithContextDialer(func(ctx context.Context, a string) (net.Conn, error) {
				var d net.Dialer
				x, err := d.DialContext(ctx, "tcp", a)
				mu.Lock()
				raw = x
				mu.Unlock()
				return x, err
			}))
		if err != nil {
			r.Inconclusive("%v", err)
		}
		c.Connect()
		lib.Await(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return raw != nil })
		mu.Lock()
		defer mu.Unlock()
		return c, pb.NewOpenMatchServiceClient(c), raw
	}
	// warm up: connections, REST gateway
	o.Barrier()
	lib.HTTP("POST", "/v2/tickets", []byte(`{"ticket":{}}`))
	wctx, wcancel := lib.Ctx()
	watch(wctx, o.C, nil, nil)
	wcancel()
	settle := func() int { // goroutines, once the number is stable
		last, same := -1, 0
		for i := 0; i < 200 && same < 4; i++ {
			time.Sleep(100 * time.Millisecond)
			n, _, err := lib.Goroutines()
			if err != nil {
				continue
			}
			if n == last {
				same++
			} else {
				last, same = n, 0
			}
		}
		return last
	}
	http.DefaultClient.CloseIdleConnections()
	base := settle()
	if base <= 0 {
		r.Inconclusive("no goroutine profile")
	}
	det := map[string]any{"storage": storage, "goroutines_before": base}
	judge := func(what string, watches int) {
		n := -1
		var prof string
		ok := lib.Await(40*time.Second, func() bool {
			time.Sleep(100 * time.Millisecond)
			x, p, err := lib.Goroutines()
			if err == nil {
				n, prof = x, p
			}
			return err == nil && x <= base+30
		})
		r.Max("goroutines_after "+what, int64(n))
		r.Eval(true, "goroutines", name, what)
		if !ok {
			det["goroutines_after"], det["watched_tickets"], det["profile"] = n, watches, prof[:min(len(prof), 3000)]
			r.Violate("background work remains after "+what, det)
		}
	}

	// 0. watches of nothing
	for w := 0; w < 4; w++ {
		ctx, cancel := context.WithTimeout(context.Background(), (ttl+25)*time.Second)
		if w%2 == 0 {
			res := watch(ctx, o.C, nil, nil)
			if ctx.Err() != nil || len(res.got) > 0 {
				r.Violate("a watch of no tickets does not end", map[string]any{"storage": storage, "end": fmt.Sprint(res.err), "messages": len(res.got)})
			}
		} else {
			req, _ := http.NewRequestWithContext(ctx, "POST", "http://127.0.0.1:58081/v2/assignments:watch", strings.NewReader(`{"ticket_ids":[]}`))
			if resp, err := http.DefaultClient.Do(req); err == nil {
				_, err = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if err != nil && ctx.Err() != nil {
					r.Violate("a watch of no tickets does not end", map[string]any{"storage": storage, "rest": true, "end": err.Error()})
				}
			} else if ctx.Err() != nil {
				r.Violate("a watch of no tickets does not end", map[string]any{"storage": storage, "rest": true, "end": err.Error()})
			}
		}
		cancel()
		r.Eval(false, "nothing", name, w)
	}
	http.DefaultClient.CloseIdleConnections()

	// 1. ended by the time limit, none / some / all assigned, one ticket "newer"
	var wg sync.WaitGroup
	for w := 0; w < 60; w++ {
		ahead := time.Duration(0)
		if w%5 == 4 {
			ahead = 1500 * time.Millisecond
		}
		ids := fresh(1+rng.Intn(30), 0)
		var some []string // only ids of recent tickets: assignments of others do not last
		if w%3 == 1 {
			some = append(some, ids[:(len(ids)+1)/2]...)
		}
		if ahead > 0 {
			ids = append(fresh(1, ahead), ids...)
		}
		if w%7 == 3 { // old tickets: still at least the TTL
			ids = append(ids, "1000000-1", "5-5")
		}
		if w%6 == 1 {
			ids = append(ids, "not an id", "", "99999x-1")
		}
		pause := time.Duration(rng.Intn(1000)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			assigned := make(chan time.Time, 1)
			if len(some) > 0 {
				go func() { time.Sleep(pause); assign("some", some); o.Barrier(); assigned <- time.Now() }()
			}
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			var low time.Time
			if ahead > 0 {
				var ms int64
				fmt.Sscanf(ids[0], "%d-", &ms)
				low = time.UnixMilli(ms).Add(ttl * time.Second)
			}
			res := watch(ctx, o.C, ids, nil)
			if x := res.start.Add(ttl * time.Second); x.After(low) {
				low = x
			}
			d := map[string]any{"storage": storage, "watched": len(ids), "assigned": len(some), "lasted_s": res.end.Sub(res.start).Seconds(), "end": fmt.Sprint(res.err), "minimum_s": low.Sub(res.start).Seconds()}
			if ctx.Err() != nil {
				r.Violate("a watch does not end when the lifetime of its tickets is over", d)
			}
			if res.end.Before(low) {
				r.Violate("a watch ends before the lifetime of its tickets is over", d)
			}
			if res.end.Sub(low) > 25*time.Second {
				r.Violate("a watch does not end when the lifetime of its tickets is over", d)
			}
			inTime := false
			if len(some) > 0 {
				inTime = (<-assigned).Before(res.end.Add(-1500 * time.Millisecond))
			}
			for _, id := range some {
				if inTime && len(res.got[id]) != 1 {
					d["ticket"], d["messages"] = id, len(res.got[id])
					r.Violate("an assignment made during a watch is not delivered exactly once", d)
				}
			}
			if len(res.got) > len(some) {
				r.Violate("a watch delivers messages for tickets that were not assigned", d)
			}
			r.Max("watch_ended_after_limit_ms", res.end.Sub(low).Milliseconds())
			r.Eval(len(some) < len(ids), "limit", name, w)
			r.Count("watches_ended_by_limit", 1)
		}()
	}
	wg.Wait()
	judge("the time limit of watches", 60*15)

	// 2. assignments arriving after their watches ended must not disturb anything
	var dead []string
	for w := 0; w < 30; w++ {
		ids := fresh(20, 0)
		dead = append(dead, ids...)
		ctx, cancel := context.WithCancel(context.Background())
		st, err := o.C.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
		if err != nil {
			r.Violate("watch fails", err.Error())
		}
		if w%2 == 0 {
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
		}
		cancel()
		st.Recv()
		r.Eval(true, "cancel", name, w)
	}
	for i := 0; i < len(dead); i += 200 {
		assign("late", dead[i:i+200])
	}
	time.Sleep(1500 * time.Millisecond)
	o.CheckLog()
	judge("cancelled watches whose tickets were assigned afterwards", len(dead))
	ctx, cancel := lib.Ctx()
	res := watch(ctx, o.C, dead[:100], nil)
	cancel()
	for _, id := range dead[:100] {
		if len(res.got[id]) != 1 || res.err != io.EOF {
			r.Violate("an assignment made after a watch ended does not reach a later watch", map[string]any{"id": id, "end": fmt.Sprint(res.err), "messages": len(res.got[id])})
		}
	}

	// 3. clients going away in other ways, tickets assigned or not, messages unread
	big := make([]string, 0)
	big = append(big, fresh(60, 0)...)
	{
		ctx, cancel := lib.Ctx()
		req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "big", Extensions: map[string]*anyT{"x": bigAny(60_000)}}}}
		for _, id := range big {
			req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
		}
		if _, err := o.C.CreateAssignments(ctx, req); err != nil {
			r.Violate("CreateAssignments fails without reason", err.Error())
		}
		cancel()
		o.Barrier()
	}
	long := fresh(1, time.Hour) // keeps the watch from ending by itself
	for w := 0; w < 24; w++ {
		ids := append(fresh(15, 0), long...)
		switch w % 4 {
		case 0: // the connection is cut
			c, cl, raw := dial()
			// a call that the server has not taken up yet may be repeated on a new connection
			cctx, ccancel := context.WithTimeout(context.Background(), 5*time.Second)
			st, err := cl.WatchAssignments(cctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
			if err == nil && raw != nil {
				time.Sleep(30 * time.Millisecond)
				if t, ok := raw.(*net.TCPConn); ok && w%8 == 0 {
					t.SetLinger(0)
				}
				raw.Close()
				st.Recv()
			}
			ccancel()
			c.Close()
			r.Count("watches_cut", 1)
		case 1: // nothing is read, then the client closes
			c, cl, _ := dial()
			if _, err := cl.WatchAssignments(context.Background(), &pb.WatchAssignmentsRequest{TicketIds: append(append([]string{}, big...), ids...)}); err == nil {
				time.Sleep(300 * time.Millisecond)
			}
			c.Close()
			r.Count("watches_unread", 1)
		case 2: // REST client disconnects
			c, err := net.Dial("tcp", "127.0.0.1:58081")
			if err == nil {
				b := `{"ticket_ids":["` + strings.Join(ids, `","`) + `"]}`
				fmt.Fprintf(c, "POST /v2/assignments:watch HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
				time.Sleep(100 * time.Millisecond)
				c.Close()
				r.Count("watches_rest_closed", 1)
			}
		case 3: // cancelled with part of the messages delivered
			ctx, cancel := lib.Ctx()
			st, err := o.C.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: append(append([]string{}, big[:10]...), ids...)})
			for k := 0; err == nil && k < 5; k++ {
				_, err = st.Recv()
			}
			cancel()
			r.Count("watches_cancelled_midway", 1)
		}
		r.Eval(true, "gone", name, w)
	}
	judge("watches whose clients went away", 24*16)
	o.CheckLog()
	o.Barrier()
	o.Stop()
}

// c14long: a watch lives at least as long as the ticket TTL, and an assignment made late in its life is delivered.
func c14long(r *lib.Run) {
	const ttl = 6
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl)}))
	var wg sync.WaitGroup
	// the newest of the watched tickets decides: ids whose time lies ahead (storage clock ahead of the server's)
	for _, ahead := range []time.Duration{5 * time.Second, 21 * time.Second, 68 * time.Second} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			at := time.Now().Add(ahead)
			ids := []string{fmt.Sprintf("%d-3", at.Add(-30*time.Second).UnixMilli()), fmt.Sprintf("%d-7", at.UnixMilli()), fmt.Sprintf("%d-0", at.Add(-ahead-time.Minute).UnixMilli())}
			ctx, cancel := context.WithTimeout(context.Background(), ahead+60*time.Second)
			defer cancel()
			res := watch(ctx, o.C, ids, nil)
			want := ahead + ttl*time.Second
			lasted := res.end.Sub(res.start)
			if ctx.Err() != nil || lasted > want+25*time.Second {
				r.Violate("a watch does not end when the lifetime of its tickets is over", map[string]any{"lasted_s": lasted.Seconds(), "newest_ticket_ahead_s": ahead.Seconds(), "ttl_s": ttl, "end": fmt.Sprint(res.err)})
			} else if lasted < want-500*time.Millisecond {
				r.Violate("a watch ends before the lifetime of its newest ticket is over", map[string]any{"lasted_s": lasted.Seconds(), "newest_ticket_ahead_s": ahead.Seconds(), "ttl_s": ttl, "end": fmt.Sprint(res.err)})
			}
			r.Eval(true, "ahead", ahead)
			r.Max("longest_unassigned_watch_ms", lasted.Milliseconds())
		}()
	}
	wg.Add(1)
	go func() { // assignments trickling in (for some of the tickets) do not prolong a watch
		defer wg.Done()
		var ids []string
		for i := 0; i < 150; i++ {
			ids = append(ids, fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 100+i))
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		done := make(chan *watchResult, 1)
		go func() { done <- watch(ctx, o.C, ids, nil) }()
		tick := time.NewTicker(400 * time.Millisecond)
		defer tick.Stop()
		var res *watchResult
		for i := 0; res == nil; i++ {
			select {
			case res = <-done:
			case <-tick.C:
				if i < len(ids)-1 { // the last one is never assigned
					actx, stop := lib.Ctx()
					_, err := o.C.CreateAssignments(actx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: ids[i]}}}})
					stop()
					if err != nil {
						r.Violate("CreateAssignments fails without reason", err.Error())
					}
				}
			}
		}
		lasted := res.end.Sub(res.start)
		if lasted > (ttl+25)*time.Second || ctx.Err() != nil {
			r.Violate("a watch does not end when the lifetime of its tickets is over", map[string]any{"lasted_s": lasted.Seconds(), "ttl_s": ttl, "assignments_delivered_meanwhile": len(res.got)})
		}
		if lasted < ttl*time.Second {
			r.Violate("a watch ends before the lifetime of its tickets is over", map[string]any{"lasted_s": lasted.Seconds(), "ttl_s": ttl})
		}
		r.Eval(true, "trickle")
		r.Count("trickled_assignments_delivered", len(res.got))
	}()
	for w := 0; w < 20; w++ {
		id := fmt.Sprintf("%d-%d", time.Now().UnixMilli(), w)
		at := time.Duration(200+w*200) * time.Millisecond // up to 4 s
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			done := make(chan *watchResult, 1)
			start := time.Now()
			go func() { done <- watch(ctx, o.C, []string{id}, nil) }()
			time.Sleep(at)
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: id}}}})
			if err != nil {
				r.Violate("CreateAssignments fails without reason", err.Error())
			}
			o.Barrier()
			applied := time.Since(start)
			res := <-done
			if len(res.got[id]) != 1 && applied < (ttl-1)*time.Second-500*time.Millisecond {
				r.Violate("an assignment made during the life of a watch is not delivered", map[string]any{"assigned_after_s": at.Seconds(), "watch_lasted_s": res.end.Sub(res.start).Seconds(), "ttl_s": ttl, "end": fmt.Sprint(res.err)})
			}
			if len(res.got[id]) == 1 && res.err != io.EOF {
				r.Violate("a complete watch does not end successfully", fmt.Sprint(res.err))
			}
			r.Eval(false, "long", w)
			r.Count("late_assignments_delivered", len(res.got[id]))
		}()
	}
	wg.Wait()
	o.Stop()
}
