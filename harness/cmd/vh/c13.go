package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C13"] = c13 }

func c13(r *lib.Run) {
	r.Rule = "one evaluation = one watched ticket id (the message it got is compared with the assignments stored for that id, and with the latest one applied before the watch began) or one CreateAssignments call (judged on the storage log). Watches before, during and after the assignment, reassignments, refused writes, missing ids, retention around TTL and TTL+additional TTL. Non-trivial: the id was assigned / the call had a ticket"
	defer side(r, "s")()
	defer c13patient(r)()
	c13blank(r)
	for i := 0; i < r.N(2, 12); i++ {
		c13deliver(r, i, "redis", false)
		c13deliver(r, i, "redis", true)
		c13deliver(r, i, "memory", false)
	}
	for i := 0; i < r.N(1, 4); i++ {
		c13big(r, i, []string{"memory", "redis"}[(i+int(r.Seed))%2])
		c13retention(r, i, "redis")
		c13retention(r, i, "memory")
		for k := 0; k < 2; k++ {
			c13jump(r, 2*i+k, "memory")
			c13jump(r, 2*i+k, "redis")
		}
	}
}

// c13patient: a watch that waits long for its assignments delivers them like any other.
func c13patient(r *lib.Run) func() {
	o := r.StartOM("ommulti", lib.Merge(lib.FastEnv(), map[string]string{"VERIF_SECONDARY": "1"}))
	ids := o.CreateN([]*pb.Ticket{lib.TagTicket("p"), lib.TagTicket("p"), lib.TagTicket("p"), lib.TagTicket("p")})
	ctx, cancel := context.WithTimeout(context.Background(), 590*time.Second)
	done := make(chan *watchResult, 1)
	go func() { done <- watch(ctx, o.C, ids, nil) }()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer cancel()
		for i, at := range []int{25, 35, 15, r.N(33, 300)} { // seconds from the one before
			time.Sleep(time.Duration(at) * time.Second)
			actx, stop := lib.Ctx()
			_, err := o.C.CreateAssignments(actx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: fmt.Sprint("c", i)}, Tickets: ticketsOf(ids[i : i+1])}})
			stop()
			if err != nil {
				r.Violate("CreateAssignments fails without reason", err.Error())
			}
		}
		var res *watchResult
		select {
		case res = <-done:
		case <-time.After(30 * time.Second):
			cancel()
			res = <-done
		}
		for i, id := range ids {
			if len(res.got[id]) != 1 || res.got[id][0].GetConnection() != fmt.Sprint("c", i) {
				r.Violate("a watch does not deliver an assignment exactly once", map[string]any{"watch": "waiting long", "position": i, "messages": len(res.got[id]), "end": fmt.Sprint(res.err), "lasted_s": res.end.Sub(res.start).Seconds()})
			}
			r.Eval(true, "patient", i)
		}
		r.Max("longest_watch_ms", res.end.Sub(res.start).Milliseconds())
		o.Stop()
	}()
	return wg.Wait
}

// c13blank: an assignment without any content is either refused or stored and delivered.
func c13blank(r *lib.Run) {
	for _, storage := range []string{"redis", "memory"} {
		env := lib.FastEnv()
		var s *fredis.Server
		if storage == "redis" {
			s = newRedis(r)
			env = lib.Merge(env, lib.RedisEnv(s.Port()))
		}
		o := r.StartOM("om", env)
		for round := 0; round < 4; round++ {
			ids := o.CreateN([]*pb.Ticket{lib.TagTicket("b"), lib.TagTicket("b")})
			ctx, cancel := lib.Ctx()
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{}, Tickets: ticketsOf(ids)}})
			cancel()
			r.Eval(true, "blank", storage, round)
			if err != nil {
				r.Count("blank_assignments_refused", 1)
				continue
			}
			r.Count("blank_assignments_accepted", 1)
			wctx, stop := context.WithTimeout(context.Background(), 30*time.Second)
			res := watch(wctx, o.C, ids, nil)
			stop()
			for _, id := range ids {
				if len(res.got[id]) != 1 || !proto.Equal(res.got[id][0], &pb.Assignment{}) {
					r.Violate("the assignment of a ticket is acknowledged but not delivered", map[string]any{"storage": storage, "assignment": "without content", "messages": len(res.got[id]), "end": fmt.Sprint(res.err)})
				}
			}
		}
		o.Stop()
		if s != nil {
			s.Close()
		}
	}
}

func genAssignment(rng *rand.Rand, conn string) *pb.Assignment {
	a := &pb.Assignment{Connection: conn}
	if rng.Intn(2) == 0 {
		a.Extensions = lib.GenExt(rng, 4)
	}
	return a
}

// watchResult of one WatchAssignments call.
type watchResult struct {
	ids   []string
	start time.Time
	got   map[string][]*pb.Assignment
	when  map[string]time.Time
	err   error // of the end of the stream
	end   time.Time
}

func watch(ctx context.Context, c pb.OpenMatchServiceClient, ids []string, on func(id string, a *pb.Assignment)) *watchResult {
	w := &watchResult{ids: ids, start: time.Now(), got: map[string][]*pb.Assignment{}, when: map[string]time.Time{}}
	st, err := c.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
	for err == nil {
		var m *pb.StreamedWatchAssignmentsResponse
		m, err = st.Recv()
		if err == nil {
			w.got[m.GetId()] = append(w.got[m.GetId()], m.GetAssignment())
			w.when[m.GetId()] = time.Now()
			if on != nil {
				on(m.GetId(), m.GetAssignment())
			}
		}
	}
	w.err, w.end = err, time.Now()
	return w
}

// c13big: one watch of very many tickets, and one of few whose assignments are replaced by ones that differ in nothing
// but a detail.
func c13big(r *lib.Run, round int, storage string) {
	name := fmt.Sprint("big", storage, round)
	rng := r.Rng(name)
	env := lib.FastEnv()
	if storage == "redis" {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	n := r.N(5000, 12000)
	ids := make([]string, n)
	for i := range ids {
		ids[i] = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 5000+i)
	}
	rng.Shuffle(n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	want := map[string]*pb.Assignment{}
	give := func(ids []string, a *pb.Assignment) {
		for len(ids) > 0 {
			k := min(len(ids), 1+rng.Intn(490))
			ro := &pb.Roster{Assignment: a}
			for _, id := range ids[:k] {
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
			}
			ctx, cancel := lib.Ctx()
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
			cancel()
			if err != nil {
				r.Violate("CreateAssignments fails without reason", err.Error())
			}
			for _, id := range ids[:k] {
				want[id] = a
			}
			ids = ids[k:]
		}
	}
	// the same connection, but other extensions; the same extensions, another connection; back to the first again
	first := &pb.Assignment{Connection: "10.0.0.1:7000", Extensions: lib.GenExt(rng, 3)}
	second := &pb.Assignment{Connection: "10.0.0.1:7000", Extensions: map[string]*anyT{"token": lib.Any("second")}}
	third := &pb.Assignment{Connection: "10.0.0.1:7000"}
	fourth := &pb.Assignment{Connection: "10.0.0.2:7000", Extensions: second.Extensions}
	give(ids[:n/2], first)
	give(ids[:n/2/4], second)
	give(ids[n/2/4:n/4], third)
	give(ids[n/4:n/4+50], fourth)
	give(ids[n/4+50:n/4+100], second)
	give(ids[n/4+50:n/4+100], first)
	o.Barrier()
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	started := make(chan bool)
	var once sync.Once
	done := make(chan *watchResult, 1)
	go func() {
		done <- watch(ctx, o.C, ids, func(string, *pb.Assignment) { once.Do(func() { close(started) }) })
	}()
	select {
	case <-started:
	case <-time.After(60 * time.Second):
		r.Violate("an assignment applied before the watch began is not delivered", map[string]any{"watched": n, "storage": storage})
	}
	give(ids[n/2:], &pb.Assignment{Connection: "later", Extensions: lib.GenExt(rng, 2)})
	res := <-done
	det := map[string]any{"watched": n, "tickets_delivered": len(res.got), "end": fmt.Sprint(res.err), "storage": storage, "lasted_s": res.end.Sub(res.start).Seconds()}
	if res.err != io.EOF {
		r.Violate("a watch whose tickets are all assigned does not end successfully", det)
	}
	for i, id := range ids {
		if l := res.got[id]; len(l) != 1 || lib.Det(l[0]) != lib.Det(want[id]) {
			det["position"], det["ticket"], det["messages"], det["last_assignment"] = i, id, fmt.Sprint(l), want[id].String()
			r.Violate("a watched ticket does not get its assignment exactly once", det)
		}
		r.Eval(true, name, i)
	}
	if len(res.got) != n {
		r.Violate("a watch delivers assignments of tickets it does not name", det)
	}
	r.Count("tickets_of_large_watches", n)
	o.Stop()
}

func c13deliver(r *lib.Run, round int, storage string, faults bool) {
	name := fmt.Sprint(storage, faults, round)
	rng := r.Rng(name)
	env := lib.FastEnv()
	var s *fredis.Server
	if storage == "redis" {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 7, 50}))})
	}
	o := r.StartOM("om", env)
	var ts []*pb.Ticket
	for i := 0; i < 240; i++ {
		ts = append(ts, lib.TagTicket("c13"))
	}
	ids := o.CreateN(ts)
	// groups: assigned before the watches / while watched / in both phases
	type asg struct {
		a     *pb.Assignment
		acked bool
		n     int // order of issue per id
	}
	var mu sync.Mutex
	issued := map[string][]asg{} // per id, in order of issue (calls per id are sequential)
	var frng *rand.Rand
	var fmu sync.Mutex
	refused := map[string]int{}
	if faults {
		frng = r.Rng(name + "f")
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			if c.Name == "XADD" && len(c.Args) > 3 && c.Args[2] == "assign" {
				fmu.Lock()
				defer fmu.Unlock()
				if frng.Intn(8) == 0 {
					refused[c.Args[3]]++
					return fredis.Action{Err: lib.StorageError()}
				}
			}
			return fredis.Action{}
		})
	}
	callN := 0
	assign := func(rng *rand.Rand, roster []string) { // one CreateAssignments call
		mu.Lock()
		callN++
		conn := fmt.Sprintf("%s/conn-%d", name, callN)
		mu.Unlock()
		a := genAssignment(rng, conn)
		if rng.Intn(12) == 0 { // the game server address may be left to the extensions
			a.Connection = ""
			a.Extensions = map[string]*anyT{conn: lib.Any(conn)}
		}
		req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Name: "r", Assignment: a}}
		empty := 0
		for _, id := range roster {
			if rng.Intn(40) == 0 {
				req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{})
				empty++
			}
			req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{Tags: []string{"ignored"}}})
		}
		if rng.Intn(40) == 0 {
			req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{})
			empty++
		}
		l0 := 0
		if s != nil {
			l0 = s.Len()
		}
		fmu.Lock()
		before := map[string]int{}
		for _, id := range roster {
			before[id] = refused[id]
		}
		fmu.Unlock()
		mu.Lock()
		for _, id := range roster {
			issued[id] = append(issued[id], asg{a: a})
		}
		mu.Unlock()
		ctx, cancel := lib.Ctx()
		_, err := o.C.CreateAssignments(ctx, req)
		cancel()
		det := map[string]any{"call": conn, "roster": len(roster), "tickets_without_id": empty, "error": fmt.Sprint(err), "storage": storage}
		if err != nil && (status.Code(err) == codes.DeadlineExceeded) {
			r.Violate("CreateAssignments does not return", det)
		}
		stored := map[string]int{}
		if s != nil {
			for _, u := range lib.DecodeAll(l0, s.Entries(l0)) {
				if u.Cmd != "assign" {
					continue
				}
				x := &pb.Assignment{}
				if proto.Unmarshal(u.Val, x) == nil && lib.Det(x) == lib.Det(a) {
					stored[u.Key]++
				}
			}
			nref := 0
			for _, id := range roster {
				fmu.Lock()
				ref := refused[id] - before[id]
				fmu.Unlock()
				if ref > 0 {
					nref++
				}
				want := 1
				if ref > 0 {
					want = 0
				}
				if stored[id] != want {
					det["ticket"], det["stored"], det["writes_refused"] = id, stored[id], ref
					r.Violate("the assignment of a ticket is not stored exactly once", det)
				}
			}
			det["refused"] = nref
			if len(stored) > len(roster)-nref {
				r.Violate("an assignment is stored for a ticket that is not in the roster", det)
			}
			if nref > 0 && err == nil {
				r.Violate("CreateAssignments succeeds although an assignment was not stored", det)
			}
			if nref == 0 && empty == 0 && err != nil {
				r.Violate("CreateAssignments fails without reason", det)
			}
			r.Count("assignments_refused", nref)
		} else if empty == 0 && err != nil {
			r.Violate("CreateAssignments fails without reason", det)
		}
		if empty > 0 {
			r.Count("calls_with_missing_ids", 1)
			if err == nil {
				r.Violate("CreateAssignments succeeds although a ticket has no id", det)
			}
		}
		mu.Lock()
		for _, id := range roster {
			l := issued[id]
			l[len(l)-1].acked = stored[id] > 0 || s == nil
		}
		mu.Unlock()
		r.Eval(len(roster) > 0, "call", conn)
	}
	// phase 1: assign two thirds, some of them twice
	p1 := append([]string{}, ids[:160]...)
	for k := 0; k < 2; k++ {
		rng.Shuffle(len(p1), func(i, j int) { p1[i], p1[j] = p1[j], p1[i] })
		for i := 0; i < len(p1); {
			n := 1 + rng.Intn(20)
			if i+n > len(p1) {
				n = len(p1) - i
			}
			if k == 0 || rng.Intn(3) == 0 {
				assign(rng, p1[i:i+n])
			}
			i += n
		}
	}
	// the ones refused, until every ticket of the first group is assigned
	for try := 0; faults && try < 2000; try++ {
		var miss []string
		for _, id := range ids[:160] {
			ok := false
			for _, x := range issued[id] {
				ok = ok || x.acked
			}
			if !ok {
				miss = append(miss, id)
			}
		}
		if len(miss) == 0 {
			break
		}
		assign(rng, miss[:1])
	}
	o.Barrier()
	settled := map[string]int{} // number of assignments issued per id before the watches
	for id, l := range issued {
		settled[id] = len(l)
	}
	// phase 2: watches while assignments continue
	var wg sync.WaitGroup
	var results []*watchResult
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	for w := 0; w < 40; w++ {
		wr := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(wr.Intn(1500)) * time.Millisecond)
			set := append([]string{}, ids...)
			wr.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
			set = set[:1+wr.Intn(lib.Pick(wr, []int{1, 10, 200}))]
			res := watch(ctx, o.C, set, nil)
			mu.Lock()
			results = append(results, res)
			mu.Unlock()
		}()
	}
	// every worker owns ids, so that assignments of one id are issued one after the other
	for w := 0; w < 4; w++ {
		wr := rand.New(rand.NewSource(rng.Int63()))
		mine := []string{}
		for i := w; i < len(ids); i += 4 {
			if i >= 160 || wr.Intn(4) == 0 { // reassign some of the first group
				mine = append(mine, ids[i])
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for len(mine) > 0 {
				n := 1 + wr.Intn(8)
				if n > len(mine) {
					n = len(mine)
				}
				assign(wr, mine[:n])
				// refused ones are tried again, so that every watch can end
				for try := 0; ; try++ {
					var miss []string
					mu.Lock()
					for _, id := range mine[:n] {
						l := issued[id]
						if !l[len(l)-1].acked {
							miss = append(miss, id)
						}
					}
					mu.Unlock()
					if len(miss) == 0 || try > 200 {
						break
					}
					assign(wr, miss)
				}
				mine = mine[n:]
				time.Sleep(time.Duration(wr.Intn(60)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	// phase 3: watches after everything settled get the latest
	o.Barrier()
	final := watch(ctx, o.C, ids, nil)
	for _, w := range append(results, final) {
		det := map[string]any{"watched": len(w.ids), "received": len(w.got), "round": name, "lasted_s": w.end.Sub(w.start).Seconds(), "end": fmt.Sprint(w.err)}
		if w.err != io.EOF {
			r.Violate("a watch of assigned tickets does not end successfully", det)
		}
		for _, id := range w.ids {
			l := w.got[id]
			det["id"] = id
			if len(l) != 1 {
				det["messages"] = len(l)
				r.Violate("a watch does not deliver exactly one message for an assigned ticket", det)
			}
			idx := -1
			for i, x := range issued[id] {
				if lib.Det(x.a) == lib.Det(l[0]) {
					idx = i
					if !x.acked {
						r.Violate("a watch delivers an assignment that was refused", det)
					}
				}
			}
			det["got"] = l[0].GetConnection()
			if idx < 0 {
				r.Violate("a watch delivers an assignment that was never made for this ticket", det)
			}
			// the latest that was certainly applied before the watch began
			n := settled[id]
			if w == final {
				n = len(issued[id])
			}
			low := -1
			for i := 0; i < n; i++ {
				if issued[id][i].acked {
					low = i
				}
			}
			if idx < low {
				det["latest_before_the_watch"] = issued[id][low].a.GetConnection()
				r.Violate("a watch delivers an assignment that was already replaced when it began", det)
			}
			r.Eval(true, name, w.start.UnixNano(), id)
			delete(w.got, id)
		}
		if len(w.got) > 0 {
			r.Violate("a watch delivers messages for tickets it does not watch", det)
		}
		r.Count("watches", 1)
	}
	if r.WantSample() {
		r.Sample(map[string]any{"round": name, "tickets": len(ids), "assignment_calls": callN, "watches": len(results) + 1})
	}
	if s != nil {
		s.SetHook(nil)
	}
	o.Stop()
}

// c13retention: assignments of tickets of chosen age are there until TTL + additional TTL, and gone afterwards.
func c13retention(r *lib.Run, round int, storage string) {
	const ttl, add = 4, 5
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttl), "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": fmt.Sprint(add)})
	var s *fredis.Server
	if storage == "redis" {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	life := time.Duration(ttl+add) * time.Second
	// tickets of chosen ages (an assignment may be made for a ticket that is already gone)
	type tk struct {
		id   string
		born time.Time
	}
	var tks []tk
	var roster []*pb.Ticket
	for i := 119; i >= 0; i-- {
		born := time.Now().Add(-time.Duration(i) * 100 * time.Millisecond)
		t := tk{fmt.Sprintf("%d-%d", born.UnixMilli(), i%4), born}
		if s != nil { // these tickets really existed; many are gone when they are assigned
			if _, err := s.AddAt(born.UnixMilli(), int64(i%4), "ticket", string(lib.StoredTicket(lib.TagTicket("retention"), []int{-5, 1, ttl}[i%3]))); err != nil {
				r.Inconclusive("%v", err)
			}
		}
		tks = append(tks, t)
		roster = append(roster, &pb.Ticket{Id: t.id})
	}
	o := r.StartOM("om", env)
	ctx, cancel := lib.Ctx()
	defer cancel()
	a := &pb.Assignment{Connection: "retention"}
	if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: a, Tickets: roster}}); err != nil {
		r.Violate("CreateAssignments fails without reason", err.Error())
	}
	o.Barrier()
	var marks []time.Time
	var present, absent int
	begin := time.Now()
	for time.Since(begin) < life+4*time.Second {
		m := time.Now()
		o.Barrier()
		marks = append(marks, m)
		// a fresh assignment as control, then one watch per ticket
		ctl := o.Create(&pb.Ticket{ExpirationTime: timestamppb.New(time.Now().Add(time.Duration(len(marks)%3) * 50 * time.Millisecond))})
		if len(marks)%2 == 0 { // expired and gone before it is assigned
			time.Sleep(400 * time.Millisecond)
			r.Count("assignments_of_expired_tickets", 1)
		}
		if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: a, Tickets: []*pb.Ticket{{Id: ctl}}}}); err != nil {
			r.Violate("CreateAssignments fails without reason", err.Error())
		}
		o.Barrier()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, t := range tks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start := time.Now()
				wctx, stop := context.WithTimeout(ctx, 40*time.Second)
				defer stop()
				got := false
				var ctlAt time.Time
				var once sync.Once
				watch(wctx, o.C, []string{t.id, ctl}, func(id string, x *pb.Assignment) {
					if id == t.id {
						got = true
					}
					if id == ctl {
						ctlAt = time.Now()
						once.Do(func() { time.AfterFunc(900*time.Millisecond, stop) })
					}
					if got && !ctlAt.IsZero() {
						stop()
					}
				})
				mu.Lock()
				defer mu.Unlock()
				n := 0
				for _, m := range marks {
					if m.After(t.born.Add(life)) {
						n++
					}
				}
				det := map[string]any{"storage": storage, "ticket": t.id, "age_at_watch_s": start.Sub(t.born).Seconds(), "ttl_s": ttl, "additional_s": add, "delivered": got}
				switch {
				case got && n >= 3 && start.Sub(t.born) > life+2500*time.Millisecond:
					r.Violate("an assignment is still there after TTL and additional TTL", det)
				case ctlAt.IsZero():
					det["ticket"] = ctl
					r.Violate("the assignment of a ticket that expired before is not delivered to its watches", det)
				case !got && ctlAt.Sub(t.born) < life-1200*time.Millisecond:
					r.Violate("an assignment is gone before TTL and additional TTL", det)
				case got:
					present++
				default:
					absent++
				}
				r.Eval(true, "retention", storage, round, t.id, len(marks))
			}()
		}
		wg.Wait()
	}
	r.Count("retention_present", present)
	r.Count("retention_absent", absent)
	if present == 0 || absent == 0 {
		r.Inconclusive("retention: present %d absent %d", present, absent)
	}
	o.Stop()
}
