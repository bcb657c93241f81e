package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C22"] = c22 }

func c22(r *lib.Run) {
	r.Rule = "one evaluation = one completed call (any RPC, gRPC or REST, valid, invalid, cancelled or failing), one metrics scrape or one component operation while om-core, the sample functions, their server library and the state storage components run under the Go race detector; the oracle is the race detector: any report is a violation, as is a crash. Non-trivial: other calls of other kinds were in progress"
	r.Assumptions = []string{"the race detector reports a conflicting pair of accesses only if both were executed and their happens-before order was observed missing"}
	for i := 0; i < r.N(4, 16); i++ {
		c22round(r, i)
	}
	r.Comp("comp-cache-race", "race")
	r.Comp("comp-memory-race", "race")
	r.Comp("comp-redis-race", "race")
	r.Comp("vfrace", "race")
}

type idBag struct {
	mu  sync.Mutex
	ids []string
	ago time.Duration // how old made-up ids are
}

func (b *idBag) add(id string) {
	b.mu.Lock()
	b.ids = append(b.ids, id)
	if len(b.ids) > 3000 {
		b.ids = append([]string{}, b.ids[1500:]...)
	}
	b.mu.Unlock()
}

func (b *idBag) some(rng *rand.Rand, max int) (out []string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for n := 1 + rng.Intn(max); n > 0; n-- {
		switch {
		case len(b.ids) == 0 || rng.Intn(30) == 0:
			out = append(out, fmt.Sprintf("%d-%d", time.Now().Add(-b.ago).UnixMilli(), rng.Intn(9)))
		case rng.Intn(2) == 0: // recent ones: accesses from several sides
			out = append(out, b.ids[len(b.ids)-1-rng.Intn(min(len(b.ids), 20))])
		default:
			out = append(out, lib.Pick(rng, b.ids))
		}
	}
	return
}

func c22round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("round", round))
	env := lib.Merge(lib.FastEnv(), map[string]string{
		"GORACE": "halt_on_error=0 history_size=3", "OM_CACHE_TICKET_TTL_SECS": "2", "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": "1",
		"OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(round%2 == 1), "OM_MMF_TIMEOUT_SECS": "2",
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": lib.Pick(rng, []string{"1", "5", "50"}), "OM_CACHE_IN_WAIT_TIMEOUT_MS": lib.Pick(rng, []string{"2", "20", "100"}),
		"OM_LOGGING_LEVEL": []string{"error", "debug", "trace", "info"}[round%4], "OM_LOGGING_FORMAT": []string{"json", "text"}[round%2],
		"OM_MAX_STATE_UPDATES_PER_CALL": "40", "OM_VERBOSE": fmt.Sprint(round%4 == 1)})
	var s *fredis.Server
	if round%2 == 0 {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()), map[string]string{"OM_REDIS_POOL_MAX_ACTIVE": "5", "OM_REDIS_POOL_MAX_IDLE": "2"})
		var n atomic.Int64
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			if n.Add(1)%97 == 0 {
				return fredis.Action{DropAfter: n.Load()%2 == 0, DropBefore: n.Load()%2 == 1}
			}
			return fredis.Action{}
		})
	}
	o := r.StartOM("omrace", env)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var kinds, running [12]atomic.Int64
	bag := &idBag{}
	// functions: matches from what they received, errors, slow ones, silence
	fns := []*lib.MMF{r.NewMMF(), r.NewMMF(), r.NewMMF()}
	for k, m := range fns {
		var mu sync.Mutex
		mr := r.Rng(fmt.Sprint("fn", round, k))
		m.Default = func(c *lib.Call) error {
			mu.Lock()
			fr := rand.New(rand.NewSource(mr.Int63()))
			mu.Unlock()
			pools, _ := lib.PoolsOf(c.Chunks)
			var ids []string
			for _, p := range pools {
				for id := range p {
					ids = append(ids, id)
				}
			}
			ids = append(ids, "nonsense", "1-1")
			for n := fr.Intn(12); n > 0; n-- {
				if c.Send(genMatch(fr, fmt.Sprint(fr.Int63()), ids)) != nil {
					return nil
				}
				if fr.Intn(4) == 0 {
					time.Sleep(time.Duration(fr.Intn(5)) * time.Millisecond)
				}
			}
			switch fr.Intn(40) {
			case 0:
				return status.Error(codes.Internal, "scripted")
			case 1:
				select { // until the timeout of om-core
				case <-c.Stream.Context().Done():
				case <-time.After(5 * time.Second):
				}
			case 2:
				c.Stream.Send(&pb.StreamedMmfResponse{})
			}
			return nil
		}
	}
	work := func(kind int, workers int, f func(rng *rand.Rand, n int)) {
		for w := 0; w < workers; w++ {
			wg.Add(1)
			wr := r.Rng(fmt.Sprint(round, kind, w))
			go func() {
				defer wg.Done()
				for n := 0; !stop.Load(); n++ {
					running[kind].Add(1)
					f(wr, n)
					other := false
					for k := range running {
						other = other || k != kind && running[k].Load() > 0
					}
					running[kind].Add(-1)
					kinds[kind].Add(1)
					r.Eval(other, round, kind, w, n)
					if s != nil && wr.Intn(40) == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			}()
		}
	}
	ctxOf := func(wr *rand.Rand, cancelOne int) (context.Context, context.CancelFunc) {
		if wr.Intn(cancelOne) == 0 {
			return context.WithTimeout(context.Background(), time.Duration(wr.Intn(8000))*time.Microsecond)
		}
		return lib.Ctx()
	}
	hang := func(what string, err error) {
		if status.Code(err) == codes.DeadlineExceeded {
			r.Count("calls_given_up", 1)
		}
	}
	rest := func(method, path string, m proto.Message, wr *rand.Rand) {
		b, _ := protojson.Marshal(m)
		ctx, cancel := ctxOf(wr, 6)
		defer cancel()
		q, _ := http.NewRequestWithContext(ctx, method, "http://127.0.0.1:58081"+path, bytes.NewReader(b))
		q.Header.Set("Content-Type", "application/json")
		resp, err := http.DefaultClient.Do(q)
		if err != nil {
			return
		}
		b, _ = io.ReadAll(resp.Body)
		resp.Body.Close()
		if path == "/v2/tickets" {
			var x struct{ TicketId string }
			if json.Unmarshal(b, &x) == nil && x.TicketId != "" {
				bag.add(x.TicketId)
			}
		}
	}
	ticket := func(wr *rand.Rand) *pb.Ticket {
		t := &pb.Ticket{Attributes: lib.GenAttrs(wr), Extensions: jsonExt(wr)}
		if t.Attributes == nil {
			t.Attributes = &pb.Ticket_FilterableData{}
		}
		if wr.Intn(3) > 0 {
			t.Attributes.Tags = append(t.Attributes.Tags, "t")
		} else if wr.Intn(3) == 0 {
			t.Attributes = &pb.Ticket_FilterableData{}
		}
		if wr.Intn(4) == 0 { // an id that is not for the caller to choose
			t.Id = lib.Pick(wr, []string{"x", "1-1", fmt.Sprintf("%d-0", time.Now().UnixMilli())})
		}
		switch wr.Intn(8) {
		case 0:
			t.Attributes.CreationTime = lib.InvalidTime(wr)
		case 1:
			t.ExpirationTime = lib.InvalidTime(wr)
		case 2:
			t.Attributes.CreationTime = timestamppb.New(time.Now().Add(time.Duration(wr.Intn(4000)-3000) * time.Millisecond))
		case 3, 4, 5, 6:
			t.ExpirationTime = timestamppb.New(time.Now().Add(time.Duration(wr.Intn(2500)) * time.Millisecond))
		}
		return t
	}
	work(0, 4, func(wr *rand.Rand, n int) {
		ctx, cancel := ctxOf(wr, 10)
		defer cancel()
		x, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: ticket(wr)})
		if err == nil {
			bag.add(x.TicketId)
		}
		hang("create", err)
	})
	work(1, 1, func(wr *rand.Rand, n int) {
		rest("POST", "/v2/tickets", &pb.CreateTicketRequest{Ticket: ticket(wr)}, wr)
	})
	work(2, 3, func(wr *rand.Rand, n int) {
		ctx, cancel := ctxOf(wr, 10)
		defer cancel()
		_, err := o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: append(bag.some(wr, 20), lib.Pick(wr, []string{"", "x", "5-5"}))})
		hang("activate", err)
	})
	work(3, 2, func(wr *rand.Rand, n int) {
		ctx, cancel := ctxOf(wr, 10)
		defer cancel()
		_, err := o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: bag.some(wr, 6)})
		hang("deactivate", err)
	})
	work(4, 1, func(wr *rand.Rand, n int) {
		switch wr.Intn(3) {
		case 0:
			rest("POST", "/v2/tickets:activate", &pb.ActivateTicketsRequest{TicketIds: bag.some(wr, 10)}, wr)
		case 1:
			rest("DELETE", "/v2/tickets:deactivate", &pb.DeactivateTicketsRequest{TicketIds: bag.some(wr, 10)}, wr)
		case 2:
			rest("POST", "/v2/assignments:create", &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: genAssignment(wr, "c"), Tickets: ticketsOf(bag.some(wr, 5))}}, wr)
		}
	})
	profile := func(wr *rand.Rand) *pb.MmfRequest {
		p := &pb.Profile{Name: lib.Pick(wr, []string{"a", "b", "c"}), Extensions: jsonExt(wr), Pools: map[string]*pb.Pool{"t": lib.TagPool("t")}}
		for k := wr.Intn(4); k > 0; k-- {
			p.Pools[fmt.Sprint(k)] = lib.GenPool(wr, lib.PoolOpt{CreationTime: true, InvalidTime: wr.Intn(3) == 0})
		}
		q := &pb.MmfRequest{Profile: p}
		for k, m := range fns {
			if wr.Intn(3) > 0 {
				q.Mmfs = append(q.Mmfs, m.Spec(fmt.Sprint("f", k)))
			}
		}
		switch wr.Intn(10) {
		case 0:
			q.Mmfs = append(q.Mmfs, &pb.MatchmakingFunctionSpec{Name: "r", Host: "127.0.0.1", Port: 1, Type: pb.MatchmakingFunctionSpec_REST})
		case 1:
			q.Mmfs = append(q.Mmfs, &pb.MatchmakingFunctionSpec{Name: "refused", Host: "127.0.0.1", Port: 1, Type: pb.MatchmakingFunctionSpec_GRPC})
		case 2:
			q.Mmfs = append(q.Mmfs, q.Mmfs...)
		}
		return q
	}
	work(5, 8, func(wr *rand.Rand, n int) {
		ctx, cancel := ctxOf(wr, 6)
		defer cancel()
		ms, err := o.Invoke(ctx, profile(wr))
		r.Count("matches_received", len(ms))
		hang("invoke", err)
	})
	work(6, 1, func(wr *rand.Rand, n int) { rest("POST", "/v2/matches:fetch", profile(wr), wr) })
	work(7, 2, func(wr *rand.Rand, n int) {
		ctx, cancel := ctxOf(wr, 10)
		defer cancel()
		ids := bag.some(wr, 8)
		if wr.Intn(8) == 0 {
			ids = append(ids, "")
		}
		_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: genAssignment(wr, "c"), Tickets: ticketsOf(ids)}})
		hang("assign", err)
	})
	work(8, 14, func(wr *rand.Rand, n int) { // several watchers share tickets
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(wr.Intn(lib.Pick(wr, []int{50, 600, 4000})))*time.Millisecond)
		defer cancel()
		w := watch(ctx, o.C, append(bag.some(wr, 12), lib.Pick(wr, []string{"1-1", "x-y", "", "99"})), nil)
		for _, l := range w.got {
			r.Count("assignments_received", len(l))
		}
	})
	work(9, 1, func(wr *rand.Rand, n int) {
		b, _ := protojson.Marshal(&pb.WatchAssignmentsRequest{TicketIds: bag.some(wr, 4)})
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(wr.Intn(2000))*time.Millisecond)
		defer cancel()
		q, _ := http.NewRequestWithContext(ctx, "POST", "http://127.0.0.1:58081/v2/assignments:watch", bytes.NewReader(b))
		if resp, err := http.DefaultClient.Do(q); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	})
	work(10, 2, func(wr *rand.Rand, n int) {
		if resp, err := http.Get("http://127.0.0.1:2223/metrics"); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		time.Sleep(5 * time.Millisecond)
	})
	work(11, 6, func(wr *rand.Rand, n int) { // invalid requests
		ctx, cancel := lib.Ctx()
		defer cancel()
		many := func() (l []string) { // more than allowed
			for k := 41 + wr.Intn(200); k > 0; k-- {
				l = append(l, "1-1")
			}
			return
		}
		bad := func() *pb.MmfRequest { // no pool of it is valid
			q := profile(wr)
			q.Profile.Name = fmt.Sprint("bad", wr.Intn(3))
			q.Profile.Pools = map[string]*pb.Pool{"bad": {CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: lib.InvalidTime(wr)}}, "t": lib.TagPool("nobody")}
			q.Mmfs = q.Mmfs[:wr.Intn(len(q.Mmfs)+1)]
			return q
		}
		for k := 1 + wr.Intn(4); k > 0; k-- {
			switch wr.Intn(12) {
			case 0:
				o.C.CreateTicket(ctx, &pb.CreateTicketRequest{})
			case 1:
				o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{})
			case 2:
				o.Invoke(ctx, &pb.MmfRequest{})
			case 3:
				o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{})
			case 4:
				watch(ctx, o.C, nil, nil)
			case 5, 6:
				o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: many()})
			case 7, 8:
				o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: many()})
			case 9:
				o.Invoke(ctx, bad())
			case 10:
				o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Tickets: ticketsOf(many())}})
			case 11:
				o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{"", "x", "9 9"}})
			}
		}
		time.Sleep(time.Duration(wr.Intn(2000)) * time.Microsecond)
	})
	end := time.Now().Add(time.Duration(r.N(14, 90)) * time.Second)
	for time.Now().Before(end) {
		time.Sleep(500 * time.Millisecond)
		o.CheckLog()
	}
	stop.Store(true)
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(150 * time.Second):
		_, prof, _ := lib.Goroutines()
		r.Violate("calls are not answered", map[string]any{"goroutines": prof[:min(len(prof), 4000)]})
	}
	names := []string{"create", "create_rest", "activate", "deactivate", "updates_rest", "invoke", "invoke_rest", "assign", "watch", "watch_rest", "scrape", "invalid"}
	for k, n := range names {
		r.Count("calls_"+n, int(kinds[k].Load()))
		if kinds[k].Load() == 0 {
			r.Inconclusive("no %s calls completed", n)
		}
	}
	o.Stop()
	r.Count("server_runs_under_the_race_detector", 1)
	if r.WantSample() {
		m := map[string]any{"round": round, "redis": s != nil}
		for k, n := range names {
			m[n] = kinds[k].Load()
		}
		r.Sample(m)
	}
}
