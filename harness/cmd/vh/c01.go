package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C01"] = c01 }

// logIndex follows the storage log and finds entries by id.
type logIndex struct {
	s    *fredis.Server
	mu   sync.Mutex
	next int
	byID map[string]lib.Upd
}

func (l *logIndex) get(id string) (lib.Upd, bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	es := l.s.Entries(l.next)
	for i, e := range es {
		u := lib.Decode(l.next+i, e)
		l.byID[u.ID] = u
	}
	l.next += len(es)
	u, ok := l.byID[id]
	return u, ok
}

func newIndex(s *fredis.Server) *logIndex { return &logIndex{s: s, byID: map[string]lib.Upd{}} }

func newRedis(r *lib.Run) *fredis.Server {
	s, err := fredis.New()
	if err != nil {
		r.Inconclusive("fake redis: %v", err)
	}
	r.OnExit(func() {
		if u := s.Unknown(); len(u) > 0 {
			fmt.Println("note: storage commands not implemented by the fake redis:", u)
		}
	})
	return s
}

// noise keeps other kinds of updates coming (valid and invalid ones) until stop is closed.
func noise(o *lib.OM, rng *rand.Rand, stop chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	for n := 0; ; n++ {
		select {
		case <-stop:
			return
		default:
		}
		ctx, cancel := lib.Ctx()
		id := fmt.Sprintf("%d-%d", time.Now().Add(-time.Hour).UnixMilli(), rng.Intn(50))
		switch rng.Intn(7) {
		case 0:
			o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id, "bad", id}})
		case 1:
			o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
		case 2: // an assignment without content cannot be stored by the redis storage
			o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{}, Tickets: []*pb.Ticket{{Id: id}}}})
		case 3:
			o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: id}, {Id: ""}, {Id: id}}}})
		case 4: // a caller that goes away
			c2, cancel2 := context.WithTimeout(ctx, time.Duration(rng.Intn(4))*time.Millisecond)
			o.C.CreateTicket(c2, &pb.CreateTicketRequest{Ticket: lib.TagTicket("gone")})
			cancel2()
		case 5:
			c2, cancel2 := context.WithTimeout(ctx, time.Duration(rng.Intn(4))*time.Millisecond)
			o.C.ActivateTickets(c2, &pb.ActivateTicketsRequest{TicketIds: []string{id, id, id}})
			cancel2()
		case 6:
			o.C.CreateTicket(ctx, &pb.CreateTicketRequest{})
		}
		cancel()
	}
}

func c01(r *lib.Run) {
	r.Rule = "one evaluation = one CreateTicket call with a unique marker, made concurrently with other calls sharing its write batch (valid, invalid, cancelled) and with storage faults; judged at the moment it returns against the storage log. Non-trivial: the call succeeded and its ticket was compared, or it failed while a fault was being injected"
	r.Assumptions = []string{"the fake Redis server implements XADD/XTRIM/XREAD as Redis does", "a call that has not returned after 90 s (normal: milliseconds) hangs"}
	defer side(r, "c")()
	rounds := r.N(4, 40)
	for i := 0; i < rounds; i++ {
		c01redis(r, i)
	}
	for i := 0; i < r.N(2, 10); i++ {
		c01memory(r, i)
	}
	c01identical(r, false)
	c01identical(r, true)
}

func c01redis(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("redis", round))
	s := newRedis(r)
	defer s.Close()
	env := lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 3, 10, 50})),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":     fmt.Sprint(lib.Pick(rng, []int{1, 5, 25})),
	})
	o := r.StartOM("om", env)
	idx := newIndex(s)
	var ids sync.Map
	var faults atomic.Int64
	faultMode := round % 4 // 0: none, 1: error replies, 2: dropped connections, 3: outages
	var fmu sync.Mutex
	frng := r.Rng(fmt.Sprint("faults", round))
	if faultMode == 1 || faultMode == 2 {
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			fmu.Lock()
			defer fmu.Unlock()
			if c.Name != "XADD" && c.Name != "XTRIM" {
				return fredis.Action{}
			}
			x := frng.Intn(100)
			if faultMode == 1 && x < 12 {
				faults.Add(1)
				return fredis.Action{Err: lib.StorageError()}
			}
			if faultMode == 2 && x < 4 {
				faults.Add(1)
				if frng.Intn(2) == 0 {
					return fredis.Action{DropBefore: true}
				}
				return fredis.Action{DropAfter: true}
			}
			return fredis.Action{}
		})
	}
	stop := make(chan struct{})
	var nwg sync.WaitGroup
	for i := 0; i < 4; i++ {
		nwg.Add(1)
		go noise(o, r.Rng(fmt.Sprint("noise", round, i)), stop, &nwg)
	}
	if faultMode == 3 {
		nwg.Add(1)
		go func() {
			defer nwg.Done()
			for {
				select {
				case <-stop:
					s.SetDown(false)
					return
				case <-time.After(150 * time.Millisecond):
					s.SetDown(true)
					faults.Add(1)
				}
				time.Sleep(150 * time.Millisecond)
				s.SetDown(false)
			}
		}()
	}
	workers, each := 48, r.N(25, 60)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("w", round, w))
		go func() {
			defer wg.Done()
			for n := 0; n < each; n++ {
				marker := fmt.Sprintf("m-%d-%d-%d", round, w, n)
				t := lib.TagTicket(marker)
				if wr.Intn(30) == 0 {
					t.Extensions = lib.GenExt(wr, 3)
					t.Attributes.StringArgs = map[string]string{"pad": lib.Pad(wr.Intn(300000))}
				}
				if wr.Intn(4) == 0 {
					t.Id = "client-id"
				}
				f0 := faults.Load()
				ctx, cancel := lib.Ctx()
				hurry := wr.Intn(5) == 0
				if hurry { // a caller with little time: an error is fine, a success means what it always means
					cancel()
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1000+wr.Intn(60_000))*time.Microsecond)
				}
				resp, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
				cancel()
				if hurry && err != nil {
					r.Count("creates_out_of_time", 1)
					continue
				}
				if status.Code(err) == codes.DeadlineExceeded {
					r.Violate("CreateTicket hangs", map[string]any{"marker": marker, "round": round, "error": err.Error()})
				}
				if err != nil {
					if faultMode == 0 {
						r.Violate("CreateTicket fails without a fault", map[string]any{"marker": marker, "error": err.Error()})
					}
					r.Count("creates_failed_under_faults", 1)
					r.Eval(true, "fail", round, w, n)
					if faultMode == 3 {
						time.Sleep(10 * time.Millisecond)
					}
					continue
				}
				u, ok := idx.get(resp.GetTicketId())
				switch {
				case resp.GetTicketId() == "":
					r.Violate("CreateTicket succeeds with an empty id", map[string]any{"marker": marker, "fault_mode": faultMode})
				case !ok:
					r.Violate("CreateTicket succeeds but its id is not in storage when it returns", map[string]any{"marker": marker, "id": resp.GetTicketId()})
				case u.Cmd != "ticket" || u.Ticket == nil:
					r.Violate("the id returned by CreateTicket belongs to another kind of update", map[string]any{"marker": marker, "id": u.ID, "stored": u.Cmd, "key": u.Key})
				case len(u.Ticket.GetAttributes().GetTags()) != 1 || u.Ticket.Attributes.Tags[0] != marker:
					r.Violate("the id returned by CreateTicket belongs to another caller's ticket", map[string]any{"marker": marker, "id": u.ID, "stored_tags": u.Ticket.GetAttributes().GetTags()})
				}
				if prev, dup := ids.LoadOrStore(resp.GetTicketId(), marker); dup {
					r.Violate("two creations returned the same id", map[string]any{"id": resp.GetTicketId(), "markers": []any{prev, marker}})
				}
				r.Count("creates_ok", 1)
				r.Eval(true, "ok", round, w, n)
				if r.WantSample() && f0 != faults.Load() {
					r.Sample(map[string]any{"marker": marker, "id": resp.GetTicketId(), "fault_mode": faultMode, "log_index": u.Idx})
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	nwg.Wait()
	s.SetHook(nil)
	s.SetDown(false)
	// with the faults over, a creation must work again
	okAgain := lib.Await(60*time.Second, func() bool {
		ctx, cancel := lib.Ctx()
		defer cancel()
		resp, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("after")})
		return err == nil && resp.GetTicketId() != ""
	})
	if !okAgain {
		r.Violate("CreateTicket keeps failing after the faults ended", map[string]any{"round": round})
	}
	// nothing stored twice: at most one entry per marker
	seen := map[string]string{}
	for _, u := range lib.DecodeAll(0, s.Entries(0)) {
		if u.Cmd != "ticket" || u.Ticket == nil || len(u.Ticket.GetAttributes().GetTags()) != 1 {
			continue
		}
		m := u.Ticket.Attributes.Tags[0]
		if !strings.HasPrefix(m, "m-") {
			continue
		}
		if p, dup := seen[m]; dup {
			r.Violate("one CreateTicket call stored two tickets", map[string]any{"marker": m, "ids": []string{p, u.ID}})
		}
		seen[m] = u.ID
	}
	r.Count("faults_injected", int(faults.Load()))
	r.Count("stream_entries", s.Len())
	o.Stop()
}

// c01identical makes many creations with the very same content at the same time: each is a ticket of its own.
func c01identical(r *lib.Run, memory bool) {
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "20"})
	var idx *logIndex
	if !memory {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		idx = newIndex(s)
	}
	o := r.StartOM("om", env)
	rng := r.Rng(fmt.Sprint("same", memory))
	seen := map[string]int{}
	total := 0
	for k := 0; k < r.N(25, 150); k++ {
		now := time.Now().Truncate(time.Second)
		t := &pb.Ticket{Attributes: lib.GenAttrs(rng), Extensions: lib.GenExt(rng, 2), Id: lib.Pick(rng, []string{"", "1-1", "same"})}
		if t.Attributes == nil {
			t.Attributes = &pb.Ticket_FilterableData{}
		}
		t.Attributes.Tags = []string{fmt.Sprintf("same-%d", k)}
		t.Attributes.CreationTime, t.ExpirationTime = timestamppb.New(now), timestamppb.New(now.Add(300*time.Second))
		n := 2 + rng.Intn(40)
		ts := make([]*pb.Ticket, n)
		for i := range ts {
			ts[i] = t
		}
		ids := o.CreateN(ts)
		if rng.Intn(3) == 0 { // once more, a little later
			ids = append(ids, o.Create(t))
		}
		for _, id := range ids {
			if prev, dup := seen[id]; dup {
				r.Violate("two creations of identical tickets returned the same id", map[string]any{"id": id, "groups": []int{prev, k}, "memory": memory, "ticket": t.String()})
			}
			seen[id] = k
			if idx != nil {
				u, ok := idx.get(id)
				if !ok || u.Ticket == nil || len(u.Ticket.GetAttributes().GetTags()) != 1 || u.Ticket.Attributes.Tags[0] != t.Attributes.Tags[0] {
					r.Violate("a created ticket is not stored under its id", map[string]any{"id": id, "stored": u.Cmd, "ticket": t.String()})
				}
			}
			r.Eval(true, "same", memory, k, id)
		}
		total += len(ids)
		if memory || k%5 == 0 {
			o.Activate(ids...)
			o.Barrier()
			if got := len(o.QueryTag(t.Attributes.Tags[0])); got != len(ids) {
				r.Violate("identical tickets are merged", map[string]any{"created": len(ids), "in_pool": got, "memory": memory})
			}
		}
	}
	r.Count("identical_tickets", total)
	o.Stop()
}

func c01memory(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("mem", round))
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{1, 4, 50}))}))
	n := r.N(1500, 6000)
	ts := make([]*pb.Ticket, n)
	for i := range ts {
		ts[i] = lib.TagTicket("mem", fmt.Sprintf("m-%d", i))
		ts[i].Id = lib.Pick(rng, []string{"", "x", "1-1"})
	}
	stop := make(chan struct{})
	var nwg sync.WaitGroup
	for i := 0; i < 3; i++ {
		nwg.Add(1)
		go func() { // updates of other kinds on the tickets of nobody
			defer nwg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				ctx, cancel := lib.Ctx()
				o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{fmt.Sprintf("7-%d", k), "zzz"}})
				cancel()
			}
		}()
	}
	ids := o.CreateN(ts)
	close(stop)
	nwg.Wait()
	seen := map[string]int{}
	for i, id := range ids {
		if j, dup := seen[id]; dup {
			r.Violate("two creations returned the same id (memory storage)", map[string]any{"id": id, "calls": []int{i, j}})
		}
		seen[id] = i
	}
	o.Activate(ids...)
	o.Barrier()
	vis := o.QueryTag("mem")
	for i, id := range ids {
		t := vis[id]
		if t == nil {
			r.Violate("a created and activated ticket is not stored under its id (memory storage)", map[string]any{"id": id, "call": i})
		}
		if !proto.Equal(&pb.Ticket_FilterableData{Tags: t.GetAttributes().GetTags()}, &pb.Ticket_FilterableData{Tags: ts[i].Attributes.Tags}) {
			r.Violate("the returned id belongs to another caller's ticket (memory storage)", map[string]any{"id": id, "want": ts[i].Attributes.Tags, "got": t.GetAttributes().GetTags()})
		}
		r.Eval(true, "mem", round, i)
	}
	r.Count("creates_ok_memory", n)
	o.Stop()
}
