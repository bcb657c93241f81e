package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C19"] = c19 }

func c19(r *lib.Run) {
	r.Rule = "one evaluation = one ticket or assignment compared between one instance and the state given by the stored updates, at a quiescent point (all instances proved caught up by a marker), or one acknowledged call looked up in the log. 3-4 instances on one storage, updates through all of them concurrently, instances killed with SIGKILL at random moments under load and restarted, instances started late, read and write faults. Non-trivial: the ticket was updated through at least two instances, or the instance was restarted or started late"
	for i := 0; i < r.N(3, 12); i++ {
		c19round(r, i)
	}
}

type c19inst struct {
	mu      sync.RWMutex
	o       *lib.OM
	starts  int
	primary bool
}

func (x *c19inst) get() *lib.OM { x.mu.RLock(); defer x.mu.RUnlock(); return x.o }

func c19round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint(round))
	s := newRedis(r)
	defer s.Close()
	env := func(i int) map[string]string {
		e := lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
			"OM_LOGGING_LEVEL":                 "panic",
			"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint([]int{300, 10000, 1000, 2000}[(round+i)%4]),
			"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint([]int{50, 1, 7, 20}[(round+i)%4]),
			"OM_CACHE_IN_WAIT_TIMEOUT_MS":      fmt.Sprint([]int{3, 20, 60, 3}[i%4]),
		})
		if i > 0 {
			e["VERIF_SECONDARY"] = "1"
		}
		return e
	}
	// what others stored earlier, up to eight minutes of the ten that updates are kept for
	hr := r.Rng(fmt.Sprint("history", round))
	began := time.Now().Add(-8 * time.Minute)
	var old []string
	for k := 0; k < 40; k++ {
		at := began.Add(time.Duration(k) * 12 * time.Second).UnixMilli()
		s.SetClock(func() int64 { return at })
		var es [][]string
		for n := 3; n > 0; n-- {
			es = append(es, []string{"ticket", string(lib.StoredTicket(lib.TagTicket("c19", fmt.Sprintf("h-%d-%d-%d", round, k, n)), 600))})
			if hr.Intn(2) == 0 {
				es = append(es, []string{"activate", fmt.Sprint("@", len(es)-1)})
			}
			if len(old) > 0 {
				switch x := lib.Pick(hr, old); hr.Intn(4) {
				case 0:
					es = append(es, []string{"activate", x})
				case 1:
					es = append(es, []string{"deactivate", x})
				case 2:
					es = append(es, assignEntry(x, fmt.Sprint("h-", k, "-", n)))
				}
			}
		}
		for i, id := range s.AddManyRef(es) {
			if es[i][0] == "ticket" {
				old = append(old, id)
			}
		}
	}
	s.SetClock(func() int64 { return time.Now().UnixMilli() })
	r.Count("entries_stored_earlier", s.Len())
	insts := []*c19inst{{primary: true}, {}, {}}
	for i, x := range insts {
		x.o = r.StartOM("ommulti", env(i))
		x.starts = 1
	}
	if round%3 == 2 { // read and write faults all along
		frng := r.Rng(fmt.Sprint("f", round))
		var fmu sync.Mutex
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			fmu.Lock()
			defer fmu.Unlock()
			if (c.Name == "XREAD" || c.Name == "XADD") && frng.Intn(25) == 0 {
				switch frng.Intn(3) {
				case 0:
					return fredis.Action{Err: lib.StorageError()}
				case 1:
					return fredis.Action{DropBefore: true}
				}
				return fredis.Action{DropAfter: true}
			}
			return fredis.Action{}
		})
	}
	slow := round%3 == 1
	if slow { // stored at once, acknowledged late: other instances update the same ticket in between
		drng := r.Rng(fmt.Sprint("d", round))
		var dmu sync.Mutex
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			dmu.Lock()
			defer dmu.Unlock()
			if (c.Name == "XADD" || c.Name == "XTRIM") && drng.Intn(4) == 0 {
				return fredis.Action{DelayReply: time.Duration(drng.Intn(200)) * time.Millisecond}
			}
			return fredis.Action{}
		})
	}
	type ack struct {
		key, val string
	}
	var amu sync.Mutex
	var acks []ack
	note := func(k, v string) { amu.Lock(); acks = append(acks, ack{k, v}); amu.Unlock() }
	var ids []string
	via := map[string]map[int]bool{}
	pick := func(rng *rand.Rand) string {
		amu.Lock()
		defer amu.Unlock()
		if len(ids) == 0 {
			return ""
		}
		if rng.Intn(2) == 0 { // recent ones more often
			k := len(ids) - 40
			if slow {
				k = len(ids) - 5
			}
			if k < 0 {
				k = 0
			}
			return ids[k+rng.Intn(len(ids)-k)]
		}
		return lib.Pick(rng, ids)
	}
	var failed, acked, kills atomic.Int64
	var seq atomic.Int64
	load := func(stop chan struct{}, wg *sync.WaitGroup, w int, phase int) {
		defer wg.Done()
		wr := r.Rng(fmt.Sprint("w", round, phase, w))
		for n := 0; ; n++ {
			select {
			case <-stop:
				return
			default:
			}
			k := wr.Intn(len(insts))
			o := insts[k].get()
			ctx, cancel := lib.Ctx()
			var err error
			id := pick(wr)
			switch x := wr.Intn(10); {
			case id == "" || x < 3:
				mark := fmt.Sprintf("t-%d-%d", round, seq.Add(1))
				var resp *pb.CreateTicketResponse
				resp, err = o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: lib.TagTicket("c19", mark)})
				if err == nil {
					id = resp.GetTicketId()
					note("ticket "+id, mark)
					amu.Lock()
					ids = append(ids, id)
					via[id] = map[int]bool{k: true}
					amu.Unlock()
				}
			case x < 7:
				_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
				if err == nil {
					note("activate "+id, "")
				}
			case x < 9:
				_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
				if err == nil {
					note("deactivate "+id, "")
				}
			default:
				conn := fmt.Sprintf("a-%d-%d", round, seq.Add(1))
				_, err = o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: conn}, Tickets: []*pb.Ticket{{Id: id}}}})
				if err == nil {
					note("assign "+id, conn)
				}
			}
			cancel()
			if status.Code(err) == codes.DeadlineExceeded {
				r.Violate("a call is not answered", map[string]any{"round": round, "kills": kills.Load(), "instance": k})
			}
			if err != nil {
				failed.Add(1)
				time.Sleep(3 * time.Millisecond)
				continue
			}
			acked.Add(1)
			if id != "" {
				amu.Lock()
				via[id][k] = true
				amu.Unlock()
			}
		}
	}
	for phase := 0; phase < r.N(3, 5); phase++ {
		stop := make(chan struct{})
		var wg sync.WaitGroup
		workers := 8
		if slow {
			workers = 40
		}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go load(stop, &wg, w, phase)
		}
		wg.Add(1)
		go func() { // updates of one ticket within one millisecond, as fast clients of other instances make them
			defer wg.Done()
			br := r.Rng(fmt.Sprint("burst", round, phase))
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(5+br.Intn(40)) * time.Millisecond):
				}
				var es [][]string
				for n := 1 + br.Intn(4); n > 0; n-- {
					ref := fmt.Sprint("@", len(es))
					es = append(es, []string{"ticket", string(lib.StoredTicket(lib.TagTicket("c19", fmt.Sprintf("b-%d-%d", round, seq.Add(1))), 600))})
					for m := br.Intn(5); m > 0; m-- {
						switch x := br.Intn(7); {
						case x < 3:
							es = append(es, []string{"activate", ref})
						case x < 6:
							es = append(es, []string{"deactivate", ref})
						default:
							v, _ := proto.Marshal(&pb.Assignment{Connection: fmt.Sprint("b-", seq.Add(1))})
							es = append(es, []string{"assign", ref, "connection", string(v)})
						}
					}
				}
				s.AddManyRef(es)
				r.Count("bursts", 1)
			}
		}()
		for k := 0; k < r.N(2, 4); k++ { // kill and restart under load
			time.Sleep(time.Duration(100+rng.Intn(500)) * time.Millisecond)
			i := rng.Intn(len(insts))
			x := insts[i]
			x.get().Kill()
			kills.Add(1)
			time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
			o := r.StartOM("ommulti", env(i))
			x.mu.Lock()
			x.o = o
			x.starts++
			x.mu.Unlock()
		}
		if phase == 1 && len(insts) == 3 { // a late one
			x := &c19inst{starts: 2, o: r.StartOM("ommulti", env(3))}
			close(stop)
			wg.Wait()
			insts = append(insts, x)
		} else {
			time.Sleep(200 * time.Millisecond)
			close(stop)
			wg.Wait()
		}
		c19compare(r, s, insts, round, phase, func(id string) bool { return len(via[id]) > 1 })
	}
	// everything acknowledged is in the log
	have := map[string][]string{}
	for _, u := range lib.DecodeAll(0, s.Entries(0)) {
		v := ""
		switch u.Cmd {
		case "ticket":
			if t := u.Ticket.GetAttributes().GetTags(); len(t) > 1 {
				v = t[1]
			}
		case "assign":
			a := &pb.Assignment{}
			proto.Unmarshal(u.Val, a)
			v = a.GetConnection()
		}
		k := u.Cmd + " " + u.Key
		have[k] = append(have[k], v)
	}
	for _, a := range acks {
		l := have[a.key]
		i := 0
		for ; i < len(l) && l[i] != a.val; i++ {
		}
		if i == len(l) {
			r.Violate("an acknowledged update is not stored", map[string]any{"update": a.key, "value": a.val, "kills": kills.Load()})
		}
		l[i] = "\x00used"
		r.Eval(true, "ack", round, a.key, a.val)
	}
	r.Count("calls_acknowledged", int(acked.Load()))
	r.Count("calls_failed", int(failed.Load()))
	r.Count("kills", int(kills.Load()))
	r.Count("stream_entries", s.Len())
	if r.WantSample() {
		r.Sample(map[string]any{"round": round, "instances": len(insts), "kills": kills.Load(), "acknowledged": acked.Load(), "failed": failed.Load(), "log": s.Len()})
	}
	s.SetHook(nil)
	for _, x := range insts {
		x.get().Stop()
	}
}

func c19compare(r *lib.Run, s *fredis.Server, insts []*c19inst, round, phase int, multi func(string) bool) {
	// a killed instance may still have had something on the wire: wait until the log is still
	n := s.Len()
	for i := 0; i < 20; i++ {
		time.Sleep(20 * time.Millisecond)
		if m := s.Len(); m != n {
			n, i = m, 0
		}
	}
	es := s.AddMany([][]string{{"ticket", string(lib.StoredTicket(lib.TagTicket(fmt.Sprintf("mark-%d-%d", round, phase)), 600))}})
	s.AddMany([][]string{{"activate", es[0]}})
	tickets, active, assigned := lib.Fold(lib.DecodeAll(0, s.Entries(0)))
	var ws []string
	for id := range assigned {
		ws = append(ws, id)
	}
	for i, x := range insts {
		o := x.get()
		o.AwaitVisible(fmt.Sprintf("mark-%d-%d", round, phase), es[0])
		obs := o.Query(map[string]*pb.Pool{"p": lib.TagPool("c19")})
		vis := obs.Pools["p"]
		for id, t := range tickets {
			if t == nil || len(t.GetAttributes().GetTags()) == 0 || t.Attributes.Tags[0] != "c19" {
				continue
			}
			if (vis[id] != nil) != active[id] {
				r.Violate("an instance offers other tickets than the stored updates give", map[string]any{"instance": i, "starts": x.starts, "ticket": id, "active_by_log": active[id], "in_pool": vis[id] != nil, "round": round, "phase": phase})
			}
			if v := vis[id]; v != nil {
				c := proto.Clone(t).(*pb.Ticket)
				c.Id = id
				if lib.Det(c) != lib.Det(v) {
					r.Violate("an instance offers a ticket with other content than stored", map[string]any{"instance": i, "stored": c.String(), "offered": v.String()})
				}
			}
			r.Eval(x.starts > 1 || multi(id), "t", round, phase, i, id)
		}
		for id := range vis {
			if tickets[id] == nil {
				r.Violate("an instance offers a ticket that is not stored", id)
			}
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		res := watch(ctx, o.C, ws, nil)
		cancel()
		for id, v := range assigned {
			a := &pb.Assignment{}
			proto.Unmarshal(v, a)
			if res.err != io.EOF || len(res.got[id]) != 1 || lib.Det(res.got[id][0]) != lib.Det(a) {
				r.Violate("an instance has another assignment than stored", map[string]any{"instance": i, "starts": x.starts, "ticket": id, "stored": a.String(), "got": fmt.Sprint(res.got[id]), "end": fmt.Sprint(res.err)})
			}
			r.Eval(x.starts > 1, "a", round, phase, i, id)
		}
		r.Count("instances_compared", 1)
	}
}
