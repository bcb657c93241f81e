package main

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C05"] = c05 }

func c05(r *lib.Run) {
	r.Rule = "one evaluation = one update, creation, assignment or invocation request, invalid in one documented way or mixing malformed and well-formed ids, followed by a comparison of the whole storage log with exactly the updates the request is entitled to. Non-trivial: every one (requests differ in kind, size, limit and id shapes)"
	for i := 0; i < r.N(5, 25); i++ {
		c05round(r, i)
	}
	c05memory(r)
}

var malformedIDs = []string{"", "-", "1-", "-1", "abc", "12", "1-2-3", "1-2x", "x1-2", " 1-2", "1-2 ", "1-2\n", "\n1-2", "1--2", "1_2", "1.0-2", "+1-2", "1-+2", "٣-٤", "1-2,3-4", "0x1-2", "1e3-0",
	"-1-2", "1- 2", "1\x002-3", "１-２", "id 1-2 id", "1-2-", "--", "a-b", strings.Repeat("9", 50) + "-", "*", "$", "0-0-0", "nil-1", "1-2\r\n"}

func c05round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint(round))
	s := newRedis(r)
	defer s.Close()
	limit := []int{500, 1, 3, 17, 100}[round%5]
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_MAX_STATE_UPDATES_PER_CALL":    fmt.Sprint(limit),
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(lib.Pick(rng, []int{2, 50})),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":     "1",
	}))
	mmf := r.NewMMF()
	var want []string // "cmd key"
	check := func(what string, detail any) {
		// the marker comes after everything the request may have stored
		ctx, cancel := lib.Ctx()
		defer cancel()
		m := fmt.Sprintf("%d-%d", 424242, len(want))
		if _, err := o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{m}}); err != nil {
			r.Violate("a valid activation is rejected", map[string]any{"id": m, "error": err.Error(), "after": what})
		}
		want = append(want, "activate "+m)
		es := lib.DecodeAll(0, s.Entries(0))
		var got []string
		for _, u := range es {
			got = append(got, u.Cmd+" "+u.Key)
		}
		for i := 0; i < len(got) || i < len(want); i++ {
			g, w := "(nothing)", "(nothing)"
			if i < len(got) {
				g = got[i]
			}
			if i < len(want) {
				w = want[i]
			}
			if g != w {
				r.Violate("storage does not hold exactly the permitted updates", map[string]any{"request": what, "detail": detail, "position": i, "want": w, "got": g, "limit": limit})
			}
		}
		r.Eval(true, round, len(want))
		if r.WantSample() && len(want)%7 == 3 {
			r.Sample(map[string]any{"request": what, "detail": detail, "limit": limit, "log_length": len(got)})
		}
	}
	invalid := func(what string, err error, detail any) {
		if status.Code(err) != codes.InvalidArgument {
			r.Violate("invalid request not rejected with InvalidArgument", map[string]any{"request": what, "error": fmt.Sprint(err), "detail": detail, "limit": limit})
		}
		r.Count("rejected_requests", 1)
		check(what, detail)
	}
	goodID := func() string {
		switch rng.Intn(5) {
		case 4: // long, leading zeros
			return strings.Repeat(lib.Pick(rng, []string{"0", "1", "9"}), 1+rng.Intn(lib.Pick(rng, []int{20, 60, 300}))) + "-" + strings.Repeat(lib.Pick(rng, []string{"0", "7"}), 1+rng.Intn(lib.Pick(rng, []int{3, 60, 300})))
		case 0:
			return fmt.Sprintf("%d-%d", time.Now().UnixMilli(), rng.Intn(20))
		case 1:
			return "0-0"
		case 2:
			return fmt.Sprintf("%s%d-00%d", strings.Repeat("9", rng.Intn(25)), rng.Intn(10), rng.Intn(100))
		}
		return fmt.Sprintf("%d-%d", rng.Intn(1000), rng.Intn(20))
	}
	ids := func(n int, bad float64) (all, good []string) {
		for i := 0; i < n; i++ {
			if rng.Float64() < bad {
				all = append(all, lib.Pick(rng, malformedIDs))
			} else {
				g := goodID()
				all = append(all, g)
				good = append(good, g)
			}
		}
		return
	}
	act := func(on bool, l []string) error {
		ctx, cancel := lib.Ctx()
		defer cancel()
		var err error
		if on {
			_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
		} else {
			_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: l})
		}
		return err
	}
	verb := func(on bool) string {
		if on {
			return "activate"
		}
		return "deactivate"
	}
	// every malformed id on its own, next to well-formed ones
	for _, bad := range malformedIDs {
		if !validUTF8(bad) {
			continue
		}
		on := rng.Intn(2) == 0
		l := []string{bad}
		var good []string
		if limit >= 3 {
			g := goodID()
			good = []string{g}
			l = [][]string{{bad, g}, {g, bad}, {bad, g, bad}}[rng.Intn(3)]
		}
		err := act(on, l)
		if err != nil && len(good) > 0 && status.Code(err) != codes.InvalidArgument {
			r.Violate("request with malformed and well-formed ids fails", map[string]any{"ids": l, "error": err.Error()})
		}
		for _, g := range good {
			want = append(want, verb(on)+" "+g)
		}
		check(verb(on)+" with malformed ids", l)
	}
	for k := 0; k < r.N(60, 300); k++ {
		ctx, cancel := lib.Ctx()
		on := rng.Intn(2) == 0
		switch rng.Intn(12) {
		case 0: // one too many, or far too many
			n := limit + 1 + lib.Pick(rng, []int{0, 0, 1, limit, 1000})
			all, _ := ids(n, lib.Pick(rng, []float64{0, 0, 0.5, 1}))
			switch rng.Intn(4) { // few different ids, far within the limit
			case 0:
				for i := range all {
					all[i] = all[0]
				}
			case 1:
				for i := 1; i < len(all); i++ {
					all[i] = lib.Pick(rng, []string{all[0], all[i-1], all[i]})
				}
			}
			invalid(fmt.Sprintf("%s %d ids", verb(on), n), act(on, all), nil)
		case 1:
			invalid(verb(on)+" without ids", act(on, nil), nil)
		case 2, 3: // up to exactly the limit
			n := 1 + rng.Intn(limit)
			if rng.Intn(2) == 0 {
				n = limit
			}
			all, good := ids(n, lib.Pick(rng, []float64{0, 0.3, 0.9}))
			if err := act(on, all); err != nil && len(good) == n {
				r.Violate("valid request rejected", map[string]any{"n": n, "limit": limit, "error": err.Error()})
			}
			for _, g := range good {
				want = append(want, verb(on)+" "+g)
			}
			check(fmt.Sprintf("%s %d ids of which %d well-formed", verb(on), n, len(good)), all)
		case 4:
			_, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{})
			invalid("CreateTicket without ticket", err, nil)
		case 5:
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{})
			invalid("CreateAssignments without roster", err, nil)
		case 6:
			_, g := ids(1+rng.Intn(limit), 0)
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Name: "r", Tickets: ticketsOf(g)}})
			invalid("CreateAssignments without assignment", err, nil)
		case 7: // too many assignments
			_, g := ids(limit+1+rng.Intn(3), 0)
			switch rng.Intn(5) {
			case 4: // all the same
				for i := range g {
					g[i] = g[0]
				}
			case 0: // some without an id
				for i := range g {
					if rng.Intn(3) > 0 {
						g[i] = ""
					}
				}
			case 1: // the same ticket again and again
				for i := range g {
					g[i] = g[0]
				}
			}
			_, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: ticketsOf(g)}})
			invalid(fmt.Sprintf("CreateAssignments for %d tickets", len(g)), err, nil)
		case 8: // permitted assignments
			n := 1 + rng.Intn(limit)
			if rng.Intn(2) == 0 {
				n = limit
			}
			_, g := ids(n, 0)
			if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: ticketsOf(g)}}); err != nil {
				r.Violate("valid assignment request rejected", map[string]any{"n": n, "limit": limit, "error": err.Error()})
			}
			for _, x := range g {
				want = append(want, "assign "+x)
			}
			check(fmt.Sprintf("CreateAssignments for %d tickets", n), nil)
		case 9:
			_, err := o.Invoke(ctx, &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{mmf.Spec("m"), mmf.Spec("n")}[:1+rng.Intn(2)]})
			invalid("invocation without profile", err, nil)
		case 10:
			_, err := o.Invoke(ctx, &pb.MmfRequest{Profile: lib.Pick(rng, []*pb.Profile{{Name: "p", Pools: map[string]*pb.Pool{"a": {}}}, {}, {Name: "p"},
				{Pools: map[string]*pb.Pool{"bad": {CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: lib.InvalidTime(rng)}}}}})})
			invalid("invocation without functions", err, nil)
		case 11:
			_, err := o.Invoke(ctx, &pb.MmfRequest{})
			invalid("empty invocation", err, nil)
		}
		cancel()
	}
	if mmf.Calls() != 0 {
		r.Violate("a function was called by a rejected invocation", mmf.Calls())
	}
	o.Stop()
}

func ticketsOf(ids []string) []*pb.Ticket {
	out := make([]*pb.Ticket, len(ids))
	for i, id := range ids {
		out[i] = &pb.Ticket{Id: id}
	}
	return out
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "?") == s }

// c05memory does the same against the in-memory storage, where the effect is seen in the pools.
func c05memory(r *lib.Run) {
	limit := 5
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_MAX_STATE_UPDATES_PER_CALL": fmt.Sprint(limit)}))
	ts := []*pb.Ticket{}
	for i := 0; i < 40; i++ {
		ts = append(ts, lib.TagTicket("c05m"))
	}
	ids := o.CreateN(ts)
	active := map[string]bool{}
	rng := r.Rng("mem")
	call := func(on bool, l []string) error {
		ctx, cancel := lib.Ctx()
		defer cancel()
		if on {
			_, err := o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
			return err
		}
		_, err := o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: l})
		return err
	}
	for k := 0; k < r.N(25, 150); k++ {
		on := rng.Intn(2) == 0
		n := 1 + rng.Intn(2*limit)
		var l, good []string
		for i := 0; i < n; i++ {
			id := lib.Pick(rng, ids)
			switch rng.Intn(4) {
			case 0: // a malformed variant of a real id must not touch it
				l = append(l, lib.Pick(rng, []string{id + "x", " " + id, "x", id + "-1", strings.ReplaceAll(id, "-", "_")}))
			default:
				l = append(l, id)
				good = append(good, id)
			}
		}
		err := call(on, l)
		if n > limit {
			if status.Code(err) != codes.InvalidArgument {
				r.Violate("too large request not rejected (memory storage)", map[string]any{"n": n, "limit": limit, "error": fmt.Sprint(err)})
			}
		} else {
			for _, g := range good {
				active[g] = on
			}
		}
		o.BarrierLim(limit)
		vis := o.QueryTag("c05m")
		for _, id := range ids {
			if (vis[id] != nil) != active[id] {
				r.Violate("pools do not reflect exactly the permitted updates (memory storage)", map[string]any{"id": id, "want_active": active[id], "request": l, "activate": on, "n": n, "limit": limit})
			}
		}
		r.Eval(true, "mem", k)
	}
	o.Stop()
}
