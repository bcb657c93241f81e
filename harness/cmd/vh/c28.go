package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C28"] = c28 }

func c28(r *lib.Run) {
	r.Rule = "one evaluation = one exported value (calls or failures of one RPC, matches of one function, count, sum or bucket of a per-call histogram, a gauge) compared with what the callers counted, after a concurrent workload over gRPC and REST with rejected, refused, failing and cancelled calls has settled, or one scrape during it (never more than was started, counters never go back). Non-trivial: the expected value is not zero, or the scrape happened during load"
	for i := 0; i < r.N(3, 12); i++ {
		c28round(r, i)
	}
	for i := 0; i < r.N(1, 3); i++ {
		c28expiry(r, i)
	}
}

// sample of the Prometheus endpoint: name -> labels (sorted, rendered) -> value
type promSample map[string]map[string]float64

var promLine = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? (\S+)$`)
var promLabel = regexp.MustCompile(`([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\]|\\.)*)"`)

func scrape(r *lib.Run) promSample {
	resp, err := (&http.Client{Timeout: 60 * time.Second}).Get("http://127.0.0.1:2223/metrics")
	if err != nil {
		time.Sleep(200 * time.Millisecond)
		r.Violate("the metrics endpoint does not answer", err.Error())
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 {
		r.Violate("the metrics endpoint fails", map[string]any{"error": fmt.Sprint(err), "http": resp.StatusCode, "body": string(headB(b))})
	}
	out := promSample{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		m := promLine.FindStringSubmatch(l)
		if m == nil {
			r.Violate("the metrics endpoint prints something unreadable", l)
		}
		if !strings.HasPrefix(m[1], "om_core") {
			continue
		}
		v, err := strconv.ParseFloat(m[3], 64)
		if err != nil {
			r.Violate("the metrics endpoint prints something unreadable", l)
		}
		var ls []string
		for _, x := range promLabel.FindAllStringSubmatch(m[2], -1) {
			if strings.HasPrefix(x[1], "otel_scope") {
				continue
			}
			val := strings.NewReplacer(`\"`, `"`, `\n`, "\n", `\\`, `\`).Replace(x[2])
			ls = append(ls, x[1]+"="+val)
		}
		sort.Strings(ls)
		if out[m[1]] == nil {
			out[m[1]] = map[string]float64{}
		}
		out[m[1]][strings.Join(ls, "|")] += v
	}
	r.Count("scrapes", 1)
	return out
}

// by sums the values of a metric by one label.
func (p promSample) by(name, label string) map[string]float64 {
	out := map[string]float64{}
	for ls, v := range p[name] {
		k := ""
		for _, l := range strings.Split(ls, "|") {
			if strings.HasPrefix(l, label+"=") {
				k = strings.TrimPrefix(l, label+"=")
			}
		}
		out[k] += v
	}
	return out
}

// named finds the metric of that instrument, whatever unit suffixes the exporter adds.
func (p promSample) named(prefix, suffix string) string {
	for n := range p {
		if strings.HasPrefix(n, prefix) && strings.HasSuffix(n, suffix) {
			mid := strings.TrimSuffix(strings.TrimPrefix(n, prefix), suffix)
			if mid == "" || mid == "_milliseconds" || mid == "_ms" || mid == "_total" || mid == "_ratio" {
				return n
			}
		}
	}
	return ""
}

type c28want struct {
	mu       sync.Mutex
	started  map[string]float64 // per rpc
	done     map[string]float64
	failed   map[string]float64
	maybe    map[string]float64 // cancelled by the caller: may count as failed
	matches  map[string]float64
	perCall  map[string][]int // instrument -> sizes of accepted calls
	watching float64
	late     float64 // abandoned watches that may still be counted as calls
}

func (w *c28want) start(rpc string) { w.mu.Lock(); w.started[rpc]++; w.mu.Unlock() }
func (w *c28want) end(rpc string, failed bool) {
	w.mu.Lock()
	w.done[rpc]++
	if failed {
		w.failed[rpc]++
	}
	w.mu.Unlock()
}
func (w *c28want) cancelled(rpc string) { w.mu.Lock(); w.done[rpc]++; w.maybe[rpc]++; w.mu.Unlock() }
func (w *c28want) size(inst string, n int) {
	w.mu.Lock()
	w.perCall[inst] = append(w.perCall[inst], n)
	w.mu.Unlock()
}

// diff compares a sample with the expectation of a settled system.
func (w *c28want) diff(p promSample) (bad []string, vals int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	chk := func(what string, got, lo, hi float64) {
		vals++
		if got < lo || got > hi {
			bad = append(bad, fmt.Sprintf("%s: exported %v, expected %v..%v", what, got, lo, hi))
		}
	}
	calls := p.by(p.named("om_core_rpc_duration", "_count"), "rpc")
	errs := p.by(p.named("om_core_rpc_errors", "_total"), "rpc")
	names := map[string]bool{}
	for k := range calls {
		names[k] = true
	}
	for k := range errs {
		names[k] = true
	}
	for k := range w.done {
		names[k] = true
	}
	for k := range names {
		late := 0.0
		if k == "WatchAssignments" {
			late = w.late
		}
		chk("calls of "+k, calls[k], w.done[k], w.done[k]+late)
		chk("failed calls of "+k, errs[k], w.failed[k], w.failed[k]+w.maybe[k])
	}
	ms := p.by(p.named("om_core_match_received", "_total"), "mmf_name")
	for k := range w.matches {
		chk("matches of "+k, ms[k], w.matches[k], w.matches[k])
	}
	for k := range ms {
		if w.matches[k] == 0 && ms[k] != 0 {
			bad = append(bad, fmt.Sprintf("matches of %q: exported %v, expected none", k, ms[k]))
		}
	}
	for inst, sizes := range w.perCall {
		sum := 0
		for _, n := range sizes {
			sum += n
		}
		total := func(s string) float64 {
			t := 0.0
			for _, v := range p[p.named(inst, s)] {
				t += v
			}
			return t
		}
		chk(inst+" calls", total("_count"), float64(len(sizes)), float64(len(sizes)))
		chk(inst+" tickets", total("_sum"), float64(sum), float64(sum))
		for le, v := range p.by(p.named(inst, "_bucket"), "le") {
			lim, err := strconv.ParseFloat(le, 64)
			if err != nil {
				continue
			}
			n := 0.0
			for _, x := range sizes {
				if float64(x) <= lim {
					n++
				}
			}
			chk(inst+" calls of at most "+le+" tickets", v, n, n)
		}
	}
	g := p.named("om_core_ticket_assigment_watch", "")
	t := 0.0
	for _, v := range p[g] {
		t += v
	}
	chk("outstanding assignment watches", t, w.watching, w.watching)
	return
}

// gauges compares the cache gauges.
func c28gauges(p promSample, inactive, assigned, active float64, withActive bool) (bad []string) {
	one := func(n string) float64 {
		t := 0.0
		for _, v := range p[p.named(n, "")] {
			t += v
		}
		return t
	}
	if g := one("om_core_cache_tickets_inactive"); g != inactive {
		bad = append(bad, fmt.Sprintf("inactive entries: exported %v, expected %v", g, inactive))
	}
	if g := one("om_core_cache_assignments"); g != assigned {
		bad = append(bad, fmt.Sprintf("assignments: exported %v, expected %v", g, assigned))
	}
	if g := one("om_core_cache_tickets_active"); withActive && g != active {
		bad = append(bad, fmt.Sprintf("active tickets: exported %v, expected %v", g, active))
	}
	return
}

func c28round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("round", round))
	storage := []string{"redis", "memory", "redis"}[round%3]
	dangling := round%2 == 1 // deactivate ids without a ticket
	limit := lib.Pick(rng, []int{500, 60})
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_LOGGING_LEVEL": "fatal", "OM_MAX_STATE_UPDATES_PER_CALL": fmt.Sprint(limit)})
	var s *fredis.Server
	if storage == "redis" {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	var stream []lib.Upd
	w := &c28want{started: map[string]float64{}, done: map[string]float64{}, failed: map[string]float64{}, maybe: map[string]float64{}, matches: map[string]float64{}, perCall: map[string][]int{}}
	const act, deact, asg = "om_core_ticket_activation_requests", "om_core_ticket_deactivation_requests", "om_core_ticket_assignment"
	ms := []*lib.MMF{r.NewMMF(), r.NewMMF()}
	dead := lib.FreePort()
	frng := r.Rng(fmt.Sprint("faults", round))
	var fmu sync.Mutex
	faults := round%3 == 2
	if faults {
		s.SetHook(func(c *fredis.Cmd) fredis.Action {
			fmu.Lock()
			defer fmu.Unlock()
			if c.Name == "XADD" && frng.Intn(6) == 0 {
				return fredis.Action{Err: lib.StorageError()}
			}
			return fredis.Action{}
		})
	}
	var imu sync.Mutex
	var ids []string
	some := func(rng *rand.Rand, k int) []string {
		imu.Lock()
		defer imu.Unlock()
		var out []string
		for i := 0; i < k; i++ {
			if len(ids) == 0 || dangling && rng.Intn(6) == 0 {
				if !dangling {
					break
				}
				out = append(out, fmt.Sprintf("%d-%d", time.Now().UnixMilli()-int64(rng.Intn(1000)), 3000+rng.Intn(5)))
				continue
			}
			out = append(out, ids[rng.Intn(len(ids))])
		}
		return out
	}
	malform := func(rng *rand.Rand, x []string) ([]string, int) {
		out := append([]string{}, x...)
		if rng.Intn(4) == 0 && len(out) > 0 {
			n := 1 + rng.Intn(3)
			for i := 0; i < n; i++ {
				out = append(out, lib.Pick(rng, []string{"", "x", "1_1", "1-1x"}))
			}
		}
		return out, len(x)
	}
	ctx := context.Background()
	stop := make(chan bool)
	var swg sync.WaitGroup
	swg.Add(1)
	go func() { // scrapes during the load
		defer swg.Done()
		last := map[string]float64{}
		for {
			select {
			case <-stop:
				return
			case <-time.After(15 * time.Millisecond):
			}
			p := scrape(r)
			calls := p.by(p.named("om_core_rpc_duration", "_count"), "rpc")
			w.mu.Lock()
			for k, v := range calls {
				if v > w.started[k] {
					r.Violate("more calls are exported than were made", map[string]any{"rpc": k, "exported": v, "started": w.started[k]})
				}
				if v < last[k] {
					r.Violate("an exported counter goes back", map[string]any{"rpc": k, "exported": v, "before": last[k]})
				}
				last[k] = v
			}
			w.mu.Unlock()
			r.Eval(true, "scrape", round, fmt.Sprint(calls))
		}
	}()
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for n := 0; n < r.N(60, 150); n++ {
				rest := rng.Intn(4) == 0
				switch rng.Intn(8) {
				case 0, 1:
					const rpc = "CreateTicket"
					req := &pb.CreateTicketRequest{Ticket: lib.TagTicket("c28")}
					if rng.Intn(6) == 0 {
						req.Ticket = nil
					}
					w.start(rpc)
					resp := &pb.CreateTicketResponse{}
					ok := false
					if rest {
						ok = restUnary(r, rng, rpc, req, resp).Code == codes.OK
					} else {
						var err error
						resp, err = o.C.CreateTicket(ctx, req)
						ok = err == nil
					}
					w.end(rpc, !ok)
					if ok {
						imu.Lock()
						ids = append(ids, resp.TicketId)
						imu.Unlock()
					}
				case 2, 3:
					size := lib.Pick(rng, []int{0, 1, 2, 6, 11, 30, limit, limit + 1})
					base := some(rng, size)
					x, valid := malform(rng, base)
					rpc, inst := "ActivateTickets", act
					if rng.Intn(2) == 0 {
						rpc, inst = "DeactivateTickets", deact
					}
					w.start(rpc)
					var err error
					ok := false
					if rpc == "ActivateTickets" {
						req := &pb.ActivateTicketsRequest{TicketIds: x}
						if rest {
							ok = restUnary(r, rng, rpc, req, &pb.ActivateTicketsResponse{}).Code == codes.OK
						} else {
							_, err = o.C.ActivateTickets(ctx, req)
							ok = err == nil
						}
					} else {
						req := &pb.DeactivateTicketsRequest{TicketIds: x}
						if rest {
							ok = restUnary(r, rng, rpc, req, &pb.DeactivateTicketsResponse{}).Code == codes.OK
						} else {
							_, err = o.C.DeactivateTickets(ctx, req)
							ok = err == nil
						}
					}
					if len(x) > 0 && len(x) <= limit {
						w.size(inst, valid)
					}
					w.end(rpc, !ok)
				case 4:
					const rpc = "CreateAssignments"
					x := some(rng, lib.Pick(rng, []int{0, 1, 3, 12, limit, limit + 1}))
					req := &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: ticketsOf(x)}}
					valid := len(x)
					if rng.Intn(5) == 0 {
						req.AssignmentRoster.Tickets = append(req.AssignmentRoster.Tickets, &pb.Ticket{})
					}
					accepted := len(req.AssignmentRoster.Tickets) <= limit
					if rng.Intn(6) == 0 {
						req.AssignmentRoster.Assignment = nil
						accepted = false
					}
					w.start(rpc)
					ok := false
					if rest {
						ok = restUnary(r, rng, rpc, req, &pb.CreateAssignmentsResponse{}).Code == codes.OK
					} else {
						_, err := o.C.CreateAssignments(ctx, req)
						ok = err == nil
					}
					if accepted {
						w.size(asg, valid)
					}
					w.end(rpc, !ok)
				case 5, 6:
					const rpc = "InvokeMatchmakingFunctions"
					name := fmt.Sprintf("c28-%d-%d-%d", round, k, n)
					req := &pb.MmfRequest{Profile: &pb.Profile{Name: name, Pools: map[string]*pb.Pool{"p": lib.TagPool("c28")}}}
					sent := map[string]float64{}
					for i := rng.Intn(3); i >= 0; i-- {
						m := ms[i%2]
						nm := rng.Intn(12)
						fail := rng.Intn(5) == 0
						list := make([]*pb.Match, nm)
						for j := range list {
							list[j] = &pb.Match{Id: fmt.Sprint(j)}
							if rng.Intn(2) == 0 {
								if x := some(rng, 2); len(x) > 0 {
									list[j].Rosters = map[string]*pb.Roster{"r": {Tickets: ticketsOf(x)}}
								}
							}
						}
						prof := fmt.Sprint(name, "/", i)
						_ = prof
						fname := lib.Pick(rng, []string{"f1", "f2", "ünï \"q\"", "a\\b\nc"})
						spec := m.Spec(fname)
						// the script is selected by profile, so a function appears once per invocation and server
						if i < 2 {
							m.On(name, func(c *lib.Call) error {
								for _, x := range list {
									if err := c.Send(x); err != nil {
										return err
									}
								}
								if fail {
									return status.Error(codes.Aborted, "x")
								}
								return nil
							})
							sent[fname] += float64(nm)
							req.Mmfs = append(req.Mmfs, spec)
						} else {
							req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Name: "dead", Host: "127.0.0.1", Port: int32(dead), Type: pb.MatchmakingFunctionSpec_GRPC})
						}
					}
					switch rng.Intn(8) {
					case 0:
						req.Profile, sent = nil, nil
					case 1:
						req.Mmfs, sent = nil, nil
					}
					w.start(rpc)
					ok := false
					cctx, cancel := context.WithTimeout(ctx, 90*time.Second)
					if rest {
						ok = restStream(r, cctx, rpc, jsonOf(r, rng, req), func([]byte) {}).Code == codes.OK
					} else {
						_, err := o.Invoke(cctx, req)
						ok = err == nil
					}
					cancel()
					w.mu.Lock()
					for f, v := range sent {
						w.matches[f] += v
					}
					w.mu.Unlock()
					w.end(rpc, !ok)
					ms[0].Off(name)
					ms[1].Off(name)
				case 7:
					const rpc = "WatchAssignments"
					x := some(rng, rng.Intn(6))
					w.start(rpc)
					cctx, cancel := context.WithTimeout(ctx, time.Duration(rng.Intn(2500))*time.Millisecond)
					var code codes.Code
					if rest {
						code = restStream(r, context.WithValue(cctx, leaving{}, true), rpc, jsonOf(r, rng, &pb.WatchAssignmentsRequest{TicketIds: x}), func([]byte) {}).Code
					} else {
						g := watch(cctx, o.C, x, nil)
						if g.err != io.EOF {
							code = status.Code(g.err)
						}
					}
					// the deadline may have passed before the call reached the server, or be seen only on one side
					if code == codes.OK && cctx.Err() == nil {
						w.end(rpc, false)
					} else {
						w.cancelled(rpc)
					}
					cancel()
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	swg.Wait()
	// cancelled calls may not have reached the server at all
	var bad []string
	vals := 0
	lo := w.maybe["WatchAssignments"]
	if !lib.Await(60*time.Second, func() bool {
		p := scrape(r)
		w.mu.Lock()
		if lo > 0 { // judge the calls of this RPC by bounds only
			got := p.by(p.named("om_core_rpc_duration", "_count"), "rpc")["WatchAssignments"]
			all := w.started["WatchAssignments"]
			if got >= all-lo && got <= all {
				w.done["WatchAssignments"], w.late = got, all-got
			} else {
				w.done["WatchAssignments"], w.late = all, 0
			}
		}
		w.mu.Unlock()
		bad, vals = w.diff(p)
		return len(bad) == 0
	}) {
		r.Violate("exported metrics disagree with what happened", map[string]any{"storage": storage, "faults": faults, "wrong": bad})
	}
	for i := 0; i < vals; i++ {
		r.Eval(true, round, "value", i)
	}
	r.Count("values_compared", vals)
	for k, v := range w.done {
		r.Count("calls_"+k, int(v))
	}
	r.Count("failed_calls", int(w.failed["CreateTicket"]+w.failed["ActivateTickets"]+w.failed["DeactivateTickets"]+w.failed["CreateAssignments"]+w.failed["InvokeMatchmakingFunctions"]))
	// watches still running are counted
	if s != nil {
		s.SetHook(nil)
	}
	var fresh []*pb.Ticket
	for i := 0; i < 30; i++ {
		fresh = append(fresh, lib.TagTicket("c28w"))
	}
	fids := o.CreateN(fresh)
	for range fids {
		w.start("CreateTicket")
		w.end("CreateTicket", false)
	}
	w.mu.Lock()
	w.watching = 30
	w.mu.Unlock()
	cctx, cancel := context.WithCancel(ctx)
	var wwg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wwg.Add(1)
		part := fids[i*10 : i*10+10]
		w.start("WatchAssignments")
		go func() { defer wwg.Done(); watch(cctx, o.C, part, nil) }()
	}
	settle := func(what string, extra func(p promSample) []string) {
		if !lib.Await(60*time.Second, func() bool {
			p := scrape(r)
			bad, _ = w.diff(p)
			if extra != nil {
				bad = append(bad, extra(p)...)
			}
			return len(bad) == 0
		}) {
			r.Violate("exported metrics disagree with what happened", map[string]any{"when": what, "storage": storage, "wrong": bad})
		}
		r.Eval(true, round, what)
	}
	settle("while three watches of ten tickets run", nil)
	w.start("CreateAssignments")
	if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "z"}, Tickets: ticketsOf(fids[5:15])}}); err != nil {
		r.Violate("assignment fails without reason", err.Error())
	}
	w.end("CreateAssignments", false)
	w.size(asg, 10)
	w.mu.Lock()
	w.watching = 20
	w.mu.Unlock()
	settle("after ten of thirty watched tickets got assigned", nil)
	werrs := func(p promSample) float64 {
		return p.by(p.named("om_core_rpc_errors", "_total"), "rpc")["WatchAssignments"]
	}
	before := werrs(scrape(r))
	cancel()
	wwg.Wait()
	w.mu.Lock()
	w.watching = 0
	w.failed["WatchAssignments"] += 3 // they were running: the calls ended with a status of their own
	w.done["WatchAssignments"] += 3
	w.mu.Unlock()
	settle("after the watches were cancelled", func(p promSample) []string {
		if d := werrs(p) - before; d < 3 || d > 3+w.late {
			return []string{fmt.Sprintf("failed calls of WatchAssignments: exported %v more, expected 3", d)}
		}
		return nil
	})
	// clients that go away while their messages are being sent
	w.start("CreateAssignments")
	if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: strings.Repeat("z", 3000)}, Tickets: ticketsOf(fids)}}); err != nil {
		r.Violate("assignment fails without reason", err.Error())
	}
	w.end("CreateAssignments", false)
	w.size(asg, len(fids))
	many := []string{}
	for i := 0; i < 300; i++ {
		many = append(many, fids[i%len(fids)])
	}
	for i := 0; i < 24; i++ {
		w.start("WatchAssignments")
		wwg.Add(1)
		go func() {
			defer wwg.Done()
			x, stop := context.WithCancel(ctx)
			watch(x, o.C, many, func(string, *pb.Assignment) { stop() })
			stop()
		}()
	}
	wwg.Wait()
	w.mu.Lock()
	w.maybe["WatchAssignments"] += 24
	w.done["WatchAssignments"] += 24
	w.mu.Unlock()
	settle("after clients went away in the middle of their messages", nil)
	// gauges against the fold of the log
	if s != nil {
		stream = lib.DecodeAll(0, s.Entries(0))
		tickets, _, assigned := lib.Fold(stream)
		inact := map[string]bool{}
		for _, u := range stream {
			switch u.Cmd {
			case "ticket", "deactivate":
				inact[u.Key] = true
			case "activate":
				delete(inact, u.Key)
			}
		}
		settle("cache gauges", func(p promSample) []string {
			return c28gauges(p, float64(len(inact)), float64(len(assigned)), float64(len(tickets)-len(inact)), !dangling)
		})
		r.Count("gauge_inactive", len(inact))
		r.Count("gauge_assignments", len(assigned))
		r.Count("gauge_active", len(tickets)-len(inact))
	}
	for _, m := range ms {
		m.Stop()
	}
	o.Stop()
}

// c28expiry: the gauges go back to zero when everything has expired.
func c28expiry(r *lib.Run, round int) {
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_TICKET_TTL_SECS": "5", "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": "4", "OM_LOGGING_LEVEL": "fatal"}))
	ctx := context.Background()
	var ts []*pb.Ticket
	for i := 0; i < 90; i++ {
		ts = append(ts, lib.TagTicket("x"))
	}
	ids := o.CreateN(ts)
	o.Activate(ids[:60]...)
	o.Deactivate(ids[40:50]...)
	if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "z"}, Tickets: ticketsOf(ids[:45])}}); err != nil {
		r.Violate("assignment fails without reason", err.Error())
	}
	peak := 0.0
	phase := func(what string, max time.Duration, f func(p promSample) []string) {
		var bad []string
		if !lib.Await(max, func() bool { bad = f(scrape(r)); return len(bad) == 0 }) {
			r.Violate("exported metrics disagree with what happened", map[string]any{"when": what, "wrong": bad})
		}
		r.Eval(true, "expiry", round, what)
	}
	phase("before expiry", 40*time.Second, func(p promSample) []string {
		for _, v := range p[p.named("om_core_cache_assignments", "")] {
			if v > peak {
				peak = v
			}
		}
		if peak != 45 {
			return []string{fmt.Sprint("assignments: at most ", peak, " exported, 45 made")}
		}
		return nil
	})
	phase("after expiry", 60*time.Second, func(p promSample) []string { return c28gauges(p, 0, 0, 0, true) })
	o.Stop()
}
