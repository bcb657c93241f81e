package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C27"] = c27 }

// script of one matchmaking cycle
type cycle struct {
	matches, tickets int // tickets per match
	rosters          int
	err              error
	created          bool // matches are made of tickets the matchmaker created (and activated)
}

// fakeCore plays om-core for the example matchmaker and records what it asks for.
type fakeCore struct {
	pb.UnimplementedOpenMatchServiceServer
	r          *lib.Run
	actDelay   time.Duration
	actErrors  bool
	createErrs bool
	next       func(n int) cycle

	mu       sync.Mutex
	rng      *rand.Rand
	seq      int
	created  []string
	unused   []string // created, activated, in no match yet
	acts     map[string]int
	done     map[string]int
	empties  int
	calls    int
	full     int
	pending  int
	maxCall  int
	cycles   int
	over     []int
	matchOf  map[string]int
	matches  [][]string
	lastCall time.Time
	late     int // re-activations not completed when the next cycle began
}

func newFakeCore(r *lib.Run, key string) *fakeCore {
	return &fakeCore{r: r, rng: r.Rng(key), acts: map[string]int{}, done: map[string]int{}, matchOf: map[string]int{}}
}

func (f *fakeCore) CreateTicket(ctx context.Context, q *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	f.mu.Lock()
	f.seq++
	id := fmt.Sprintf("%d-%d", 1700000000000+int64(f.seq/7), f.seq%7)
	bad := f.createErrs && f.rng.Intn(50) == 0
	d := time.Duration(f.rng.Intn(40)) * time.Millisecond
	f.mu.Unlock()
	time.Sleep(d)
	if bad {
		return nil, status.Error(codes.Internal, "injected creation failure")
	}
	f.mu.Lock()
	f.created = append(f.created, id)
	f.mu.Unlock()
	return &pb.CreateTicketResponse{TicketId: id}, nil
}

func (f *fakeCore) ActivateTickets(ctx context.Context, q *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	f.mu.Lock()
	f.calls++
	f.pending++
	f.lastCall = time.Now()
	if n := len(q.TicketIds); n > f.maxCall {
		f.maxCall = n
	}
	if len(q.TicketIds) > 500 {
		f.over = append(f.over, len(q.TicketIds))
	}
	if len(q.TicketIds) == 500 {
		f.full++
	}
	for _, id := range q.TicketIds {
		if id == "" {
			f.empties++
			continue
		}
		f.acts[id]++
	}
	d := time.Duration(float64(f.actDelay) * f.rng.Float64())
	bad := f.actErrors && f.rng.Intn(10) == 0
	f.mu.Unlock()
	t := time.NewTimer(d)
	defer t.Stop()
	gone := false
	select {
	case <-t.C:
	case <-ctx.Done():
		gone = true
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.pending--
	if gone { // the matchmaker did not wait for it
		return nil, ctx.Err()
	}
	if bad {
		for _, id := range q.TicketIds {
			f.done[id]++ // it was requested; the failure is not the matchmaker's
		}
		return nil, status.Error(codes.Internal, "injected activation failure")
	}
	for _, id := range q.TicketIds {
		f.done[id]++
		if id != "" && f.matchOf[id] == 0 {
			f.unused = append(f.unused, id)
		}
	}
	return &pb.ActivateTicketsResponse{}, nil
}

// begin starts a cycle and returns its matches.
func (f *fakeCore) begin() ([]*pb.Match, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.cycles++
	c := f.next(f.cycles)
	if c.created {
		c.matches = min(c.matches, len(f.unused)/max(1, c.tickets))
	}
	var ms []*pb.Match
	for i := 0; i < c.matches; i++ {
		f.matches = append(f.matches, nil)
		n := len(f.matches)
		m := &pb.Match{Id: fmt.Sprint("m", n), Rosters: map[string]*pb.Roster{}}
		for k := 0; k < c.rosters; k++ {
			m.Rosters[fmt.Sprint("r", k)] = &pb.Roster{}
		}
		for k := 0; k < c.tickets && c.rosters > 0; k++ {
			var id string
			if c.created {
				id = f.unused[0]
				f.unused = f.unused[1:]
			} else {
				f.seq++
				id = fmt.Sprintf("%d-%d", 1600000000000+int64(f.seq/7), f.seq%7)
			}
			f.matchOf[id] = n
			f.matches[n-1] = append(f.matches[n-1], id)
			ro := m.Rosters[fmt.Sprint("r", k%c.rosters)]
			ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
		}
		ms = append(ms, m)
	}
	return ms, c.err
}

func (f *fakeCore) InvokeMatchmakingFunctions(q *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	ms, err := f.begin()
	for _, m := range ms {
		if st.Send(&pb.StreamedMmfResponse{Match: m}) != nil {
			return nil
		}
	}
	return err
}

// ServeHTTP is the REST form of the three calls.
func (f *fakeCore) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	body, _ := io.ReadAll(q.Body)
	reply := func(m proto.Message, err error) {
		w.Header().Set("Content-Type", "application/json")
		if err != nil {
			w.WriteHeader(http.StatusInternalServerError)
			fmt.Fprintf(w, `{"code":%d,"message":%q}`, status.Code(err), err.Error())
			return
		}
		b, _ := protojson.Marshal(m)
		w.Write(b)
	}
	bad := func(err error) {
		f.r.Violate("the example matchmaker sends a REST request om-core cannot decode", map[string]any{"path": q.URL.Path, "body": string(body[:min(len(body), 300)]), "error": err.Error()})
	}
	switch q.URL.Path {
	case "/v2/tickets":
		m := &pb.CreateTicketRequest{}
		if err := protojson.Unmarshal(body, m); err != nil {
			bad(err)
		}
		r, err := f.CreateTicket(q.Context(), m)
		reply(r, err)
	case "/v2/tickets:activate":
		m := &pb.ActivateTicketsRequest{}
		if err := protojson.Unmarshal(body, m); err != nil {
			bad(err)
		}
		r, err := f.ActivateTickets(q.Context(), m)
		reply(r, err)
	case "/v2/matches:fetch":
		m := &pb.MmfRequest{}
		if err := protojson.Unmarshal(body, m); err != nil {
			bad(err)
		}
		ms, _ := f.begin()
		for _, x := range ms {
			b, _ := protojson.Marshal(&pb.StreamedMmfResponse{Match: x})
			var c bytes.Buffer
			json.Compact(&c, b)
			fmt.Fprintf(w, "{\"result\":%s}\n", c.String())
		}
	default:
		f.r.Violate("the example matchmaker calls an unknown path", q.URL.Path)
	}
}

// mmProc is a running example matchmaker.
type mmProc struct {
	cmd    *exec.Cmd
	exited chan struct{}
	err    error
	log    string
}

var mmN atomic.Int64

func (f *fakeCore) start(args ...string) *mmProc {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		f.r.Inconclusive("%v", err)
	}
	srv := grpc.NewServer()
	pb.RegisterOpenMatchServiceServer(srv, f)
	go srv.Serve(ln)
	p := startMM(f.r, ln.Addr().(*net.TCPAddr).Port, args...)
	go func() { <-p.exited; srv.Stop() }()
	return p
}

// startMM starts the example matchmaker against the server on a port.
func startMM(r *lib.Run, port int, args ...string) *mmProc {
	p := &mmProc{exited: make(chan struct{}), log: filepath.Join(r.Dir, fmt.Sprintf("mm-%d.log", mmN.Add(1)))}
	lf, err := os.Create(p.log)
	if err != nil {
		r.Inconclusive("%v", err)
	}
	p.cmd = exec.Command(r.Bins["mm"], append([]string{"-omhost", fmt.Sprintf("127.0.0.1:%d", port)}, args...)...)
	p.cmd.Dir = r.Dir
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.Dir, "GOTRACEBACK=all"}
	p.cmd.Stdout, p.cmd.Stderr = lf, lf
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		r.Inconclusive("%v", err)
	}
	lf.Close()
	go func() { p.err = p.cmd.Wait(); close(p.exited) }()
	r.OnExit(func() { p.cmd.Process.Kill() })
	return p
}

func (p *mmProc) tail() string {
	b, _ := os.ReadFile(p.log)
	s := string(b)
	if len(s) > 2500 {
		s = s[len(s)-2500:]
	}
	return s
}

func (p *mmProc) gone() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

func (p *mmProc) kill() { p.cmd.Process.Kill(); <-p.exited }

// dump asks the Go runtime for all stacks (for the report of a stuck matchmaker).
func (p *mmProc) dump() string {
	p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.exited:
	case <-time.After(5 * time.Second):
	}
	b, _ := os.ReadFile(p.log)
	s := string(b)
	if i := strings.Index(s, "SIGQUIT"); i >= 0 {
		s = s[i:]
	}
	return s[:min(len(s), 3000)]
}

// judge what the matchmaker did. final: every re-activation that will happen has happened.
func (f *fakeCore) judge(what string, everyCreated bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	r := f.r
	if len(f.over) > 0 {
		r.Violate("the example matchmaker activates more than 500 tickets in one call", map[string]any{"run": what, "sizes": f.over[:min(5, len(f.over))]})
	}
	created := map[string]bool{}
	for _, id := range f.created {
		created[id] = true
	}
	rejected := 0
	for i, ids := range f.matches {
		n, lo := 0, 0
		for _, id := range ids {
			first := 0
			if created[id] {
				first = 1
			}
			k := f.acts[id] - first
			if k < 0 || k > 1 {
				r.Violate("the example matchmaker activates a ticket of a match the wrong number of times", map[string]any{"run": what, "ticket": id, "created by it": first == 1, "activations": f.acts[id]})
			}
			n += k
			if k == 1 && f.done[id] < f.acts[id] {
				lo++
			}
		}
		if n != 0 && n != len(ids) {
			r.Violate("the example matchmaker re-activates only some tickets of a match", map[string]any{"run": what, "match": i + 1, "tickets": len(ids), "re-activated": n})
		}
		if lo > 0 {
			r.Violate("the example matchmaker leaves while re-activations are under way", map[string]any{"run": what, "match": i + 1, "tickets": len(ids), "not completed": lo})
		}
		r.Eval(n > 0, what, i)
		if n > 0 {
			rejected++
			r.Count("tickets_reactivated", n)
		}
	}
	for id, n := range f.acts {
		if !created[id] && f.matchOf[id] == 0 {
			r.Violate("the example matchmaker activates a ticket that it neither created nor received", map[string]any{"run": what, "ticket": id, "activations": n})
		}
		if created[id] && f.matchOf[id] == 0 && n != 1 {
			r.Violate("the example matchmaker activates a created ticket more than once", map[string]any{"run": what, "ticket": id, "activations": n})
		}
	}
	if everyCreated {
		missing := 0
		for _, id := range f.created {
			if f.acts[id] == 0 {
				missing++
			}
		}
		if missing > 0 {
			r.Violate("the example matchmaker does not activate every created ticket", map[string]any{"run": what, "created": len(f.created), "never activated": missing})
		}
	}
	r.Count("matches_received", len(f.matches))
	r.Count("matches_rejected", rejected)
	r.Count("tickets_created", len(f.created))
	r.Count("activation_calls", f.calls)
	r.Count("activation_calls_of_500", f.full)
	r.Count("cycles", f.cycles)
	r.Count("activations_without_id", f.empties)
	r.Max("ids_per_call", int64(f.maxCall))
	r.Eval(len(f.acts) > 0, what, len(f.created), len(f.matches), rejected, f.calls)
	if r.WantSample() {
		r.Sample(map[string]any{"run": what, "created": len(f.created), "matches": len(f.matches), "rejected": rejected, "activation calls": f.calls, "cycles": f.cycles})
	}
}

// c27reject: a fixed number of cycles without simulated players: re-activation of rejected matches, up to the exit
// of the matchmaker.
func c27reject(r *lib.Run, conn, what string, n int, next func(n int) cycle, delay time.Duration) {
	f := newFakeCore(r, what)
	f.next, f.actDelay, f.actErrors = next, delay, conn == "grpc"
	rest := serveRest(r, f, conn)
	defer rest()
	p := f.start("-conn", conn, "-sim=false", "-cycles", fmt.Sprint(n), "-ignoreempty")
	last, at := 0, time.Now()
	for !p.gone() {
		time.Sleep(100 * time.Millisecond)
		f.mu.Lock()
		c := f.cycles*1000003 + f.calls
		f.mu.Unlock()
		if c != last {
			last, at = c, time.Now()
		}
		if time.Since(at) > 120*time.Second {
			r.Violate("the example matchmaker stops running its cycles", map[string]any{"run": what, "cycles": f.cycles, "of": n, "stacks": p.dump()})
		}
	}
	f.mu.Lock()
	c := f.cycles
	f.mu.Unlock()
	if p.err != nil || c != n {
		r.Violate("the example matchmaker ends before its cycles are over", map[string]any{"run": what, "cycles": c, "of": n, "exit": fmt.Sprint(p.err), "log": p.tail()})
	}
	// calls the exiting process abandoned have noticed it
	lib.Await(30*time.Second, func() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.pending == 0 })
	f.judge(what, false)
}

func serveRest(r *lib.Run, f *fakeCore, conn string) func() {
	if conn != "http" {
		return func() {}
	}
	var ln net.Listener
	var err error
	if !lib.Await(60*time.Second, func() bool { ln, err = net.Listen("tcp", "127.0.0.1:58081"); return err == nil }) {
		r.Inconclusive("port 58081: %v", err)
	}
	s := &http.Server{Handler: f}
	go s.Serve(ln)
	return func() { s.Close() }
}

// c27sim: simulated players, matches of their tickets.
func c27sim(r *lib.Run, conn, what string, tix, dur int, delay time.Duration, createErrs bool) {
	f := newFakeCore(r, what)
	f.actDelay, f.createErrs = delay, createErrs
	var stop atomic.Bool
	rng := r.Rng(what + "cycles")
	f.next = func(n int) cycle {
		if stop.Load() {
			return cycle{}
		}
		c := cycle{matches: rng.Intn(300), tickets: lib.Pick(rng, []int{1, 2, 10}), rosters: 1 + rng.Intn(2), created: true}
		if conn == "grpc" && rng.Intn(4) == 0 {
			c.err = status.Error(codes.DeadlineExceeded, "injected")
		}
		return c
	}
	rest := serveRest(r, f, conn)
	defer rest()
	p := f.start("-conn", conn, "-tix", fmt.Sprint(tix), "-dur", fmt.Sprint(dur), "-ignoreempty")
	begun := time.Now()
	check := func() {
		if p.gone() {
			r.Violate("the example matchmaker ends although tickets keep arriving", map[string]any{"run": what, "exit": fmt.Sprint(p.err), "log": p.tail()})
		}
	}
	for time.Since(begun) < time.Duration(dur)*time.Second {
		check()
		time.Sleep(100 * time.Millisecond)
	}
	// all created, all activated
	f.mu.Lock()
	c0 := f.cycles
	f.mu.Unlock()
	if !lib.Await(90*time.Second, func() bool {
		check()
		f.mu.Lock()
		defer f.mu.Unlock()
		if !createErrs && len(f.created) < tix*dur {
			return false
		}
		for _, id := range f.created {
			if f.acts[id] == 0 {
				return false
			}
		}
		return f.cycles > c0
	}) {
		f.mu.Lock()
		missing := 0
		for _, id := range f.created {
			if f.acts[id] == 0 {
				missing++
			}
		}
		d := map[string]any{"run": what, "created": len(f.created), "of": tix * dur, "not activated": missing, "cycles": f.cycles, "cycles when the players stopped": c0}
		f.mu.Unlock()
		d["stacks"] = p.dump()
		r.Violate("the example matchmaker does not activate every created ticket", d)
	}
	stop.Store(true)
	f.mu.Lock()
	c1 := f.cycles
	f.mu.Unlock()
	if !lib.Await(90*time.Second, func() bool { check(); f.mu.Lock(); defer f.mu.Unlock(); return f.cycles >= c1+2 && f.pending == 0 }) {
		r.Violate("the example matchmaker stops running its cycles", map[string]any{"run": what, "cycles": c1, "stacks": p.dump()})
	}
	p.kill()
	f.judge(what, true)
}

// c27real: the example matchmaker with its own functions and the real om-core; judged by what the storage holds.
func c27real(r *lib.Run, conn string, tix, dur int) {
	what := "real om-core, " + conn
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_LOGGING_LEVEL": "fatal"}))
	defer o.Stop()
	p := startMM(r, o.Port, "-conn", conn, "-tix", fmt.Sprint(tix), "-dur", fmt.Sprint(dur), "-ignoreempty")
	type state struct{ acts, deacts, before int }
	look := func() (map[string]*state, int, int) {
		st := map[string]*state{}
		waiting, deacts := 0, 0
		for _, e := range s.Live() {
			if len(e.Fields) < 2 {
				continue
			}
			id := e.Fields[1]
			switch e.Fields[0] {
			case "ticket":
				st[e.ID()] = &state{}
			case "activate":
				if st[id] != nil {
					st[id].acts++
					if st[id].acts > 1 && st[id].deacts == 0 {
						st[id].before++
					}
				}
			case "deactivate":
				if st[id] != nil {
					st[id].deacts++
				}
				deacts++
			}
		}
		for _, t := range st {
			if t.acts == 0 {
				waiting++
			}
		}
		return st, waiting, deacts
	}
	check := func() {
		if p.gone() {
			r.Violate("the example matchmaker ends although tickets keep arriving", map[string]any{"run": what, "exit": fmt.Sprint(p.err), "log": p.tail()})
		}
	}
	fail := func(title string) {
		st, waiting, deacts := look()
		r.Violate(title, map[string]any{"run": what, "tickets": len(st), "of": tix * dur, "never activated": waiting, "deactivations": deacts, "stacks": p.dump()})
	}
	last, progress := 0, 0
	if !lib.Await(time.Duration(dur+120)*time.Second, func() bool {
		check()
		st, waiting, deacts := look()
		if deacts > last {
			last = deacts
			progress++
		}
		time.Sleep(200 * time.Millisecond)
		return len(st) >= tix*dur && waiting == 0
	}) {
		fail("the example matchmaker does not activate every created ticket")
	}
	// all of them are offered to the functions by a further cycle: the dps, tank and healer of the last second too
	if !lib.Await(120*time.Second, func() bool {
		check()
		st, _, _ := look()
		left := 0
		for _, t := range st {
			if t.deacts == 0 {
				left++
			}
		}
		time.Sleep(200 * time.Millisecond)
		return left <= 3 // the duel function pairs the tickets: at most one is left over (and what was re-activated)
	}) {
		fail("the example matchmaker stops running its cycles")
	}
	st, _, deacts := look()
	re := 0
	for id, t := range st {
		if t.before > 0 {
			r.Violate("the example matchmaker activates a created ticket more than once", map[string]any{"run": what, "ticket": id, "activations": t.acts, "before any match": t.before})
		}
		re += t.acts - 1
	}
	check()
	p.kill()
	r.Eval(re > 0, what, len(st), deacts, re)
	r.Count("tickets_through_om_core", len(st))
	r.Count("deactivations_through_om_core", deacts)
	r.Count("reactivations_through_om_core", re)
	r.Count("progress_polls", progress)
}

func c27(r *lib.Run) {
	r.Rule = "the example matchmaker binary runs against a stand-in for om-core (gRPC and REST) that hands out scripted matches and records every activation call. Judged: calls of at most 500 ids; every created ticket activated exactly once before it is matched; for every match either all or none of its tickets activated once more, completed before the process exits; no other id activated; all cycles run, also with empty results, failing invocations and many rejected tickets"
	r.Assumptions = []string{"the rejection of matches is drawn by the matchmaker itself; which matches were rejected is inferred from the re-activations"}
	rng := r.Rng("c27")
	// re-activations
	for i := 0; i < r.N(2, 8); i++ {
		cs := map[int]cycle{}
		n := 6
		for k := 1; k <= n; k++ {
			c := cycle{matches: lib.Pick(rng, []int{1, 40, 300, 900}), tickets: lib.Pick(rng, []int{1, 2, 10, 60, 100}), rosters: lib.Pick(rng, []int{1, 1, 2, 5})}
			if rng.Intn(4) == 0 {
				c.err = status.Error(codes.Internal, "injected")
			}
			cs[k] = c
		}
		cs[2] = cycle{err: status.Error(codes.Unavailable, "injected")} // a cycle without matches
		cs[n] = cycle{matches: 600, tickets: 130, rosters: 2}           // the last one rejects several calls' worth
		c27reject(r, "grpc", fmt.Sprint("rejections ", i), n, func(k int) cycle { return cs[k] }, 1500*time.Millisecond)
	}
	c27reject(r, "grpc", "many rejected tickets", 3, func(k int) cycle { return cycle{matches: 1500, tickets: 997, rosters: k} }, 20*time.Millisecond)
	c27reject(r, "grpc", "matches without tickets", 2, func(k int) cycle { return cycle{matches: 300, tickets: 0, rosters: k - 1} }, 0)
	c27reject(r, "http", "rejections over REST", 4, func(k int) cycle { return cycle{matches: 500, tickets: 40 * k, rosters: 1 + k%2} }, 500*time.Millisecond)
	// with everything real
	c27real(r, "grpc", 400, r.N(4, 12))
	c27real(r, "http", 300, r.N(4, 12))
	// simulated players
	c27sim(r, "grpc", "players", 700, r.N(4, 12), 300*time.Millisecond, true)
	c27sim(r, "grpc", "many players", r.N(6000, 15000), r.N(3, 8), 50*time.Millisecond, false)
	c27sim(r, "http", "players over REST", 300, r.N(4, 10), 300*time.Millisecond, false)
	if r.Thorough() {
		for i := 0; i < 6; i++ {
			c27sim(r, lib.Pick(rng, []string{"grpc", "http"}), fmt.Sprint("more players ", i), 200+rng.Intn(2500), 5+rng.Intn(8), time.Duration(rng.Intn(1500))*time.Millisecond, i%2 == 0)
		}
	}
}
