// vf runs the parts of the checks that use the matchmaking function library and the sample functions.
package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"open-match.dev/functions/golang/battleroyale"
	"open-match.dev/functions/golang/soloduel"
	"open-match.dev/functions/golang/teamshooter"
	"open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func main() {
	logrus.SetOutput(io.Discard)
	lib.ChildMain(map[string]func(r *lib.Run){"reassemble": reassemble, "functions": functions, "race": race})
}

// ---- reassembly ----

type mockStream struct {
	grpc.ServerStream
	chunks []*pb.ChunkedMmfRunRequest
	end    error
	n      int
}

func (m *mockStream) Context() context.Context           { return context.Background() }
func (m *mockStream) Send(*pb.StreamedMmfResponse) error { return nil }
func (m *mockStream) RecvMsg(any) error                  { return io.EOF }
func (m *mockStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if m.n >= len(m.chunks) {
		return nil, m.end
	}
	m.n++
	return m.chunks[m.n-1], nil
}

type splitCase struct {
	p      *pb.Profile // name, extensions, pools without participants
	want   map[string][]string
	chunks []*pb.ChunkedMmfRunRequest
	how    string
}

// genSplit distributes pools over chunks.
func genSplit(rng *rand.Rand, key string) *splitCase {
	c := &splitCase{p: &pb.Profile{Name: lib.Pick(rng, []string{"", "profile " + key, "ünï"}), Extensions: lib.GenExt(rng, 3), Pools: map[string]*pb.Pool{}}, want: map[string][]string{}}
	n := lib.Pick(rng, []int{1, 1, 2, 3, 5, 17, 60})
	np := rng.Intn(7)
	for i := 0; i < np; i++ {
		p := lib.GenPool(rng, lib.PoolOpt{CreationTime: true})
		k := lib.Pick(rng, []string{fmt.Sprint("p", i), fmt.Sprint("pool ", i), ""})
		c.p.Pools[k] = p
		c.want[k] = nil
	}
	for i := 0; i < n; i++ {
		c.chunks = append(c.chunks, &pb.ChunkedMmfRunRequest{NumChunks: int32(n), Profile: &pb.Profile{Name: c.p.Name, Extensions: c.p.Extensions, Pools: map[string]*pb.Pool{}}})
	}
	c.how = lib.Pick(rng, []string{"every pool in every chunk", "pools only where they have tickets", "mixed"})
	id := 0
	var prev *pb.Ticket
	for k, p := range c.p.Pools {
		present := make([]bool, n)
		any := false
		for i := range present {
			present[i] = c.how == "every pool in every chunk" || rng.Intn(2) == 0
			any = any || present[i]
		}
		if !any {
			present[rng.Intn(n)] = true
		}
		for i := 0; i < n; i++ {
			if !present[i] {
				continue
			}
			q := proto.Clone(p).(*pb.Pool)
			var ts []*pb.Ticket
			for j := lib.Pick(rng, []int{0, 0, 1, 2, 9}); j > 0; j-- {
				id++
				t := &pb.Ticket{Id: fmt.Sprintf("%s-%d", key, id), Attributes: lib.GenAttrs(rng)}
				if prev != nil && rng.Intn(6) == 0 { // the same ticket again, or another one of the same id
					t = proto.Clone(prev).(*pb.Ticket)
					if rng.Intn(2) == 0 {
						t.Attributes = lib.GenAttrs(rng)
					}
				}
				prev = t
				ts = append(ts, t)
				c.want[k] = append(c.want[k], lib.Det(t))
			}
			switch {
			case len(ts) > 0:
				q.Participants = &pb.Roster{Name: k + "_roster", Tickets: ts}
			case rng.Intn(2) == 0:
				q.Participants = &pb.Roster{Name: k + "_roster"}
			}
			c.chunks[i].Profile.Pools[k] = q
		}
	}
	return c
}

func judgeProfile(r *lib.Run, c *splitCase, got *pb.Profile, where string) {
	bad := func(what string, d any) {
		r.Violate("a chunked request is reassembled wrongly", map[string]any{"what": what, "where": where, "split": c.how, "chunks": len(c.chunks), "detail": d, "pools sent": lib.SortedKeys(c.p.Pools)})
	}
	if got == nil {
		bad("no profile", nil)
	}
	if got.GetName() != c.p.GetName() {
		bad("profile name", got.GetName())
	}
	want := &pb.Profile{Extensions: c.p.Extensions}
	have := &pb.Profile{Extensions: got.GetExtensions()}
	if lib.Det(want) != lib.Det(have) {
		bad("profile extensions", fmt.Sprint(have))
	}
	if len(got.GetPools()) != len(c.p.Pools) {
		bad("pools", lib.SortedKeys(got.GetPools()))
	}
	for k, p := range c.p.Pools {
		g := got.GetPools()[k]
		if g == nil {
			bad("pool missing", k)
		}
		// both sides cloned: proto.Clone itself drops the sign of a negative zero
		x := proto.Clone(g).(*pb.Pool)
		x.Participants = nil
		if lib.Det(x) != lib.Det(proto.Clone(p)) {
			bad("name, filters or extensions of a pool", map[string]any{"pool": k, "got": fmt.Sprint(x), "want": fmt.Sprint(p)})
		}
		var ts []string
		for _, t := range g.GetParticipants().GetTickets() {
			ts = append(ts, lib.Det(t))
		}
		if !(len(ts) == 0 && len(c.want[k]) == 0) && !reflect.DeepEqual(ts, c.want[k]) {
			bad("tickets of a pool", map[string]any{"pool": k, "got": len(ts), "want": len(c.want[k])})
		}
	}
}

// capture is a function server that hands over what the library returned.
type capture struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	got chan captured
}
type captured struct {
	p   *pb.Profile
	err error
}

func (c *capture) Run(st pb.MatchMakingFunctionService_RunServer) error {
	p, err := server.GetChunkedRequest(st)
	c.got <- captured{p, err}
	return err
}

func serve(r *lib.Run, s pb.MatchMakingFunctionServiceServer) pb.MatchMakingFunctionServiceClient {
	_, c := servePort(r, s)
	return c
}

func servePort(r *lib.Run, s pb.MatchMakingFunctionServiceServer) (int, pb.MatchMakingFunctionServiceClient) {
	port := lib.FreePort()
	go server.StartServer(int32(port), s)
	return port, dial(r, port)
}

func dial(r *lib.Run, port int) pb.MatchMakingFunctionServiceClient {
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	if !lib.Await(60*time.Second, func() bool {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil
	}) {
		r.Violate("a function server does not start", port)
	}
	conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		r.Inconclusive("%v", err)
	}
	return pb.NewMatchMakingFunctionServiceClient(conn)
}

func reassemble(r *lib.Run) {
	rng := r.Rng("reassemble")
	for i := 0; i < r.N(3000, 40000); i++ {
		c := genSplit(rng, fmt.Sprint(i))
		st := &mockStream{chunks: c.chunks, end: io.EOF}
		extra := rng.Intn(4) == 0
		if extra { // announced chunks are complete: nothing further is needed
			st.end = status.Error(codes.Internal, "stream broken after the last chunk")
		}
		p, err := server.GetChunkedRequest(st)
		if err != nil {
			r.Violate("a complete chunked request is refused", map[string]any{"error": err.Error(), "chunks": len(c.chunks)})
		}
		judgeProfile(r, c, p, "in-process")
		r.Eval(len(c.chunks) > 1, "split", len(c.chunks), c.how, i)
		r.Count("chunks", len(c.chunks))
		r.Max("chunks", int64(len(c.chunks)))
	}
	for i := 0; i < r.N(2000, 20000); i++ {
		c := genSplit(rng, fmt.Sprint("e", i))
		k := rng.Intn(len(c.chunks))
		end := lib.Pick(rng, []error{io.EOF, io.ErrUnexpectedEOF, status.Error(codes.Canceled, "cancelled"), status.Error(codes.ResourceExhausted, "too big"), context.DeadlineExceeded})
		p, err := server.GetChunkedRequest(&mockStream{chunks: c.chunks[:k], end: end})
		if err == nil || p != nil {
			r.Violate("an incomplete chunked request yields a profile or no error", map[string]any{"received": k, "announced": len(c.chunks), "stream": end.Error(), "error": fmt.Sprint(err), "profile": p != nil})
		}
		r.Eval(true, "incomplete", k, len(c.chunks), end.Error(), i)
		r.Count("incomplete_requests", 1)
	}
	hugeRequests(r)
	// over the wire, concurrently
	cap := &capture{got: make(chan captured, 1)}
	cl := serve(r, cap)
	for i := 0; i < r.N(150, 1500); i++ {
		c := genSplit(rng, fmt.Sprint("w", i))
		ctx, cancel := lib.Ctx()
		st, err := cl.Run(ctx)
		if err != nil {
			r.Violate("a function server cannot be called", err.Error())
		}
		k := len(c.chunks)
		if i%3 == 2 {
			k = rng.Intn(len(c.chunks))
		}
		for _, ch := range c.chunks[:k] {
			st.Send(ch)
		}
		if k < len(c.chunks) && rng.Intn(2) == 0 {
			cancel()
		} else {
			st.CloseSend()
		}
		if k < len(c.chunks) {
			select {
			case x := <-cap.got:
				if x.err == nil || x.p != nil {
					r.Violate("an incomplete chunked request yields a profile or no error", map[string]any{"received": k, "announced": len(c.chunks)})
				}
			case <-time.After(5 * time.Second): // the cancelled call never arrived
				r.Count("calls_cancelled_before_arrival", 1)
				cap.got = make(chan captured, 1)
			}
		} else {
			select {
			case x := <-cap.got:
				if x.err != nil {
					r.Violate("a complete chunked request is refused", map[string]any{"error": x.err.Error(), "chunks": len(c.chunks)})
				}
				judgeProfile(r, c, x.p, "over gRPC")
			case <-time.After(60 * time.Second):
				r.Violate("a function server does not process a complete request", map[string]any{"chunks": len(c.chunks)})
			}
		}
		cancel()
		r.Eval(true, "wire", i)
		r.Count("requests_over_grpc", 1)
	}
	// the sample functions do not match on incomplete requests
	for name, s := range map[string]pb.MatchMakingFunctionServiceServer{"duel": &soloduel.MmfServer{}, "team": &teamshooter.MmfServer{}, "royale": &battleroyale.MmfServer{}} {
		cl := serve(r, s)
		for i := 0; i < r.N(15, 100); i++ {
			j := genJob(rng, name, fmt.Sprint("inc", name, i))
			j.chunk(rng, 2+rng.Intn(4))
			ms, _ := j.run(cl, len(j.chunks)-1)
			if len(ms) > 0 {
				r.Violate("a function matches tickets of an incomplete request", map[string]any{"function": name, "matches": len(ms)})
			}
			r.Eval(true, "incomplete", name, i)
		}
	}
}

// hugeRequests: pools of hundreds of thousands of tickets, and thousands of chunks.
func hugeRequests(r *lib.Run) {
	rng := r.Rng("huge")
	for i := 0; i < r.N(2, 8); i++ {
		chunks := lib.Pick(rng, []int{12, 60, 400})
		total := map[string]int{"big": 120_000 + rng.Intn(60_000), "small": rng.Intn(3000), "empty": 0, "one": 1}
		if i%2 == 1 {
			chunks, total["big"] = 5000+rng.Intn(3000), 20_000
		}
		c := &splitCase{p: &pb.Profile{Name: fmt.Sprint("huge", i), Extensions: lib.GenExt(rng, 3), Pools: map[string]*pb.Pool{}}, want: map[string][]string{}, how: "huge"}
		for n := 0; n < chunks; n++ {
			c.chunks = append(c.chunks, &pb.ChunkedMmfRunRequest{NumChunks: int32(chunks), Profile: &pb.Profile{Name: c.p.Name, Extensions: c.p.Extensions, Pools: map[string]*pb.Pool{}}})
		}
		for k, size := range total {
			p := lib.GenPool(rng, lib.PoolOpt{CreationTime: true})
			c.p.Pools[k] = p
			last := 0
			for n := 0; n < chunks; n++ {
				q := proto.Clone(p).(*pb.Pool)
				end := size * (n + 1) / chunks
				var ts []*pb.Ticket
				for j := last; j < end; j++ {
					ts = append(ts, &pb.Ticket{Id: fmt.Sprintf("%s-%d", k, j)})
					c.want[k] = append(c.want[k], lib.Det(ts[len(ts)-1]))
				}
				last = end
				q.Participants = &pb.Roster{Name: k + "_roster", Tickets: ts}
				c.chunks[n].Profile.Pools[k] = q
			}
		}
		p, err := server.GetChunkedRequest(&mockStream{chunks: c.chunks, end: io.EOF})
		if err != nil {
			r.Violate("a complete chunked request is refused", map[string]any{"error": err.Error(), "chunks": len(c.chunks)})
		}
		judgeProfile(r, c, p, "in-process")
		r.Eval(true, "huge", chunks, total["big"], i)
		r.Max("tickets_in_a_pool", int64(total["big"]))
		r.Max("chunks", int64(chunks))
	}
}

// ---- sample functions ----

type job struct {
	fn     string
	p      *pb.Profile
	pool   map[string]string // ticket id -> pool
	det    map[string]string // ticket id -> content
	sizes  map[string]int
	chunks []*pb.ChunkedMmfRunRequest
}

var fnPools = map[string][]string{"duel": {"a", "b", "c", "", "tank"}, "team": {"tank", "healer", "dps"}, "royale": {"competitive"}}

func poolSize(rng *rand.Rand, fn, pool string) int {
	switch fn {
	case "royale":
		return lib.Pick(rng, []int{0, 1, 99, 100, 101, 199, 200, 201, 350, rng.Intn(1500)})
	case "team":
		n := lib.Pick(rng, []int{0, 1, 2, 3, 4, 5, 10, 11, 40, rng.Intn(120)})
		if pool == "dps" {
			n = lib.Pick(rng, []int{0, 1, 2, 3, 5, 6, 7, 11, 12, 13, 30, 120, rng.Intn(400)})
		}
		return n
	}
	return lib.Pick(rng, []int{0, 1, 2, 3, 4, 5, 17, 100, rng.Intn(500)})
}

func genJob(rng *rand.Rand, fn, key string) *job {
	j := &job{fn: fn, p: &pb.Profile{Name: lib.Pick(rng, []string{"prof " + key, "", "ünï"}), Extensions: lib.GenExt(rng, 2), Pools: map[string]*pb.Pool{}}, pool: map[string]string{}, det: map[string]string{}, sizes: map[string]int{}}
	names := append([]string{}, fnPools[fn]...)
	if fn == "duel" {
		names = names[:rng.Intn(len(names)+1)]
	} else {
		if rng.Intn(8) == 0 {
			names = names[:rng.Intn(len(names))]
		}
		if rng.Intn(2) == 0 {
			names = append(names, "unrelated", "all")
		}
	}
	id := 0
	for _, n := range names {
		p := &pb.Pool{Name: lib.Pick(rng, []string{n, "other name"}), Participants: &pb.Roster{Name: n + "_roster"}}
		for k := poolSize(rng, fn, n); k > 0; k-- {
			id++
			t := &pb.Ticket{Id: fmt.Sprintf("%d-%d", 1700000000000+int64(id), rng.Intn(3)), Attributes: lib.GenAttrs(rng)}
			p.Participants.Tickets = append(p.Participants.Tickets, t)
			j.pool[t.Id], j.det[t.Id] = n, lib.Det(t)
			j.sizes[n]++
		}
		j.p.Pools[n] = p
	}
	return j
}

// chunk splits the request the way om-core does.
func (j *job) chunk(rng *rand.Rand, n int) {
	j.chunks = nil
	for i := 0; i < n; i++ {
		c := proto.Clone(j.p).(*pb.Profile)
		for k, p := range c.Pools {
			ts := j.p.Pools[k].Participants.Tickets
			lo, hi := len(ts)*i/n, len(ts)*(i+1)/n
			p.Participants.Tickets = p.Participants.Tickets[lo:hi]
		}
		j.chunks = append(j.chunks, &pb.ChunkedMmfRunRequest{Profile: c, NumChunks: int32(n)})
	}
}

// run sends the first k chunks and collects the matches.
func (j *job) run(cl pb.MatchMakingFunctionServiceClient, k int) ([]*pb.Match, error) {
	ctx, cancel := lib.Ctx()
	defer cancel()
	st, err := cl.Run(ctx)
	if err != nil {
		return nil, err
	}
	for _, c := range j.chunks[:k] {
		if err := st.Send(c); err != nil {
			break
		}
	}
	st.CloseSend()
	var ms []*pb.Match
	for {
		m, err := st.Recv()
		if err == io.EOF {
			return ms, nil
		}
		if err != nil {
			return ms, err
		}
		ms = append(ms, m.GetMatch())
		if len(ms) > len(j.pool)+50 { // more matches than tickets: it may never stop
			return ms, nil
		}
	}
}

// judge the matches of one run.
func (j *job) judge(r *lib.Run, ms []*pb.Match, content bool) {
	bad := func(what string, d any) {
		r.Violate("a sample function produces invalid matches", map[string]any{"function": j.fn, "what": what, "pool sizes": j.sizes, "chunks": len(j.chunks), "matches": len(ms), "detail": d})
	}
	want := 0
	switch j.fn {
	case "duel":
		want = len(j.pool) / 2
	case "team":
		want = min(j.sizes["tank"]/2, j.sizes["healer"]/2, j.sizes["dps"]/6, 100_000)
	case "royale":
		want = j.sizes["competitive"] / 100
	}
	if len(ms) != want {
		bad("number of matches", map[string]any{"expected": want})
	}
	ids, used := map[string]bool{}, map[string]bool{}
	fname := ""
	for _, m := range ms {
		if m.GetId() == "" || ids[m.GetId()] {
			bad("match id empty or repeated", m.GetId())
		}
		ids[m.GetId()] = true
		var sc wrapperspb.Int32Value
		var mn, pn wrapperspb.StringValue
		if x := m.GetExtensions()["score"]; x == nil || x.UnmarshalTo(&sc) != nil {
			bad("score extension", fmt.Sprint(m.GetExtensions()))
		}
		if x := m.GetExtensions()["mmfName"]; x == nil || x.UnmarshalTo(&mn) != nil || mn.Value == "" || fname != "" && fname != mn.Value {
			bad("function name extension", fmt.Sprint(m.GetExtensions()))
		}
		fname = mn.Value
		if x := m.GetExtensions()["profileName"]; x == nil || x.UnmarshalTo(&pn) != nil || pn.Value != j.p.Name {
			bad("profile name extension", fmt.Sprint(m.GetExtensions()))
		}
		nr := map[string]int{"duel": 1, "team": 2, "royale": 1}[j.fn]
		nt := map[string]int{"duel": 2, "team": 5, "royale": 100}[j.fn]
		if len(m.GetRosters()) != nr {
			bad("number of rosters", len(m.GetRosters()))
		}
		for rn, ro := range m.GetRosters() {
			if len(ro.GetTickets()) != nt {
				bad("roster size", map[string]any{"roster": rn, "tickets": len(ro.GetTickets())})
			}
			comp := map[string]int{}
			for _, t := range ro.GetTickets() {
				if used[t.GetId()] {
					bad("a ticket appears twice", t.GetId())
				}
				used[t.GetId()] = true
				pl, ok := j.pool[t.GetId()]
				if !ok || content && j.det[t.GetId()] != lib.Det(t) {
					bad("a ticket that is in no pool, or altered", fmt.Sprint(t))
				}
				comp[pl]++
			}
			if j.fn == "team" && !reflect.DeepEqual(comp, map[string]int{"tank": 1, "healer": 1, "dps": 3}) || j.fn == "royale" && comp["competitive"] != 100 {
				bad("composition of a roster", comp)
			}
		}
	}
	r.Count("matches_"+j.fn, len(ms))
	r.Max("matches_in_a_run_"+j.fn, int64(len(ms)))
	r.Eval(len(j.pool) > 0, j.fn, fmt.Sprint(j.sizes), len(j.chunks))
}

func functions(r *lib.Run) {
	cls := map[string]pb.MatchMakingFunctionServiceClient{"duel": nil, "team": nil, "royale": nil}
	ports := map[string]int{}
	for n, s := range map[string]pb.MatchMakingFunctionServiceServer{"duel": &soloduel.MmfServer{}, "team": &teamshooter.MmfServer{}, "royale": &battleroyale.MmfServer{}} {
		ports[n], cls[n] = servePort(r, s)
	}
	jobs := func(key string, n int, cl func(fn string) pb.MatchMakingFunctionServiceClient, fns []string) {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			rng := r.Rng(fmt.Sprint(key, w))
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					fn := fns[i%len(fns)]
					j := genJob(rng, fn, fmt.Sprint(key, w, i))
					j.chunk(rng, lib.Pick(rng, []int{1, 1, 2, 5}))
					ms, err := j.run(cl(fn), len(j.chunks))
					if err != nil {
						r.Violate("a sample function fails", map[string]any{"function": fn, "error": err.Error(), "pool sizes": j.sizes})
					}
					j.judge(r, ms, true)
				}
			}()
		}
		wg.Wait()
	}
	jobs("direct", r.N(90, 900), func(fn string) pb.MatchMakingFunctionServiceClient { return cls[fn] }, []string{"duel", "team", "royale"})
	// all small size combinations of the team function
	rng := r.Rng("small")
	for t := 0; t <= 5; t++ {
		for h := 0; h <= 5; h++ {
			for d := 0; d <= 14; d++ {
				if !r.Thorough() && rng.Intn(3) > 0 {
					continue
				}
				j := &job{fn: "team", p: &pb.Profile{Name: "small", Pools: map[string]*pb.Pool{}}, pool: map[string]string{}, det: map[string]string{}, sizes: map[string]int{}}
				for n, k := range map[string]int{"tank": t, "healer": h, "dps": d} {
					p := &pb.Pool{Name: n, Participants: &pb.Roster{}}
					for i := 0; i < k; i++ {
						x := &pb.Ticket{Id: fmt.Sprintf("%s-%d", n, i)}
						p.Participants.Tickets = append(p.Participants.Tickets, x)
						j.pool[x.Id], j.det[x.Id] = n, lib.Det(x)
						j.sizes[n]++
					}
					j.p.Pools[n] = p
				}
				j.chunk(rng, 1)
				ms, err := j.run(cls["team"], 1)
				if err != nil {
					r.Violate("a sample function fails", map[string]any{"function": "team", "error": err.Error(), "pool sizes": j.sizes})
				}
				j.judge(r, ms, true)
			}
		}
	}
	// many matches: as many as the pools allow
	var hwg sync.WaitGroup
	for i := 0; i < r.N(1, 6); i++ {
		team := 1
		if i == 2 { // more than the function makes in one run
			team = 75
		}
		for fn, sizes := range map[string]map[string]int{
			"duel":   {"a": 1 + rng.Intn(20_000) + 110_000*((i+1)%2), "b": rng.Intn(9_000), "c": 1 + rng.Intn(3)},
			"team":   {"tank": team * (3000 + rng.Intn(2000)), "healer": team * (3000 + rng.Intn(2000)), "dps": team * (9000 + rng.Intn(6000))},
			"royale": {"competitive": 100*r.N(200, 1500) + rng.Intn(200)},
		} {
			jrng := r.Rng(fmt.Sprint("many", fn, i))
			hwg.Add(1)
			go func() {
				defer hwg.Done()
				j := &job{fn: fn, p: &pb.Profile{Name: "many", Pools: map[string]*pb.Pool{}}, pool: map[string]string{}, det: map[string]string{}, sizes: map[string]int{}}
				for n, k := range sizes {
					p := &pb.Pool{Name: n, Participants: &pb.Roster{}}
					for i := 0; i < k; i++ {
						x := &pb.Ticket{Id: fmt.Sprintf("%s-%d", n, i)}
						p.Participants.Tickets = append(p.Participants.Tickets, x)
						j.pool[x.Id], j.det[x.Id] = n, lib.Det(x)
						j.sizes[n]++
					}
					j.p.Pools[n] = p
				}
				j.chunk(jrng, 4+jrng.Intn(6)+len(j.pool)/50_000)
				ms, err := j.run(cls[fn], len(j.chunks))
				if err != nil {
					r.Violate("a sample function fails", map[string]any{"function": fn, "error": err.Error(), "pool sizes": j.sizes})
				}
				j.judge(r, ms, true)
			}()
		}
	}
	hwg.Wait()
	// the stand-alone function server
	if path := os.Getenv("VERIF_MMF"); path != "" {
		port := lib.FreePort()
		cmd := exec.Command(path)
		cmd.Env = []string{fmt.Sprint("PORT=", port), "HOME=" + r.Dir}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			r.Inconclusive("%v", err)
		}
		cl := dial(r, port)
		jobs("binary", r.N(10, 100), func(string) pb.MatchMakingFunctionServiceClient { return cl }, []string{"duel"})
		r.Count("runs_of_the_function_server_binary", 8*r.N(10, 100))
		cmd.Process.Kill()
		cmd.Wait()
	}
	if path := os.Getenv("VERIF_OM"); path != "" {
		throughOM(r, path, ports)
	}
}

// throughOM runs the sample functions behind om-core: requests large enough for several chunks, tickets created and
// activated by clients, matches returned to a matchmaker.
func throughOM(r *lib.Run, path string, ports map[string]int) {
	r.Bins = map[string]string{"om": path}
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), map[string]string{"OM_LOGGING_LEVEL": "fatal"}))
	rng := r.Rng("om")
	for round := 0; round < r.N(2, 6); round++ {
		for _, fn := range []string{"duel", "team", "royale"} {
			tag := fmt.Sprintf("%s%d", fn, round)
			var ts []*pb.Ticket
			var names []string
			switch fn {
			case "duel":
				names = []string{"a", "b", "c"}
			default:
				names = fnPools[fn]
			}
			j := &job{fn: fn, p: &pb.Profile{Name: tag, Pools: map[string]*pb.Pool{}}, pool: map[string]string{}, det: map[string]string{}, sizes: map[string]int{}}
			var of []string
			for _, n := range names {
				j.p.Pools[n] = &pb.Pool{Name: n, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}, {Tag: n}}}
				for k := poolSize(rng, fn, n); k > 0; k-- {
					t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{tag, n}}}
					if k%4 == 0 {
						t.Extensions = lib.GenExt(rng, 1)
						t.Attributes.StringArgs = map[string]string{"pad": strings.Repeat("x", 40_000)} // several chunks
					}
					ts = append(ts, t)
					of = append(of, n)
				}
			}
			ids := o.CreateN(ts)
			for i, id := range ids {
				j.pool[id] = of[i]
				j.sizes[of[i]]++
			}
			o.Activate(ids...)
			o.Barrier()
			ctx, cancel := lib.Ctx()
			ms, err := o.Invoke(ctx, &pb.MmfRequest{Profile: j.p, Mmfs: []*pb.MatchmakingFunctionSpec{{Name: fn, Host: "127.0.0.1", Port: int32(ports[fn]), Type: pb.MatchmakingFunctionSpec_GRPC}}})
			cancel()
			if err != nil {
				r.Violate("an invocation of a sample function fails", map[string]any{"function": fn, "error": err.Error()})
			}
			j.judge(r, ms, false)
			// what was matched has left the pools, the rest is still there
			matched := map[string]bool{}
			for _, m := range ms {
				for _, ro := range m.GetRosters() {
					for _, t := range ro.GetTickets() {
						matched[t.GetId()] = true
					}
				}
			}
			o.Barrier()
			left := o.QueryTag(tag)
			var wrong []string
			for _, id := range ids {
				if _, in := left[id]; in == matched[id] {
					wrong = append(wrong, id)
				}
			}
			sort.Strings(wrong)
			if len(wrong) > 0 {
				r.Violate("the pools do not hold the unmatched tickets after a run", map[string]any{"function": fn, "wrong": wrong[:min(5, len(wrong))], "matched": len(matched), "left": len(left)})
			}
			r.Count("runs_through_om_core", 1)
		}
	}
	o.Stop()
}

// race: the functions and the library under concurrent runs, for the race detector.
func race(r *lib.Run) {
	var wg sync.WaitGroup
	for n, s := range map[string]pb.MatchMakingFunctionServiceServer{"duel": &soloduel.MmfServer{}, "team": &teamshooter.MmfServer{}, "royale": &battleroyale.MmfServer{}} {
		cl := serve(r, s)
		for w := 0; w < 4; w++ {
			wg.Add(1)
			rng := r.Rng(fmt.Sprint("race", n, w))
			go func() {
				defer wg.Done()
				for i := 0; i < r.N(25, 150); i++ {
					j := genJob(rng, n, fmt.Sprint("r", w, i))
					j.chunk(rng, 1+rng.Intn(4))
					k := len(j.chunks)
					if rng.Intn(6) == 0 {
						k--
					}
					j.run(cl, k)
					r.Eval(true, "race", n, w, i)
				}
			}()
		}
	}
	wg.Wait()
	r.Count("race_function_runs", 3*4*r.N(25, 150))
}
