package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// Call is one invocation of a fake matchmaking function.
type Call struct {
	M      *MMF
	Name   string // profile name
	Chunks []*pb.ChunkedMmfRunRequest
	Sizes  []int
	Err    error // the request ended before the announced number of chunks arrived
	Start  time.Time
	Got    time.Time
	Stream pb.MatchMakingFunctionService_RunServer
}

// Send streams a match back.
func (c *Call) Send(m *pb.Match) error { return c.Stream.Send(&pb.StreamedMmfResponse{Match: m}) }

// Extra waits for chunks beyond the announced number (up to d) and returns how many came.
func (c *Call) Extra(d time.Duration) int {
	n := make(chan int, 1)
	ctx, cancel := context.WithCancel(c.Stream.Context())
	defer cancel()
	var cnt atomic.Int64
	go func() {
		for {
			if _, err := c.Stream.Recv(); err != nil {
				break
			}
			cnt.Add(1)
		}
		n <- 1
	}()
	select {
	case <-n:
	case <-time.After(d):
	case <-ctx.Done():
	}
	return int(cnt.Load())
}

// Script is what a fake function does once it received the request.
type Script func(c *Call) error

// MMF is a fake matchmaking function server; scripts are selected by profile name.
type MMF struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	R    *Run
	Port int
	srv  *grpc.Server
	ln   *trackLn

	mu      sync.Mutex
	scripts map[string]Script
	Default Script
	Pre     func(stream pb.MatchMakingFunctionService_RunServer) (bool, error) // may take over before anything is read
	calls   int

	ChunkPause time.Duration // wait so long before reading the next chunk
}

type trackLn struct {
	net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
}

func (l *trackLn) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.conns[c] = true
		l.mu.Unlock()
	}
	return c, err
}

// DropAll cuts every TCP connection of the function server.
func (m *MMF) DropAll() {
	m.ln.mu.Lock()
	for c := range m.ln.conns {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		c.Close()
	}
	m.ln.conns = map[net.Conn]bool{}
	m.ln.mu.Unlock()
}

// NewMMF starts a fake function server.
func (r *Run) NewMMF() *MMF { return r.NewMMFAt(0) }

// NewMMFAt starts one on the given port.
func (r *Run) NewMMFAt(port int) *MMF {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		r.Inconclusive("%v", err)
	}
	m := &MMF{R: r, Port: l.Addr().(*net.TCPAddr).Port, scripts: map[string]Script{}, ln: &trackLn{Listener: l, conns: map[net.Conn]bool{}}}
	m.srv = grpc.NewServer(grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30), grpc.MaxConcurrentStreams(100000))
	pb.RegisterMatchMakingFunctionServiceServer(m.srv, m)
	go m.srv.Serve(m.ln)
	r.OnExit(func() { m.srv.Stop() })
	return m
}

// On sets the script for a profile name.
func (m *MMF) On(profile string, s Script) { m.mu.Lock(); m.scripts[profile] = s; m.mu.Unlock() }

// Off removes it.
func (m *MMF) Off(profile string) { m.mu.Lock(); delete(m.scripts, profile); m.mu.Unlock() }

// Calls counts the invocations received.
func (m *MMF) Calls() int { m.mu.Lock(); defer m.mu.Unlock(); return m.calls }

// Stop ends the server.
func (m *MMF) Stop() { m.srv.Stop() }

// Spec names this server in an invocation.
func (m *MMF) Spec(name string) *pb.MatchmakingFunctionSpec {
	return &pb.MatchmakingFunctionSpec{Name: name, Host: "127.0.0.1", Port: int32(m.Port), Type: pb.MatchmakingFunctionSpec_GRPC}
}

// Run implements the function service.
func (m *MMF) Run(stream pb.MatchMakingFunctionService_RunServer) error {
	m.mu.Lock()
	m.calls++
	pre := m.Pre
	m.mu.Unlock()
	if pre != nil {
		if done, err := pre(stream); done {
			return err
		}
	}
	c := &Call{M: m, Stream: stream, Start: time.Now()}
	type rcv struct {
		in  *pb.ChunkedMmfRunRequest
		err error
	}
	for n := 1; ; n++ {
		ch := make(chan rcv, 1)
		go func() { in, err := stream.Recv(); ch <- rcv{in, err} }()
		var x rcv
		select {
		case x = <-ch:
		case <-time.After(45 * time.Second):
			x.err = errors.New("no further chunk for 45 s")
		}
		if x.err != nil {
			c.Err = fmt.Errorf("after %d chunks: %w", n-1, x.err)
			break
		}
		c.Chunks = append(c.Chunks, x.in)
		c.Sizes = append(c.Sizes, proto.Size(x.in))
		c.Name = x.in.GetProfile().GetName()
		time.Sleep(m.ChunkPause)
		if int(x.in.GetNumChunks()) <= n {
			break
		}
	}
	c.Got = time.Now()
	m.mu.Lock()
	s := m.scripts[c.Name]
	if s == nil {
		s = m.Default
	}
	m.mu.Unlock()
	if s == nil {
		if c.Err != nil {
			return status.Error(codes.Internal, c.Err.Error())
		}
		return nil
	}
	return s(c)
}

// Obs is what one pool query saw.
type Obs struct {
	Pools      map[string]map[string]*pb.Ticket
	Dups       []string
	Start, Got time.Time
	Call       *Call
}

// PoolsOf collects the tickets of a request's chunks by pool.
func PoolsOf(chunks []*pb.ChunkedMmfRunRequest) (map[string]map[string]*pb.Ticket, []string) {
	pools := map[string]map[string]*pb.Ticket{}
	var dups []string
	for _, ch := range chunks {
		for name, p := range ch.GetProfile().GetPools() {
			if pools[name] == nil {
				pools[name] = map[string]*pb.Ticket{}
			}
			for _, t := range p.GetParticipants().GetTickets() {
				if _, ok := pools[name][t.GetId()]; ok {
					dups = append(dups, name+"/"+t.GetId())
				}
				pools[name][t.GetId()] = t
			}
		}
	}
	return pools, dups
}

// TryQuery runs an invocation whose only purpose is to see the pools.
func (o *OM) TryQuery(pools map[string]*pb.Pool) (*Obs, error) {
	o.mOnce.Do(func() {
		if o.M == nil {
			o.M = o.R.NewMMF()
		}
	})
	name := fmt.Sprintf("query-%d-%d", o.Port, o.qn.Add(1))
	got := make(chan *Call, 4)
	o.M.On(name, func(c *Call) error { got <- c; return nil })
	defer o.M.Off(name)
	ctx, cancel := Ctx()
	defer cancel()
	obs := &Obs{Start: time.Now()}
	st, err := o.C.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{
		Profile: &pb.Profile{Name: name, Pools: pools}, Mmfs: []*pb.MatchmakingFunctionSpec{o.M.Spec("query")}})
	if err != nil {
		return nil, err
	}
	for {
		m, err := st.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		return nil, fmt.Errorf("unexpected match %v", m)
	}
	select {
	case c := <-got:
		if c.Err != nil {
			return nil, fmt.Errorf("incomplete request: %w", c.Err)
		}
		obs.Call, obs.Got = c, c.Got
		obs.Pools, obs.Dups = PoolsOf(c.Chunks)
	default:
		return nil, errors.New("the function was not called")
	}
	o.R.Count("pool_queries", 1)
	return obs, nil
}

// Query is TryQuery where failure is a violation.
func (o *OM) Query(pools map[string]*pb.Pool) *Obs {
	obs, err := o.TryQuery(pools)
	if err != nil {
		time.Sleep(200 * time.Millisecond) // a crash is reported by the process monitor
		o.R.Violate("invocation with a healthy function fails", map[string]any{"error": err.Error()})
	}
	return obs
}

// TagPool makes a pool of one tag.
func TagPool(tags ...string) *pb.Pool {
	p := &pb.Pool{Name: "tagpool"}
	for _, t := range tags {
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: t})
	}
	return p
}

// QueryTag returns the tickets visible under a tag.
func (o *OM) QueryTag(tag string) map[string]*pb.Ticket {
	obs := o.Query(map[string]*pb.Pool{"p": TagPool(tag)})
	if len(obs.Dups) > 0 {
		o.R.Violate("ticket delivered twice in a pool", obs.Dups)
	}
	return obs.Pools["p"]
}

// TagTicket is a ticket with tags only.
func TagTicket(tags ...string) *pb.Ticket {
	return &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: tags}}
}

// Create makes a ticket; failure is a violation.
func (o *OM) Create(t *pb.Ticket) string {
	ctx, cancel := Ctx()
	defer cancel()
	resp, err := o.C.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
	if err != nil || resp.GetTicketId() == "" {
		time.Sleep(200 * time.Millisecond)
		o.R.Violate("CreateTicket fails without reason", map[string]any{"error": fmt.Sprint(err), "response": fmt.Sprint(resp)})
	}
	return resp.GetTicketId()
}

// CreateN makes tickets concurrently, returning ids in argument order.
func (o *OM) CreateN(ts []*pb.Ticket) []string {
	ids := make([]string, len(ts))
	var wg sync.WaitGroup
	sem := make(chan bool, 256)
	for i := range ts {
		wg.Add(1)
		sem <- true
		go func() { defer wg.Done(); ids[i] = o.Create(ts[i]); <-sem }()
	}
	wg.Wait()
	return ids
}

// Activate activates ids (in calls of at most 400); failure is a violation.
func (o *OM) Activate(ids ...string) { o.setActive(true, ids) }

// Deactivate deactivates ids.
func (o *OM) Deactivate(ids ...string) { o.setActive(false, ids) }

func (o *OM) setActive(on bool, ids []string) {
	for len(ids) > 0 {
		n := len(ids)
		if n > 400 {
			n = 400
		}
		ctx, cancel := Ctx()
		var err error
		if on {
			_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids[:n]})
		} else {
			_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids[:n]})
		}
		cancel()
		if err != nil {
			time.Sleep(200 * time.Millisecond)
			o.R.Violate("(de)activation fails without reason", map[string]any{"activate": on, "error": err.Error(), "ids": ids[:n]})
		}
		ids = ids[n:]
	}
}

var barrierN atomic.Int64

// Barrier waits until everything stored so far has been applied by the instance: a marker ticket created and
// activated after it must become visible (within a generous bound, else progress is violated).
func (o *OM) Barrier() {
	tag := fmt.Sprintf("zz-barrier-%d", barrierN.Add(1))
	id := o.Create(TagTicket(tag))
	o.Activate(id)
	o.AwaitVisible(tag, id)
	o.Deactivate(id)
}

// AwaitVisible polls until the ticket is in the pool of the tag.
func (o *OM) AwaitVisible(tag, id string) {
	n := 0
	if !Await(60*time.Second, func() bool { n++; _, ok := o.QueryTag(tag)[id]; return ok }) {
		o.CheckLog()
		o.R.Violate("an activated ticket never becomes visible", map[string]any{"id": id, "polls": n})
	}
	o.R.Count("barriers", 1)
}

// BarrierInjected is Barrier with the marker put directly into the storage.
func (o *OM) BarrierInjected(add func([][]string) []string) {
	tag := fmt.Sprintf("zz-barrier-%d", barrierN.Add(1))
	ids := add([][]string{{"ticket", string(StoredTicket(TagTicket(tag), 600))}})
	add([][]string{{"activate", ids[0]}})
	o.AwaitVisible(tag, ids[0])
	add([][]string{{"deactivate", ids[0]}})
}

// Invoke runs an invocation and collects the matches.
func (o *OM) Invoke(ctx context.Context, req *pb.MmfRequest) ([]*pb.Match, error) {
	st, err := o.C.InvokeMatchmakingFunctions(ctx, req)
	if err != nil {
		return nil, err
	}
	var out []*pb.Match
	for {
		m, err := st.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, m.GetMatch())
	}
}

// BarrierLim is Barrier (single-ticket calls only, whatever the limit).
func (o *OM) BarrierLim(limit int) { o.Barrier() }

// SetPre installs (or removes) the function that may take over a call before anything is read.
func (m *MMF) SetPre(f func(stream pb.MatchMakingFunctionService_RunServer) (bool, error)) {
	m.mu.Lock()
	m.Pre = f
	m.mu.Unlock()
}
