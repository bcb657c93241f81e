package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C24"] = c24 }

func c24(r *lib.Run) {
	r.Rule = "one evaluation = the same request made over gRPC and over its REST route (both against the same server; storage log, status code, message and details, and the response messages compared), for every route, for valid and invalid requests and with a failing storage, in three JSON spellings; on both builds of the server (workspace modules and the modules vendored in core). Non-trivial: always"
	c24round(r, "om", 0)
	c24round(r, "omalt", 1)
	for i := 2; i < r.N(2, 8); i++ {
		c24round(r, lib.Pick(r.Rng(fmt.Sprint("bin", i)), []string{"om", "omalt"}), i)
	}
}

type restRoute struct{ method, path string }

var routes = map[string]restRoute{
	"CreateTicket":               {"POST", "/v2/tickets"},
	"DeactivateTickets":          {"DELETE", "/v2/tickets:deactivate"},
	"ActivateTickets":            {"POST", "/v2/tickets:activate"},
	"InvokeMatchmakingFunctions": {"POST", "/v2/matches:fetch"},
	"CreateAssignments":          {"POST", "/v2/assignments:create"},
	"WatchAssignments":           {"POST", "/v2/assignments:watch"},
}

// the documented mapping of gRPC status codes to HTTP ones (google.rpc.Code)
var httpOf = map[codes.Code]int{codes.OK: 200, codes.Canceled: 499, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504,
	codes.NotFound: 404, codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.Unauthenticated: 401, codes.ResourceExhausted: 429,
	codes.FailedPrecondition: 400, codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501, codes.Internal: 500, codes.Unavailable: 503, codes.DataLoss: 500}

// jsonExt makes extensions whose types JSON can express.
func jsonExt(rng *rand.Rand) map[string]*anyT {
	n := rng.Intn(4)
	if n == 0 {
		return nil
	}
	out := map[string]*anyT{}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("k", rng.Intn(5))
		switch rng.Intn(5) {
		case 0:
			out[k] = &anyT{}
		case 1:
			a := &anyT{}
			a.MarshalFrom(durationpb.New(time.Duration(rng.Int63n(1e12))))
			out[k] = a
		case 2:
			a := &anyT{}
			a.MarshalFrom(timestamppb.New(time.UnixMilli(rng.Int63n(1e12))))
			out[""] = a
		default:
			out[k] = lib.Any(fmt.Sprintf("x%d \"ü\n</script>", rng.Intn(1000)))
		}
	}
	return out
}

func jsonOf(r *lib.Run, rng *rand.Rand, m proto.Message) []byte {
	o := protojson.MarshalOptions{}
	switch rng.Intn(3) {
	case 0:
		o.UseProtoNames = true
	case 1:
		o.EmitUnpopulated = true
		if rng.Intn(2) == 0 {
			o.UseEnumNumbers = true
		}
	}
	if rng.Intn(3) == 0 {
		o.Multiline = true
	}
	b, err := o.Marshal(m)
	if err != nil {
		r.Inconclusive("cannot make JSON: %v", err)
	}
	// as a client made for a later version would send it (gRPC ignores fields it does not know)
	if i := bytes.IndexByte(b, '{'); i >= 0 && rng.Intn(6) == 0 {
		add := `"zzLater":{"a":[1,{"b":null}],"c":"}"}`
		if rest := bytes.TrimSpace(b[i+1:]); len(rest) > 0 && rest[0] != '}' {
			add += ","
		}
		b = append(append(append([]byte{}, b[:i+1]...), add...), b[i+1:]...)
		r.Count("requests_with_unknown_members", 1)
	}
	return b
}

type restStatus struct {
	Code    codes.Code
	Message string
	Details []string
}

func sortedDetails(st *status.Status) []string {
	var out []string
	for _, d := range st.Proto().GetDetails() {
		b, err := protojson.Marshal(d)
		if err != nil {
			out = append(out, "unprintable "+d.GetTypeUrl())
			continue
		}
		var v any
		json.Unmarshal(b, &v)
		if m, ok := v.(map[string]any); ok {
			if l, ok := m["fieldViolations"].([]any); ok {
				sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
			}
		}
		out = append(out, fmt.Sprint(v))
	}
	return out
}

func parseRestStatus(b []byte) (*restStatus, error) {
	var x struct {
		Code    *int
		Message string
		Details []map[string]any
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	if x.Code == nil {
		return nil, fmt.Errorf("no code in %q", b)
	}
	s := &restStatus{Code: codes.Code(*x.Code), Message: x.Message}
	for _, d := range x.Details {
		if l, ok := d["fieldViolations"].([]any); ok {
			sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
		}
		s.Details = append(s.Details, fmt.Sprint(d))
	}
	return s, nil
}

var restCalls atomic.Int64

// restRequest makes the HTTP request of a REST call in one of the forms clients use: several ways to (not) declare the
// content type, with a length or in chunks, with long headers, asking before the body is sent, in small pieces.
// leaving marks a call whose client goes away before the end. Its body has a declared length: of one without, the JSON
// decoder of the REST layer may leave the end unread, and as long as it is unread Go's HTTP server does not notice that
// the client is gone.
type leaving struct{}

func restRequest(ctx context.Context, rt restRoute, body []byte, pause time.Duration) *http.Request {
	n := restCalls.Add(1)
	var rd io.Reader = bytes.NewReader(body)
	if pause > 0 {
		rd = &trickle{body, pause}
	} else if n%7 == 3 && ctx.Value(leaving{}) == nil {
		rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), bytes.NewReader(body[len(body)/2:])) // of no declared length
	}
	req, err := http.NewRequestWithContext(ctx, rt.method, "http://127.0.0.1:58081"+rt.path, rd)
	if err != nil {
		panic(err)
	}
	if ct := []string{"application/json", "application/json; charset=utf-8", "", "application/x-www-form-urlencoded", "application/json", "text/plain; charset=utf-8"}[n%6]; ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	switch n % 11 {
	case 5:
		req.Header.Set("X-Request-Trace", lib.Pad(40_000))
		req.Header.Set("User-Agent", "check/1.0 ("+lib.Pad(3000)+")")
	case 6:
		req.Header.Set("Authorization", "Bearer "+lib.Pad(4000))
		req.Header.Set("Accept", "application/json, text/plain, */*")
		req.Header.Set("Origin", "http://elsewhere.example")
	case 7:
		req.Header.Set("Expect", "100-continue")
	case 8:
		req.Close = true
	case 9:
		req.Header.Set("Accept", "text/html")
		req.Header.Set("X-Forwarded-For", "203.0.113.9, 198.51.100.1")
		req.Header.Set("Host", "open-match.example")
		req.Host = "open-match.example:443"
	}
	return req
}

// trickle is a body that comes slowly.
type trickle struct {
	b     []byte
	total time.Duration
}

func (t *trickle) Read(p []byte) (int, error) {
	if len(t.b) == 0 {
		return 0, io.EOF
	}
	const steps = 20
	time.Sleep(t.total / steps)
	n := copy(p, t.b[:min(len(t.b), 1+len(t.b)/steps)])
	t.b = t.b[n:]
	if t.total -= t.total / steps; len(t.b) > 0 && t.total < time.Millisecond {
		t.total = time.Millisecond
	}
	return n, nil
}

func restDo(rt restRoute, body []byte, pause time.Duration) (int, []byte, http.Header, error) {
	c := http.Client{Timeout: 90 * time.Second}
	resp, err := c.Do(restRequest(context.Background(), rt, body, pause))
	if err != nil {
		return 0, nil, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, resp.Header, err
}

// restUnary makes a unary call over REST.
func restUnary(r *lib.Run, rng *rand.Rand, rpc string, req, resp proto.Message) *restStatus {
	rt := routes[rpc]
	body := jsonOf(r, rng, req)
	code, b, _, err := restDo(rt, body, 0)
	fail := func(why string) {
		time.Sleep(200 * time.Millisecond)
		r.Violate(why, map[string]any{"route": rt, "body": string(headB(body)), "http": code, "error": fmt.Sprint(err), "answer": string(headB(b))})
	}
	if err != nil {
		fail("a REST route does not answer")
	}
	if code == 200 {
		if err := protojson.Unmarshal(b, resp); err != nil {
			fail("the answer of a REST route is not the JSON form of the response: " + err.Error())
		}
		return &restStatus{Code: codes.OK}
	}
	s, err2 := parseRestStatus(b)
	if err2 != nil {
		fail("the error answer of a REST route is no status: " + err2.Error())
	}
	if httpOf[s.Code] != code {
		fail("the HTTP status of a REST error does not correspond to its code")
	}
	return s
}

func headB(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

// restStream makes a streaming call over REST; on is called for every result as it arrives.
func restStream(r *lib.Run, ctx context.Context, rpc string, body []byte, on func(raw []byte)) *restStatus {
	rt := routes[rpc]
	resp, err := (&http.Client{}).Do(restRequest(ctx, rt, body, 0))
	if err != nil {
		if ctx.Err() != nil {
			return &restStatus{Code: codes.Canceled}
		}
		time.Sleep(200 * time.Millisecond)
		r.Violate("a REST route does not answer", map[string]any{"route": rt, "error": err.Error()})
	}
	defer resp.Body.Close()
	d := json.NewDecoder(bufio.NewReader(resp.Body))
	n := 0
	for {
		var m map[string]json.RawMessage
		err := d.Decode(&m)
		if err == io.EOF {
			if resp.StatusCode != 200 {
				r.Violate("a REST stream ends without a status although its HTTP status is an error", map[string]any{"route": rt, "http": resp.StatusCode})
			}
			return &restStatus{Code: codes.OK}
		}
		if err != nil {
			if ctx.Err() != nil {
				return &restStatus{Code: codes.Canceled}
			}
			time.Sleep(200 * time.Millisecond)
			r.Violate("a REST stream is not a sequence of JSON objects", map[string]any{"route": rt, "error": err.Error(), "results before": n})
		}
		switch {
		case len(m) == 1 && m["result"] != nil:
			n++
			on(m["result"])
		case len(m) == 1 && m["error"] != nil:
			s, err := parseRestStatus(m["error"])
			if err != nil {
				r.Violate("the error of a REST stream is no status", map[string]any{"route": rt, "error": string(m["error"])})
			}
			if n == 0 && httpOf[s.Code] != resp.StatusCode {
				r.Violate("the HTTP status of a REST error does not correspond to its code", map[string]any{"route": rt, "http": resp.StatusCode, "status": s})
			}
			return s
		default:
			r.Violate("a REST stream contains something else than one result per object", map[string]any{"route": rt, "object": fmt.Sprint(m)})
		}
	}
}

func grpcStatusOf(err error) *restStatus {
	st := status.Convert(err)
	return &restStatus{Code: st.Code(), Message: st.Message(), Details: sortedDetails(st)}
}

// effect is what a call stored, ids and server-made times removed.
func effect(us []lib.Upd, rename map[string]string, keepTimes bool) []string {
	var out []string
	for _, u := range us {
		k := u.Key
		if u.Cmd == "ticket" {
			k = ""
		} else if x, ok := rename[k]; ok {
			k = x
		}
		v := string(u.Val)
		if u.Ticket != nil {
			t := proto.Clone(u.Ticket).(*pb.Ticket)
			if !keepTimes {
				t.ExpirationTime = nil
				if t.Attributes != nil {
					t.Attributes.CreationTime = nil
				}
			}
			v = lib.Det(t)
		} else if u.Cmd == "assign" {
			a := &pb.Assignment{}
			if proto.Unmarshal(u.Val, a) == nil {
				v = lib.Det(a)
			}
		}
		out = append(out, u.Cmd+"|"+k+"|"+v)
	}
	return out
}

func c24round(r *lib.Run, bin string, round int) {
	rng := r.Rng(fmt.Sprint("round", round))
	s := newRedis(r)
	defer s.Close()
	o := r.StartOM(bin, lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "3", "OM_LOGGING_LEVEL": "fatal", "OM_MMF_TIMEOUT_SECS": "300"}))
	m := r.NewMMF()
	o.M = m
	refuse := map[string]bool{}
	var mu sync.Mutex
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		mu.Lock()
		defer mu.Unlock()
		if c.Name == "XADD" && len(c.Args) > 3 && (refuse[c.Args[2]] || refuse[c.Args[3]]) {
			return fredis.Action{Err: "OOM command not allowed when used memory > 'maxmemory'."}
		}
		return fredis.Action{}
	})
	setRefuse := func(on bool, keys ...string) {
		mu.Lock()
		defer mu.Unlock()
		for _, k := range keys {
			refuse[k] = on
		}
	}
	log := func(from int) []lib.Upd { return lib.DecodeAll(from, s.Entries(from)) }
	compare := func(rpc string, req proto.Message, g, h *restStatus, eg, eh []string, extra map[string]any) {
		det := map[string]any{"build": bin, "rpc": rpc, "request": fmt.Sprint(req)[:min(1500, len(fmt.Sprint(req)))], "grpc": g, "rest": h, "stored by grpc": headS(eg), "stored by rest": headS(eh), "more": extra}
		if g.Code != h.Code || g.Message != h.Message || !(len(g.Details) == 0 && len(h.Details) == 0) && !reflect.DeepEqual(g.Details, h.Details) {
			r.Violate("REST and gRPC answer the same request with different statuses", det)
		}
		if !(len(eg) == 0 && len(eh) == 0) && !reflect.DeepEqual(eg, eh) {
			r.Violate("REST and gRPC have different effects", det)
		}
		r.Eval(true, bin, rpc, fmt.Sprint(req))
		r.Count("pairs_"+rpc+"_"+g.Code.String(), 1)
	}
	ctx := context.Background()

	long := c24longStart(r, o, m, rng, bin)
	// tickets
	var ids []string
	for i := 0; i < r.N(60, 200); i++ {
		t := &pb.Ticket{Attributes: lib.GenAttrs(rng), Extensions: jsonExt(rng)}
		if t.Attributes == nil {
			t.Attributes = &pb.Ticket_FilterableData{}
		}
		t.Attributes.Tags = append(t.Attributes.Tags, "c24")
		keep := rng.Intn(2) == 0
		if keep {
			t.Attributes.CreationTime = timestamppb.New(time.Now().Add(-time.Minute))
			t.ExpirationTime = timestamppb.New(time.Now().Add(5 * time.Minute))
		}
		if rng.Intn(8) == 0 {
			t.Id = "my-own"
		}
		if i%12 == 5 { // large, within the limits of gRPC
			if t.Extensions == nil {
				t.Extensions = map[string]*anyT{}
			}
			t.Extensions["large"] = lib.Any(lib.Pad(lib.Pick(rng, []int{70_000, 300_000, 1_100_000, 2_300_000, 4_000_000})))
			r.Count("large_tickets", 1)
		}
		req := &pb.CreateTicketRequest{Ticket: t}
		fail := false
		switch rng.Intn(12) {
		case 0:
			req.Ticket = nil
		case 1:
			fail = true
			setRefuse(true, "ticket")
		}
		l0 := s.Len()
		gr, err := o.C.CreateTicket(ctx, req)
		l1 := s.Len()
		hr := &pb.CreateTicketResponse{}
		h := restUnary(r, rng, "CreateTicket", req, hr)
		all := log(l0)
		if fail {
			setRefuse(false, "ticket")
		}
		compare("CreateTicket", req, grpcStatusOf(err), h, effect(all[:l1-l0], nil, keep), effect(all[l1-l0:], nil, keep), nil)
		if err == nil {
			if us := all[l1-l0:]; len(us) != 1 || us[0].ID != hr.TicketId {
				r.Violate("REST returns another id than the one stored", map[string]any{"build": bin, "returned": hr.TicketId, "stored": fmt.Sprint(us)})
			}
			ids = append(ids, gr.TicketId, hr.TicketId)
		}
	}
	// (de)activations
	n := 0
	pairIDs := func(k int) (a, b []string, ren map[string]string) {
		ren = map[string]string{}
		for i := 0; i < k; i++ {
			n++
			x, y := ids[(2*n)%len(ids)], ids[(2*n+1)%len(ids)]
			if k > len(ids)/2 || rng.Intn(12) == 0 {
				x = fmt.Sprintf("%d-%d", time.Now().Add(-time.Hour).UnixMilli(), n) // well formed, unknown
				y = x
			}
			if rng.Intn(15) == 0 {
				x = lib.Pick(rng, []string{"", "nope", "1-1x", "ü-1"})
				y = x
			}
			a, b = append(a, x), append(b, y)
			ren[y] = x
		}
		return
	}
	for i := 0; i < r.N(50, 200); i++ {
		k := lib.Pick(rng, []int{0, 1, 1, 2, 5, 20, 500, 501})
		if k >= 500 && rng.Intn(3) > 0 {
			k = 3
		}
		on := i%2 == 0
		a, b, ren := pairIDs(k)
		var failing []string
		if rng.Intn(4) == 0 && k > 0 && k < 100 {
			failing = []string{a[0], b[0]}
			setRefuse(true, failing...)
		}
		l0 := s.Len()
		var err error
		var h *restStatus
		var l1 int
		rpc := "ActivateTickets"
		var req proto.Message
		if on {
			_, err = o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: a})
			l1 = s.Len()
			req = &pb.ActivateTicketsRequest{TicketIds: b}
			h = restUnary(r, rng, rpc, req, &pb.ActivateTicketsResponse{})
		} else {
			rpc = "DeactivateTickets"
			_, err = o.C.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: a})
			l1 = s.Len()
			req = &pb.DeactivateTicketsRequest{TicketIds: b}
			h = restUnary(r, rng, rpc, req, &pb.DeactivateTicketsResponse{})
		}
		setRefuse(false, failing...)
		all := log(l0)
		g := grpcStatusOf(err)
		for _, x := range []*restStatus{g, h} { // the messages name ids and positions
			for j := range x.Details {
				for y, z := range ren {
					if y != "" {
						x.Details[j] = strings.ReplaceAll(x.Details[j], y, z)
					}
				}
			}
		}
		compare(rpc, req, g, h, effect(all[:l1-l0], nil, true), effect(all[l1-l0:], ren, true), nil)
	}
	// assignments
	for i := 0; i < r.N(40, 150); i++ {
		k := lib.Pick(rng, []int{0, 1, 1, 2, 5, 20, 500, 501})
		if k >= 500 && rng.Intn(3) > 0 {
			k = 3
		}
		a, b, ren := pairIDs(k)
		ro := &pb.Roster{Name: "r", Assignment: &pb.Assignment{Connection: fmt.Sprint("host:", i), Extensions: jsonExt(rng)}}
		mk := func(ids []string) *pb.CreateAssignmentsRequest {
			x := proto.Clone(ro).(*pb.Roster)
			x.Tickets = ticketsOf(ids)
			return &pb.CreateAssignmentsRequest{AssignmentRoster: x}
		}
		ra, rb := mk(a), mk(b)
		switch rng.Intn(10) {
		case 0:
			ra.AssignmentRoster.Assignment, rb.AssignmentRoster.Assignment = nil, nil
		case 1:
			ra.AssignmentRoster, rb.AssignmentRoster = nil, nil
		}
		var failing []string
		if rng.Intn(4) == 0 && k > 0 && k < 100 {
			failing = []string{a[0], b[0]}
			setRefuse(true, failing...)
		}
		l0 := s.Len()
		_, err := o.C.CreateAssignments(ctx, ra)
		l1 := s.Len()
		h := restUnary(r, rng, "CreateAssignments", rb, &pb.CreateAssignmentsResponse{})
		setRefuse(false, failing...)
		all := log(l0)
		compare("CreateAssignments", rb, grpcStatusOf(err), h, effect(all[:l1-l0], nil, true), effect(all[l1-l0:], ren, true), nil)
	}
	o.Barrier()
	c24streams(r, o, m, s, rng, bin, ids)
	c24load(r, o, s, m, bin)
	c24crowd(r, o, m, bin)
	long(time.Duration(r.N([]int{64, 14}[round%2], 130)) * time.Second)
	o.Stop()
}

// c24longStart begins an invocation and a watch over REST that go on for long; the function returned ends them (once
// they have lasted d) and judges them.
func c24longStart(r *lib.Run, o *lib.OM, m *lib.MMF, rng *rand.Rand, bin string) func(d time.Duration) {
	start := time.Now()
	name := "c24-slow-" + bin
	release := make(chan bool)
	m.On(name, func(c *lib.Call) error {
		if err := c.Send(&pb.Match{Id: "first"}); err != nil {
			return err
		}
		<-release
		return c.Send(&pb.Match{Id: "last"})
	})
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	inv := make(chan string, 1)
	body := jsonOf(r, rng, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("slow")}})
	go func() {
		var got []string
		st := restStream(r, ctx, "InvokeMatchmakingFunctions", body, func(raw []byte) {
			x := &pb.StreamedMmfResponse{}
			protojson.Unmarshal(raw, x)
			got = append(got, x.GetMatch().GetId())
		})
		inv <- fmt.Sprint(st.Code, got)
	}()
	ids := o.CreateN([]*pb.Ticket{lib.TagTicket("slow"), lib.TagTicket("slow")})
	wat := make(chan string, 1)
	wbody := jsonOf(r, rng, &pb.WatchAssignmentsRequest{TicketIds: ids})
	go func() {
		n := 0
		st := restStream(r, ctx, "WatchAssignments", wbody, func([]byte) { n++ })
		wat <- fmt.Sprint(st.Code, n)
	}()
	m.On(name+"-none", func(c *lib.Call) error { return nil })
	// requests whose bodies take seconds to arrive
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rt := routes["CreateTicket"]
			var rq proto.Message = &pb.CreateTicketRequest{Ticket: lib.TagTicket("trickle")}
			if k%2 == 1 {
				rt = routes["InvokeMatchmakingFunctions"]
				rq = &pb.MmfRequest{Profile: &pb.Profile{Name: name + "-none"}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("none")}}
			}
			b, _ := protojson.Marshal(rq)
			t0 := time.Now()
			code, ans, _, err := restDo(rt, b, time.Duration(6+2*k)*time.Second)
			if err != nil || code != 200 {
				r.Violate("a REST request whose body arrives slowly is not served", map[string]any{"build": bin, "route": rt, "http": code, "error": fmt.Sprint(err), "answer": string(headB(ans)), "took_s": time.Since(t0).Seconds()})
			}
			r.Max("slowest_rest_body_ms", time.Since(t0).Milliseconds())
			r.Eval(true, bin, "trickle", k)
		}()
	}
	return func(d time.Duration) {
		defer cancel()
		wg.Wait()
		if x := time.Until(start.Add(d)); x > 0 {
			time.Sleep(x)
		}
		lasted := time.Since(start).Seconds()
		close(release)
		if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "slow"}, Tickets: ticketsOf(ids)}}); err != nil {
			r.Violate("assignment fails without reason", err.Error())
		}
		if x := <-inv; x != "OK [first last]" {
			r.Violate("a long invocation over REST does not deliver all matches", map[string]any{"build": bin, "lasted_s": lasted, "status and matches": x})
		}
		if x := <-wat; x != "OK 2" {
			r.Violate("a long watch over REST does not deliver the assignments", map[string]any{"build": bin, "lasted_s": lasted, "status and messages": x})
		}
		m.Off(name)
		r.Eval(true, bin, "long")
		r.Max("rest_streams_lasted_s", int64(lasted))
	}
}

func headS(s []string) []string {
	if len(s) > 12 {
		return s[:12]
	}
	return s
}

func c24streams(r *lib.Run, o *lib.OM, m *lib.MMF, s *fredis.Server, rng *rand.Rand, bin string, ids []string) {
	ctx, cancel := lib.Ctx()
	defer cancel()
	refused := lib.FreePort()
	for i := 0; i < r.N(30, 120); i++ {
		name := fmt.Sprintf("c24-%s-%d", bin, i)
		nm := lib.Pick(rng, []int{0, 1, 2, 30, 400})
		big := rng.Intn(6) == 0
		var ms []*pb.Match
		for k := 0; k < nm; k++ {
			x := &pb.Match{Id: fmt.Sprintf("%s-%d", name, k), Extensions: jsonExt(rng), Rosters: map[string]*pb.Roster{}}
			for j := rng.Intn(3); j > 0; j-- {
				ro := &pb.Roster{Name: fmt.Sprint("r", j), Extensions: jsonExt(rng)}
				for q := rng.Intn(3); q > 0; q-- {
					ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: lib.Pick(rng, ids), Attributes: lib.GenAttrs(rng), Extensions: jsonExt(rng)})
				}
				if rng.Intn(3) == 0 {
					ro.Assignment = &pb.Assignment{Connection: "x", Extensions: jsonExt(rng)}
				}
				x.Rosters[ro.Name] = ro
			}
			if big && k < 2 {
				x.Extensions = map[string]*anyT{"pad": lib.Any(strings.Repeat("p", 3_700_000))}
			}
			ms = append(ms, x)
		}
		fail := rng.Intn(6) == 0
		pools := make(chan *lib.Call, 8)
		m.On(name, func(c *lib.Call) error {
			pools <- c
			for _, x := range ms {
				if err := c.Send(x); err != nil {
					return err
				}
			}
			if fail {
				return status.Error(codes.Aborted, "function fails")
			}
			return nil
		})
		req := &pb.MmfRequest{Profile: &pb.Profile{Name: name, Extensions: jsonExt(rng), Pools: map[string]*pb.Pool{"p": lib.TagPool("c24")}}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}}
		if i%8 == 3 {
			req.Profile.Extensions = map[string]*anyT{"large": lib.Any(lib.Pad(lib.Pick(rng, []int{300_000, 1_200_000, 2_500_000})))}
			r.Count("large_profiles", 1)
		}
		for j := rng.Intn(3); j > 0; j-- {
			p := lib.GenPool(rng, lib.PoolOpt{CreationTime: true})
			p.Extensions = jsonExt(rng)
			req.Profile.Pools[fmt.Sprint("g", j)] = p
		}
		if rng.Intn(5) == 0 {
			req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Name: "dead", Host: "127.0.0.1", Port: int32(refused), Type: pb.MatchmakingFunctionSpec_GRPC})
		}
		if rng.Intn(5) == 0 {
			req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Name: "rest", Host: "127.0.0.1", Port: int32(refused), Type: pb.MatchmakingFunctionSpec_REST})
		}
		switch rng.Intn(12) {
		case 0:
			req.Profile = nil
		case 1:
			req.Mmfs = nil
		}
		var g, h []string
		gm, err := o.Invoke(ctx, req)
		for _, x := range gm {
			g = append(g, lib.Det(x))
		}
		gs := grpcStatusOf(err)
		hs := restStream(r, ctx, "InvokeMatchmakingFunctions", jsonOf(r, rng, req), func(raw []byte) {
			x := &pb.StreamedMmfResponse{}
			if err := protojson.Unmarshal(raw, x); err != nil {
				r.Violate("a result of a REST stream is not the JSON form of the response", map[string]any{"error": err.Error(), "result": string(headB(raw))})
			}
			h = append(h, lib.Det(x.GetMatch()))
		})
		sort.Strings(g)
		sort.Strings(h)
		det := map[string]any{"build": bin, "sent by the function": nm, "grpc matches": len(g), "rest matches": len(h), "grpc": gs, "rest": hs, "big": big, "function fails": fail}
		if gs.Code != hs.Code || gs.Message != hs.Message {
			r.Violate("REST and gRPC answer the same request with different statuses", det)
		}
		if !(len(g) == 0 && len(h) == 0) && !reflect.DeepEqual(g, h) {
			r.Violate("REST and gRPC return different matches", det)
		}
		if gs.Code == codes.OK {
			if len(g) != nm {
				r.Violate("an invocation does not return all matches", det)
			}
			var calls []*lib.Call
			for len(calls) < 2 {
				select {
				case c := <-pools:
					calls = append(calls, c)
				case <-time.After(30 * time.Second):
					r.Violate("the function was not called by both invocations", det)
				}
			}
			pa := lib.Det(stripTickets(calls[0].Chunks[0].GetProfile()))
			pb2 := lib.Det(stripTickets(calls[1].Chunks[0].GetProfile()))
			if pa != pb2 {
				r.Violate("the profile reaches the function differently over REST", map[string]any{"grpc": fmt.Sprint(stripTickets(calls[0].Chunks[0].GetProfile())), "rest": fmt.Sprint(stripTickets(calls[1].Chunks[0].GetProfile()))})
			}
		}
		r.Eval(true, bin, "invoke", i, nm)
		r.Count("pairs_Invoke_"+gs.Code.String(), 1)
		r.Count("rest_matches", len(h))
		m.Off(name)
	}
	// results come while the call is running
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("c24-live-%s-%d", bin, i)
		next := make(chan bool)
		m.On(name, func(c *lib.Call) error {
			for k := 0; k < 4; k++ {
				if err := c.Send(&pb.Match{Id: fmt.Sprint(k)}); err != nil {
					return err
				}
				select {
				case <-next:
				case <-time.After(40 * time.Second):
					r.Violate("a match is not delivered over REST before the function ends", map[string]any{"match": k})
				}
			}
			return nil
		})
		seen := 0
		restStream(r, ctx, "InvokeMatchmakingFunctions", jsonOf(r, rng, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("live")}}), func([]byte) {
			seen++
			next <- true
		})
		if seen != 4 {
			r.Violate("matches are missing over REST", map[string]any{"seen": seen})
		}
		r.Eval(true, bin, "live", i)
	}
	// watches: some ids assigned before, some while the watches run
	for i := 0; i < r.N(4, 12); i++ {
		tag := fmt.Sprintf("c24w-%d", i)
		var ts []*pb.Ticket
		for k := 0; k < 20; k++ {
			ts = append(ts, lib.TagTicket(tag))
		}
		ids := o.CreateN(ts)
		if i == 0 {
			ids = nil
		}
		want := map[string]string{}
		assign := func(x []string) {
			for _, id := range x {
				a := &pb.Assignment{Connection: "at " + id, Extensions: jsonExt(rng)}
				if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: a, Tickets: ticketsOf([]string{id})}}); err != nil {
					r.Violate("assignment fails without reason", err.Error())
				}
				want[id] = lib.Det(a)
			}
		}
		assign(ids[:len(ids)/2])
		o.Barrier()
		var wg sync.WaitGroup
		var g *watchResult
		h := map[string][]string{}
		var hs *restStatus
		body := jsonOf(r, rng, &pb.WatchAssignmentsRequest{TicketIds: ids})
		half := make(chan bool, 64)
		wg.Add(2)
		go func() {
			defer wg.Done()
			g = watch(ctx, o.C, ids, func(string, *pb.Assignment) { half <- true })
		}()
		go func() {
			defer wg.Done()
			hs = restStream(r, ctx, "WatchAssignments", body, func(raw []byte) {
				x := &pb.StreamedWatchAssignmentsResponse{}
				if err := protojson.Unmarshal(raw, x); err != nil {
					r.Violate("a result of a REST stream is not the JSON form of the response", map[string]any{"error": err.Error(), "result": string(headB(raw))})
				}
				h[x.GetId()] = append(h[x.GetId()], lib.Det(x.GetAssignment()))
				half <- true
			})
		}()
		for k := 0; k < len(ids)/2*2; k++ { // both see the first half while the watch runs
			select {
			case <-half:
			case <-time.After(40 * time.Second):
				r.Violate("assignments are not delivered while the watch runs", map[string]any{"build": bin, "delivered": k})
			}
		}
		if len(ids) > 0 {
			assign(ids[len(ids)/2:])
		}
		wg.Wait()
		gs := grpcStatusOf(nil)
		if g.err != io.EOF {
			gs = grpcStatusOf(g.err)
		}
		if gs.Code != hs.Code {
			r.Violate("REST and gRPC watches end with different statuses", map[string]any{"grpc": gs, "rest": hs})
		}
		for _, id := range ids {
			if len(h[id]) != 1 || len(g.got[id]) != 1 || h[id][0] != want[id] || lib.Det(g.got[id][0]) != want[id] {
				r.Violate("REST and gRPC watches deliver different assignments", map[string]any{"id": id, "grpc": len(g.got[id]), "rest": len(h[id]), "rest assignment": fmt.Sprint(h[id])})
			}
			r.Eval(true, bin, "watch", i, id)
		}
		if len(h) != len(ids) {
			r.Violate("a REST watch delivers assignments of other tickets", map[string]any{"ids": len(ids), "got": len(h)})
		}
		r.Count("pairs_watch", 1)
	}
	// a REST caller that goes away ends its watch
	n0, _, _ := lib.Goroutines()
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cctx, ccancel := context.WithTimeout(ctx, 1500*time.Millisecond)
			defer ccancel()
			ids := make([]string, 100)
			for k := range ids {
				ids[k] = fmt.Sprintf("%d-%d", time.Now().UnixMilli(), 5000+k)
			}
			b, _ := protojson.Marshal(&pb.WatchAssignmentsRequest{TicketIds: ids})
			restStream(r, context.WithValue(cctx, leaving{}, true), "WatchAssignments", b, func([]byte) {})
		}()
	}
	wg.Wait()
	var n1 int
	var prof string
	if !lib.Await(40*time.Second, func() bool { n1, prof, _ = lib.Goroutines(); return n1 < n0+100 }) {
		r.Violate("watches go on after their REST callers left", map[string]any{"goroutines before": n0, "after": n1, "profile": prof[:min(len(prof), 3000)]})
	}
	r.Eval(true, bin, "abandoned watches")
}

func stripTickets(p *pb.Profile) *pb.Profile {
	c := proto.Clone(p).(*pb.Profile)
	for _, x := range c.Pools {
		if x.Participants != nil {
			x.Participants.Tickets = nil
		}
	}
	return c
}

// c24load: the REST API alone, concurrently.
func c24load(r *lib.Run, o *lib.OM, s *fredis.Server, m *lib.MMF, bin string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	owner := map[string]string{} // id -> tag
	for w := 0; w < 8; w++ {
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("load", bin, w))
		go func() {
			defer wg.Done()
			var mine []string
			for k := 0; k < r.N(40, 200); k++ {
				tag := fmt.Sprintf("load-%d-%d", w, k)
				resp := &pb.CreateTicketResponse{}
				if st := restUnary(r, rng, "CreateTicket", &pb.CreateTicketRequest{Ticket: lib.TagTicket("load", tag)}, resp); st.Code != codes.OK {
					r.Violate("CreateTicket over REST fails without reason", st)
				}
				mu.Lock()
				if x, ok := owner[resp.TicketId]; ok {
					r.Violate("two REST callers get the same ticket id", map[string]any{"id": resp.TicketId, "tags": []string{x, tag}})
				}
				owner[resp.TicketId] = tag
				mu.Unlock()
				mine = append(mine, resp.TicketId)
				if st := restUnary(r, rng, "ActivateTickets", &pb.ActivateTicketsRequest{TicketIds: []string{resp.TicketId}}, &pb.ActivateTicketsResponse{}); st.Code != codes.OK {
					r.Violate("ActivateTickets over REST fails without reason", st)
				}
				if k%3 == 0 {
					if st := restUnary(r, rng, "DeactivateTickets", &pb.DeactivateTicketsRequest{TicketIds: mine[:1]}, &pb.DeactivateTicketsResponse{}); st.Code != codes.OK {
						r.Violate("DeactivateTickets over REST fails without reason", st)
					}
					mine = mine[1:]
					mu.Lock()
					mu.Unlock()
				}
			}
			mu.Lock()
			for _, id := range mine {
				owner[id] += "*"
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	o.Barrier()
	got := o.QueryTag("load")
	for id, tag := range owner {
		t := got[id]
		active := strings.HasSuffix(tag, "*")
		if active != (t != nil) {
			r.Violate("calls over REST do not have their effect", map[string]any{"build": bin, "id": id, "last call": map[bool]string{true: "activate", false: "deactivate"}[active], "in pool": t != nil})
		}
		if t != nil && t.GetAttributes().GetTags()[1] != strings.TrimSuffix(tag, "*") {
			r.Violate("REST returned the id of another ticket", map[string]any{"id": id, "tags": t.GetAttributes().GetTags(), "mine": tag})
		}
		r.Eval(true, bin, "load", tag)
	}
}

// c24crowd: a great many REST calls that wait for something, all at the same time, and others in between.
func c24crowd(r *lib.Run, o *lib.OM, m *lib.MMF, bin string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	rng := r.Rng("crowd" + bin)
	n := r.N(150, 500)
	var ts []*pb.Ticket
	for i := 0; i < n; i++ {
		ts = append(ts, lib.TagTicket("crowd"))
	}
	ids := o.CreateN(ts)
	name := "c24-crowd-" + bin
	gate := make(chan bool)
	var called atomic.Int64
	m.On(name, func(c *lib.Call) error {
		called.Add(1)
		<-gate
		return c.Send(&pb.Match{Id: "crowd"})
	})
	var wg sync.WaitGroup
	ends := make([]string, 2*n)
	body := jsonOf(r, rng, &pb.MmfRequest{Profile: &pb.Profile{Name: name}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("f")}})
	for i := 0; i < 2*n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var got []string
			rpc, b := "InvokeMatchmakingFunctions", body
			if i%2 == 1 {
				rpc = "WatchAssignments"
				b, _ = protojson.Marshal(&pb.WatchAssignmentsRequest{TicketIds: ids[i/2 : i/2+1]})
			}
			st := restStream(r, ctx, rpc, b, func(raw []byte) {
				if i%2 == 1 {
					x := &pb.StreamedWatchAssignmentsResponse{}
					protojson.Unmarshal(raw, x)
					got = append(got, fmt.Sprint(x.GetId() == ids[i/2], " ", x.GetAssignment().GetConnection()))
				} else {
					x := &pb.StreamedMmfResponse{}
					protojson.Unmarshal(raw, x)
					got = append(got, x.GetMatch().GetId())
				}
			})
			ends[i] = fmt.Sprint(st.Code, got)
		}()
	}
	lib.Await(60*time.Second, func() bool { return called.Load() == int64(n) })
	for k := 0; k < 5; k++ { // the others are served meanwhile
		resp := &pb.CreateTicketResponse{}
		if st := restUnary(r, rng, "CreateTicket", &pb.CreateTicketRequest{Ticket: lib.TagTicket("crowd")}, resp); st.Code != codes.OK {
			r.Violate("CreateTicket over REST fails without reason", map[string]any{"status": st, "other_calls_in_progress": 2 * n})
		}
	}
	inProgress := called.Load()
	close(gate)
	for i := 0; i < n; i += 100 {
		if _, err := o.C.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "crowd"}, Tickets: ticketsOf(ids[i:min(i+100, n)])}}); err != nil {
			r.Violate("assignment fails without reason", err.Error())
		}
	}
	wg.Wait()
	for i, e := range ends {
		if want := []string{"OK [crowd]", "OK [true crowd]"}[i%2]; e != want {
			r.Violate("one of many simultaneous REST calls is not served", map[string]any{"build": bin, "calls": 2 * n, "call": []string{"invocation", "watch"}[i%2], "expected": want, "status and results": e})
		}
		r.Eval(true, bin, "crowd", i)
	}
	m.Off(name)
	r.Max("rest_calls_at_once", 2*inProgress)
}
