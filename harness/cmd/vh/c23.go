package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C23"] = c23 }

func c23(r *lib.Run) {
	r.Rule = "one evaluation = one hostile request (mutated or random bytes in a gRPC message of any method, valid messages with hostile contents, random bytes on the gRPC and REST ports, malformed JSON and HTTP on every route) or one hostile function response (undecodable, oversized, empty or missing matches, absurd ids, broken HTTP/2, floods); judged: the request ends with a status within its deadline, the server process lives, and honest clients served at the same time and afterwards get correct results. Non-trivial: always"
	r.Assumptions = []string{"watches for tickets with far-future ids legitimately last long; they are ended by the client"}
	for i := 0; i < r.N(2, 8); i++ {
		c23round(r, i)
	}
}

// rawCodec passes bytes through.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v any) error {
	*(v.(*[]byte)) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

// mutate changes the wire form of a message.
func mutate(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + rng.Intn(4); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = rng.Intn(len(b))
		}
		switch rng.Intn(9) {
		case 0:
			if len(b) > 0 {
				b[i] ^= 1 << rng.Intn(8)
			}
		case 1:
			b = b[:i]
		case 2:
			j := i + rng.Intn(min(len(b)-i, 20)+1)
			b = append(b[:i], b[j:]...)
		case 3: // duplicate a range
			j := i + rng.Intn(min(len(b)-i, 50)+1)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 4:
			x := make([]byte, rng.Intn(12))
			rng.Read(x)
			b = append(append(append([]byte{}, b[:i]...), x...), b[i:]...)
		case 5:
			b = append(append(append([]byte{}, b[:i]...), protowire.AppendVarint(nil, math.MaxUint64>>uint(rng.Intn(40)))...), b[i:]...)
		case 6: // an unknown or wrongly typed field
			b = protowire.AppendTag(b, protowire.Number(1+rng.Intn(20)), protowire.Type(rng.Intn(6)))
		case 7: // a huge announced length
			b = protowire.AppendTag(b, protowire.Number(1+rng.Intn(6)), protowire.BytesType)
			b = protowire.AppendVarint(b, uint64(rng.Int63n(1<<33)))
		case 8: // fields in another order
			var fs [][]byte
			rest := b
			for len(rest) > 0 {
				_, _, n := protowire.ConsumeField(rest)
				if n <= 0 {
					break
				}
				fs = append(fs, rest[:n])
				rest = rest[n:]
			}
			rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			b = append(bytes.Join(fs, nil), rest...)
		}
	}
	return b
}

var absurdIDs = []string{"", "-", "0-0", "1-1", "99999999999999999999-1", "9999999999999-0", "253402300799999-0", "18446744073709551615-18446744073709551615", "-1--1", "1700000000000-", "-5", "1-1-1",
	"9223372036854775807-9223372036854775807", "9223372036854775808-0", "9223372036854-1", "0", "a-b", "\x00", "1-1\n", "１-１", "%n%s%d", "../../etc/passwd", "1e9-1", "0x10-1", "*", "$", "+", strings.Repeat("9", 5000) + "-1", strings.Repeat("x", 70000), "💣-1"}

var extremeTimes = []*timestamppb.Timestamp{{Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Nanos: math.MaxInt32}, {Nanos: math.MinInt32}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999}, {Seconds: 253402300800}, {Seconds: -1}, {},
	{Seconds: math.MaxInt64 / 1000}, {Seconds: 9223372036, Nanos: 854775807}, {Seconds: 9223372037}, {Seconds: -9223372037}}

func hostileExt(rng *rand.Rand) map[string]*anyT {
	m := map[string]*anyT{}
	for n := rng.Intn(4); n > 0; n-- {
		k := lib.Pick(rng, []string{"", "a", "\n", strings.Repeat("k", 3000), "@type", "value",
			"score", "mmfName", "mmf_name", "profileName", "profile_name", "quality", "evaluation_input", "region", "priority", "ttl"})
		switch rng.Intn(5) {
		case 0:
			m[k] = &anypb.Any{}
		case 1:
			m[k] = &anypb.Any{TypeUrl: "type.googleapis.com/no.such.Type", Value: []byte{1, 2, 3}}
		case 2:
			m[k] = &anypb.Any{TypeUrl: lib.Pick(rng, []string{"", "/", "google.protobuf.Any", "type.googleapis.com/google.protobuf.Any", "http://127.0.0.1:1/x", "type.googleapis.com/open_match.v2.Ticket"}), Value: []byte{0xff, 0xff, 0xff}}
		case 3:
			m[k] = &anypb.Any{TypeUrl: "type.googleapis.com/google.protobuf.StringValue", Value: []byte{0x0a, 0x7f}}
		case 4:
			a := lib.Any("x")
			for i := rng.Intn(300); i > 0; i-- { // nested
				b, _ := proto.Marshal(a)
				a = &anypb.Any{TypeUrl: "type.googleapis.com/google.protobuf.Any", Value: b}
			}
			m[k] = a
		}
	}
	return m
}

func hostileTicket(rng *rand.Rand) *pb.Ticket {
	t := &pb.Ticket{Id: lib.Pick(rng, absurdIDs), Attributes: lib.GenAttrs(rng), Extensions: hostileExt(rng)}
	if rng.Intn(2) == 0 {
		t.ExpirationTime = lib.Pick(rng, extremeTimes)
	}
	if t.Attributes != nil {
		if rng.Intn(2) == 0 {
			t.Attributes.CreationTime = lib.Pick(rng, extremeTimes)
		}
		if rng.Intn(3) == 0 {
			t.Attributes.Tags = append(t.Attributes.Tags, "hostile", "", "hostile", strings.Repeat("t", rng.Intn(5000)))
		}
		if rng.Intn(3) == 0 {
			t.Attributes.DoubleArgs = map[string]float64{"": math.NaN(), "x": math.Inf(1), "y": -math.MaxFloat64, "z": math.SmallestNonzeroFloat64}
		}
	}
	return t
}

func hostileAssignment(rng *rand.Rand) *pb.Assignment {
	switch rng.Intn(4) {
	case 0:
		return nil
	case 1:
		return &pb.Assignment{}
	}
	return &pb.Assignment{Connection: lib.Pick(rng, []string{"", "c", "\x00\n\r", strings.Repeat("c", 100000)}), Extensions: hostileExt(rng)}
}

func hostileRoster(rng *rand.Rand, real []string) *pb.Roster {
	ro := &pb.Roster{Name: lib.Pick(rng, []string{"", "r", "\n", "💣"}), Assignment: hostileAssignment(rng), Extensions: hostileExt(rng)}
	for n := rng.Intn(12); n > 0; n-- {
		t := &pb.Ticket{}
		switch rng.Intn(4) {
		case 0:
			t = hostileTicket(rng)
		case 1:
			t.Id = lib.Pick(rng, absurdIDs)
		case 2:
			if len(real) > 0 {
				t.Id = lib.Pick(rng, real)
			}
		}
		ro.Tickets = append(ro.Tickets, t)
	}
	return ro
}

func hostilePool(rng *rand.Rand) *pb.Pool {
	p := lib.GenPool(rng, lib.PoolOpt{CreationTime: true})
	switch rng.Intn(8) {
	case 0:
		p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: lib.Pick(rng, extremeTimes), End: lib.Pick(rng, extremeTimes), Bounds: pb.Pool_FilterBounds(rng.Intn(9) - 2)}
	case 1:
		p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{}, &pb.Pool_DoubleRangeFilter{DoubleArg: "x", Minimum: math.NaN(), Maximum: math.Inf(-1), Bounds: pb.Pool_FilterBounds(rng.Int31())})
	case 2:
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{})
	case 3:
		p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{})
	case 4:
		p.Participants = hostileRoster(rng, nil)
	case 5:
		for i := 0; i < 2000; i++ {
			p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: fmt.Sprint("t", i%7)})
		}
	}
	p.Extensions = hostileExt(rng)
	return p
}

func hostileProfile(rng *rand.Rand) *pb.Profile {
	if rng.Intn(12) == 0 {
		return nil
	}
	p := &pb.Profile{Name: lib.Pick(rng, []string{"", "hostile", "\n\"", "💣", strings.Repeat("n", 20000)}), Extensions: hostileExt(rng)}
	if rng.Intn(8) > 0 {
		p.Pools = map[string]*pb.Pool{}
		for n := lib.Pick(rng, []int{0, 1, 2, 5, 100}); n > 0; n-- {
			if n > 5 {
				p.Pools[fmt.Sprint(n)] = &pb.Pool{}
				continue
			}
			p.Pools[lib.Pick(rng, []string{"", "p", fmt.Sprint(n), "\n"})] = hostilePool(rng)
		}
	}
	return p
}

// hostileMessage for a method, and the answer type does not matter.
func hostileMessage(rng *rand.Rand, rpc string, real []string, specs []*pb.MatchmakingFunctionSpec) proto.Message {
	ids := func() (out []string) {
		for n := lib.Pick(rng, []int{0, 1, 3, 10, 499, 501}); n > 0; n-- {
			if len(real) > 0 && rng.Intn(3) == 0 {
				out = append(out, lib.Pick(rng, real))
			} else if n < 20 {
				out = append(out, lib.Pick(rng, absurdIDs))
			} else {
				out = append(out, lib.Pick(rng, absurdIDs[:20]))
			}
		}
		return
	}
	switch rpc {
	case "CreateTicket":
		q := &pb.CreateTicketRequest{Ticket: hostileTicket(rng)}
		if rng.Intn(15) == 0 {
			q.Ticket = nil
		}
		return q
	case "ActivateTickets":
		return &pb.ActivateTicketsRequest{TicketIds: ids()}
	case "DeactivateTickets":
		return &pb.DeactivateTicketsRequest{TicketIds: ids()}
	case "CreateAssignments":
		q := &pb.CreateAssignmentsRequest{AssignmentRoster: hostileRoster(rng, real)}
		if rng.Intn(15) == 0 {
			q.AssignmentRoster = nil
		}
		return q
	case "WatchAssignments":
		return &pb.WatchAssignmentsRequest{TicketIds: ids()}
	}
	q := &pb.MmfRequest{Profile: hostileProfile(rng)}
	for n := lib.Pick(rng, []int{0, 1, 1, 2, 4, 12}); n > 0; n-- {
		switch rng.Intn(9) {
		case 0:
			q.Mmfs = append(q.Mmfs, &pb.MatchmakingFunctionSpec{})
		case 1:
			q.Mmfs = append(q.Mmfs, &pb.MatchmakingFunctionSpec{Name: "\n", Host: lib.Pick(rng, []string{"", "256.256.256.256", "no such host", "unix:///dev/null", "dns:///", "[::1", "127.0.0.1:1:1", "passthrough:///x", "http://127.0.0.1", strings.Repeat("h", 3000), "\x00", "%zz", "xds:///a", "localhost"}), Port: lib.Pick(rng, []int32{0, -1, 1, 65535, 65536, math.MaxInt32, math.MinInt32}), Type: pb.MatchmakingFunctionSpec_GRPC})
		case 2:
			q.Mmfs = append(q.Mmfs, &pb.MatchmakingFunctionSpec{Name: "t", Host: "127.0.0.1", Port: 1, Type: pb.MatchmakingFunctionSpec_Type(rng.Intn(7) - 2)})
		default:
			q.Mmfs = append(q.Mmfs, lib.Pick(rng, specs))
		}
	}
	return q
}

var rpcs = []string{"CreateTicket", "ActivateTickets", "DeactivateTickets", "CreateAssignments", "WatchAssignments", "InvokeMatchmakingFunctions"}

// rawCall makes a call with arbitrary bytes and reads everything that comes back.
func rawCall(ctx context.Context, conn *grpc.ClientConn, method string, b []byte) (int, error) {
	st, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, method, grpc.ForceCodec(rawCodec{}), grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30))
	if err != nil {
		return 0, err
	}
	if err := st.SendMsg(&b); err != nil && err != io.EOF {
		return 0, err
	}
	st.CloseSend()
	n := 0
	for {
		var x []byte
		if err := st.RecvMsg(&x); err != nil {
			if err == io.EOF {
				err = nil
			}
			return n, err
		}
		n++
	}
}

// ---- hostile functions ----

// newHostile is a function that answers calls with whatever bytes its script produces.
func (r23 *c23env) newHostile(kind string, f func(rng *rand.Rand, st grpc.ServerStream) error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r23.r.Inconclusive("%v", err)
	}
	var mu sync.Mutex
	base := r23.r.Rng("hostile" + kind)
	srv := grpc.NewServer(grpc.ForceServerCodec(rawCodec{}), grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30), grpc.UnknownServiceHandler(func(_ any, st grpc.ServerStream) error {
		mu.Lock()
		rng := rand.New(rand.NewSource(base.Int63()))
		mu.Unlock()
		r23.r.Count("hostile_function_calls_"+kind, 1)
		return f(rng, st)
	}))
	go srv.Serve(l)
	r23.r.OnExit(func() { srv.Stop() })
	r23.specs = append(r23.specs, &pb.MatchmakingFunctionSpec{Name: kind, Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC})
}

// newTCP is a function server that is none.
func (r23 *c23env) newTCP(kind string, f func(rng *rand.Rand, c net.Conn)) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r23.r.Inconclusive("%v", err)
	}
	r23.r.OnExit(func() { l.Close() })
	go func() {
		rng := r23.r.Rng("tcp" + kind)
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r23.r.Count("hostile_function_connections_"+kind, 1)
			cr := rand.New(rand.NewSource(rng.Int63()))
			go func() { f(cr, c); c.Close() }()
		}
	}()
	r23.specs = append(r23.specs, &pb.MatchmakingFunctionSpec{Name: kind, Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC})
}

type c23env struct {
	r     *lib.Run
	o     *lib.OM
	specs []*pb.MatchmakingFunctionSpec
	real  *idBag
	// victims are the tickets that the hostile clients and functions may do anything to
	victims map[string]bool
}

var idLike = regexp.MustCompile(`1[789]\d{11}-\d+`)

// spare keeps hostile bytes from naming, by accident, a ticket of an honest client.
func (e *c23env) spare(b []byte) []byte {
	return idLike.ReplaceAllFunc(b, func(id []byte) []byte {
		if e.victims[string(id)] {
			return id
		}
		return append([]byte("0"), id[1:]...)
	})
}

func (e *c23env) hostileFunctions() {
	drain := func(st grpc.ServerStream) {
		var b []byte
		for st.RecvMsg(&b) == nil {
		}
	}
	send := func(st grpc.ServerStream, m proto.Message) error {
		b, _ := proto.Marshal(m)
		b = e.spare(b)
		return st.SendMsg(&b)
	}
	hostileMatch := func(rng *rand.Rand) *pb.Match {
		m := &pb.Match{Id: lib.Pick(rng, absurdIDs), Extensions: hostileExt(rng), Rosters: map[string]*pb.Roster{}}
		for n := rng.Intn(4); n > 0; n-- {
			m.Rosters[lib.Pick(rng, []string{"", "r", fmt.Sprint(n), "\n"})] = hostileRoster(rng, e.real.some(rng, 3))
		}
		return m
	}
	e.newHostile("absurd_matches", func(rng *rand.Rand, st grpc.ServerStream) error {
		for n := rng.Intn(10); n > 0; n-- {
			send(st, &pb.StreamedMmfResponse{Match: hostileMatch(rng)})
		}
		return nil
	})
	e.newHostile("no_match", func(rng *rand.Rand, st grpc.ServerStream) error {
		for n := 1 + rng.Intn(5); n > 0; n-- {
			b := [][]byte{{}, {0x0a, 0x00}, {0x0a, 0x02, 0x12, 0x00}, {0x0a, 0x04, 0x12, 0x02, 0x12, 0x00}, {0x12, 0x00}, {0x0a, 0x05, 0x1a, 0x03, 0x0a, 0x01, 'x'}}[rng.Intn(6)]
			st.SendMsg(&b)
		}
		return nil
	})
	e.newHostile("undecodable", func(rng *rand.Rand, st grpc.ServerStream) error {
		drain(st)
		for n := rng.Intn(4); n > 0; n-- {
			b, _ := proto.Marshal(&pb.StreamedMmfResponse{Match: hostileMatch(rng)})
			b = e.spare(mutate(rng, b))
			st.SendMsg(&b)
		}
		return nil
	})
	e.newHostile("random_bytes", func(rng *rand.Rand, st grpc.ServerStream) error {
		b := make([]byte, rng.Intn(3000))
		rng.Read(b)
		st.SendMsg(&b)
		return nil
	})
	e.newHostile("huge", func(rng *rand.Rand, st grpc.ServerStream) error {
		m := hostileMatch(rng)
		m.Extensions["pad"] = bigAny(lib.Pick(rng, []int{3 << 20, 4 << 20, 5 << 20, 20 << 20}))
		return send(st, &pb.StreamedMmfResponse{Match: m})
	})
	e.newHostile("many_tickets", func(rng *rand.Rand, st grpc.ServerStream) error {
		m := &pb.Match{Id: "many", Rosters: map[string]*pb.Roster{"r": {}}}
		for n := rng.Intn(800); n > 0; n-- {
			m.Rosters["r"].Tickets = append(m.Rosters["r"].Tickets, &pb.Ticket{Id: fmt.Sprint("bad id ", n)})
		}
		m.Rosters["r"].Tickets = append(m.Rosters["r"].Tickets, ticketsOf(e.real.some(rng, 30))...)
		return send(st, &pb.StreamedMmfResponse{Match: m})
	})
	e.newHostile("flood", func(rng *rand.Rand, st grpc.ServerStream) error {
		b, _ := proto.Marshal(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "f"}})
		for n := rng.Intn(1500); n > 0; n-- {
			if st.SendMsg(&b) != nil {
				return nil
			}
		}
		return nil
	})
	e.newHostile("endless", func(rng *rand.Rand, st grpc.ServerStream) error {
		b, _ := proto.Marshal(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "e"}})
		for st.Context().Err() == nil {
			if st.SendMsg(&b) != nil {
				return nil
			}
			time.Sleep(time.Millisecond)
		}
		return nil
	})
	e.newHostile("statuses", func(rng *rand.Rand, st grpc.ServerStream) error {
		if rng.Intn(2) == 0 {
			send(st, &pb.StreamedMmfResponse{Match: hostileMatch(rng)})
		}
		return status.Error(codes.Code(rng.Intn(25)), lib.Pick(rng, []string{"", "\x00\n", strings.Repeat("m", 3000), "%d%s", "\xff\xfe"}))
	})
	e.newHostile("silent", func(rng *rand.Rand, st grpc.ServerStream) error {
		<-st.Context().Done()
		return nil
	})
	e.newTCP("garbage", func(rng *rand.Rand, c net.Conn) {
		b := make([]byte, 1+rng.Intn(3000))
		rng.Read(b)
		c.Write(b)
		time.Sleep(20 * time.Millisecond)
	})
	e.newTCP("http1", func(rng *rand.Rand, c net.Conn) {
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello")
		time.Sleep(20 * time.Millisecond)
	})
	e.newTCP("half_http2", func(rng *rand.Rand, c net.Conn) {
		c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0}) // SETTINGS
		for n := rng.Intn(30); n > 0; n-- {        // frames of any type and flags
			x := make([]byte, rng.Intn(40))
			rng.Read(x)
			c.Write(append([]byte{0, 0, byte(len(x)), byte(rng.Intn(12)), byte(rng.Intn(256)), 0, 0, 0, byte(rng.Intn(4))}, x...))
		}
		time.Sleep(30 * time.Millisecond)
	})
	e.newTCP("goaway", func(rng *rand.Rand, c net.Conn) {
		c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
		c.Write([]byte{0, 0, 8, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		time.Sleep(10 * time.Millisecond)
	})
	e.newTCP("trailers_only", func(rng *rand.Rand, c net.Conn) {
		c.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
		// HEADERS on stream 1: :status 200, END_STREAM|END_HEADERS, neither content-type nor grpc-status
		c.Write([]byte{0, 0, 1, 1, 5, 0, 0, 0, 1, 0x88})
		time.Sleep(50 * time.Millisecond)
	})
}

// ---- the monitors ----

// honest is one honest client: everything it does must succeed and be correct.
func (e *c23env) honest(rng *rand.Rand, n string, m *lib.MMF) {
	r, o := e.r, e.o
	tag := "honest-" + n
	var ts []*pb.Ticket
	for i := 0; i < 4; i++ {
		ts = append(ts, lib.TagTicket(tag))
	}
	ids := o.CreateN(ts)
	o.Activate(ids[:3]...)
	o.AwaitVisible(tag, ids[2])
	got := o.QueryTag(tag)
	if got[ids[3]] != nil {
		r.Violate("an honest client gets wrong results", map[string]any{"what": "a ticket that was never activated is in a pool", "id": ids[3]})
	}
	o.Deactivate(ids[0])
	if !lib.Await(60*time.Second, func() bool { return o.QueryTag(tag)[ids[0]] == nil }) {
		r.Violate("an honest client gets wrong results", map[string]any{"what": "a deactivated ticket stays in its pool", "id": ids[0]})
	}
	// a match
	name := "honest-profile-" + n
	want := genMatch(rng, "honest match "+n, []string{"1-1"})
	m.On(name, func(c *lib.Call) error { return c.Send(want) })
	ctx, cancel := lib.Ctx()
	ms, err := o.Invoke(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: name, Pools: map[string]*pb.Pool{"p": lib.TagPool(tag)}}, Mmfs: []*pb.MatchmakingFunctionSpec{m.Spec("honest")}})
	cancel()
	m.Off(name)
	if err != nil || len(ms) != 1 || lib.Det(ms[0]) != lib.Det(want) {
		time.Sleep(200 * time.Millisecond)
		r.Violate("an honest client gets wrong results", map[string]any{"what": "an invocation of a healthy function", "matches": len(ms), "error": fmt.Sprint(err)})
	}
	// an assignment, over REST
	ctx, cancel = context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	seen := make(chan bool, 1)
	go watch(ctx, o.C, []string{ids[1]}, func(id string, a *pb.Assignment) {
		if id == ids[1] && a.GetConnection() == "c-"+n {
			select {
			case seen <- true:
			default:
			}
		}
	})
	st := restUnary(r, rng, "CreateAssignments", &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c-" + n}, Tickets: []*pb.Ticket{{Id: ids[1]}}}}, &pb.CreateAssignmentsResponse{})
	if st.Code != codes.OK {
		r.Violate("an honest client gets wrong results", map[string]any{"what": "an assignment over REST fails", "status": fmt.Sprint(st)})
	}
	select {
	case <-seen:
	case <-ctx.Done():
		r.Violate("an honest client gets wrong results", map[string]any{"what": "an assignment never reaches its watcher"})
	}
	r.Count("honest_sessions", 1)
	r.Eval(true, "honest", n)
}

func c23round(r *lib.Run, round int) {
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_MMF_TIMEOUT_SECS": "2", "OM_CACHE_TICKET_TTL_SECS": "120", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "50",
		"OM_LOGGING_LEVEL": []string{"panic", "trace", "debug", "error"}[round%4], "OM_LOGGING_FORMAT": []string{"json", "text"}[round%2], "OM_MATCH_TICKET_DEACTIVATION_WAIT": fmt.Sprint(round%4 > 1)})
	var s *fredis.Server
	if round%2 == 0 {
		s = newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
	}
	o := r.StartOM("om", env)
	e := &c23env{r: r, o: o, real: &idBag{ago: time.Hour}, victims: map[string]bool{}}
	e.hostileFunctions()
	m := r.NewMMF()
	mine := r.Rng(fmt.Sprint("honest", round))
	e.honest(mine, fmt.Sprint(round, "-first"), m)
	g0, _, _ := lib.Goroutines()
	// tickets the hostile clients and functions may do anything to
	var victims []*pb.Ticket
	for i := 0; i < 300; i++ {
		victims = append(victims, lib.TagTicket("victim"))
	}
	for _, id := range o.CreateN(victims) {
		e.real.add(id)
		e.victims[id] = true
	}

	var stop atomic.Bool
	var wg sync.WaitGroup
	work := func(key string, workers int, f func(rng *rand.Rand, n int)) {
		for w := 0; w < workers; w++ {
			wg.Add(1)
			rng := r.Rng(fmt.Sprint(key, round, w))
			go func() {
				defer wg.Done()
				for n := 0; !stop.Load(); n++ {
					f(rng, n)
					r.Eval(true, key, round, w, n)
					r.Count("hostile_"+key, 1)
				}
			}()
		}
	}
	var slow atomic.Int64
	fuzz := func(rng *rand.Rand, rpc string) {
		var real []string
		if rng.Intn(2) == 0 {
			real = e.real.some(rng, 3)
		}
		b, err := proto.Marshal(hostileMessage(rng, rpc, real, e.specs))
		if err != nil {
			r.Inconclusive("%v", err)
		}
		how := "valid"
		switch rng.Intn(5) {
		case 0, 1:
			b = mutate(rng, b)
			how = "mutated"
		case 2:
			if rng.Intn(3) == 0 {
				b = make([]byte, rng.Intn(400))
				rng.Read(b)
				how = "random"
			}
		}
		if rng.Intn(400) == 0 {
			b = append(b, make([]byte, lib.Pick(rng, []int{3 << 20, 4 << 20, 9 << 20}))...)
			how = "oversized"
		}
		b = e.spare(b)
		method := "/open_match.v2.OpenMatchService/" + rpc
		if rng.Intn(60) == 0 {
			method = lib.Pick(rng, []string{"/x/y", "/open_match.v2.OpenMatchService/Nope", "/", "/grpc.reflection.v1.ServerReflection/ServerReflectionInfo", method + "/"})
		}
		limit := 90 * time.Second
		if rpc == "WatchAssignments" {
			limit = time.Duration(rng.Intn(1500)) * time.Millisecond
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		t0 := time.Now()
		k, err := rawCall(ctx, o.Conn, method, b)
		if rpc != "WatchAssignments" && ctx.Err() != nil {
			time.Sleep(200 * time.Millisecond)
			_, prof, _ := lib.Goroutines()
			r.Violate("a hostile request is never answered", map[string]any{"method": method, "how": how, "bytes": base64.StdEncoding.EncodeToString(b[:min(len(b), 3000)]), "answers": k, "goroutines": prof[:min(len(prof), 3000)]})
		}
		if d := time.Since(t0).Milliseconds(); d > slow.Load() {
			slow.Store(d)
			r.Max("slowest_answer_ms", d)
		}
		r.Count(rpc+"_"+how, 1)
		r.Count("status_"+status.Code(err).String(), 1)
	}
	work("grpc", 12, func(rng *rand.Rand, n int) { fuzz(rng, lib.Pick(rng, rpcs)) })
	work("unary", 3, func(rng *rand.Rand, n int) { fuzz(rng, rpcs[rng.Intn(4)]) })
	work("grpc_port", 1, func(rng *rand.Rand, n int) {
		rawTCP(rng, o.Port, n)
	})
	work("rest", 3, func(rng *rand.Rand, n int) { e.hostileREST(rng) })
	work("rest_port", 1, func(rng *rand.Rand, n int) { rawTCP(rng, 58081, n) })
	work("streams", 1, func(rng *rand.Rand, n int) { // several messages, no message, cancelled half-way
		rpc := lib.Pick(rng, rpcs)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		st, err := o.Conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true, ClientStreams: true}, "/open_match.v2.OpenMatchService/"+rpc, grpc.ForceCodec(rawCodec{}))
		if err != nil {
			return
		}
		for k := rng.Intn(4); k > 0; k-- {
			b, _ := proto.Marshal(hostileMessage(rng, rpc, nil, e.specs))
			if st.SendMsg(&b) != nil {
				break
			}
		}
		switch rng.Intn(3) {
		case 0:
			cancel()
		case 1:
			st.CloseSend()
			if rpc == "WatchAssignments" || rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
				cancel()
			}
			var b []byte
			for st.RecvMsg(&b) == nil {
			}
		}
	})
	end := time.Now().Add(time.Duration(r.N(25, 240)) * time.Second)
	for n := 0; time.Now().Before(end); n++ {
		e.honest(mine, fmt.Sprint(round, "-", n), m)
		o.CheckLog()
	}
	stop.Store(true)
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(150 * time.Second):
		_, prof, _ := lib.Goroutines()
		r.Violate("hostile requests are never answered", map[string]any{"goroutines": prof[:min(len(prof), 4000)]})
	}
	e.honest(mine, fmt.Sprint(round, "-last"), m)
	// what the hostile clients left behind ends
	var g1 int
	var prof string
	if !lib.Await(60*time.Second, func() bool { g1, prof, _ = lib.Goroutines(); return g1 < g0+100 }) {
		r.Violate("hostile requests leave work behind", map[string]any{"goroutines before": g0, "after": g1, "profile": prof[:min(len(prof), 4000)]})
	}
	e.honest(mine, fmt.Sprint(round, "-end"), m)
	if r.WantSample() {
		r.Sample(map[string]any{"round": round, "redis": s != nil, "goroutines before": g0, "after": g1, "slowest answer ms": slow.Load()})
	}
	o.Stop()
}

// rawTCP writes garbage to a port.
func rawTCP(rng *rand.Rand, port, n int) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 5*time.Second)
	if err != nil {
		return
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(200 * time.Millisecond))
	pre := []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
	x := make([]byte, rng.Intn(600))
	rng.Read(x)
	switch rng.Intn(6) {
	case 0:
		c.Write(x)
	case 1:
		c.Write(pre[:rng.Intn(len(pre))])
	case 2:
		c.Write(append(pre, x...))
	case 3:
		c.Write(append(pre, 0, 0, 0, 4, 0, 0, 0, 0, 0))
		for k := rng.Intn(20); k > 0; k-- {
			y := x[:rng.Intn(len(x)/3+1)]
			c.Write(append([]byte{0, byte(len(y) >> 8), byte(len(y)), byte(rng.Intn(11)), byte(rng.Intn(256)), 0, 0, 0, byte(rng.Intn(4))}, y...))
		}
	case 4:
		io.WriteString(c, lib.Pick(rng, []string{"GET / HTTP/1.1\r\n\r\n", "POST /v2/tickets HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{", "POST /v2/tickets HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET /v2/tickets HTTP/9.9\r\n\r\n", "\r\n\r\n\r\n", "POST /v2/assignments:watch HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n"}))
	case 5:
		io.WriteString(c, "POST /v2/tickets HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("a", rng.Intn(3<<20)))
	}
	if rng.Intn(2) == 0 {
		bufio.NewReader(c).ReadByte()
	}
	if t, ok := c.(*net.TCPConn); ok && rng.Intn(2) == 0 {
		t.SetLinger(0)
	}
}

// hostileREST makes one malformed or hostile REST request; it must be answered.
func (e *c23env) hostileREST(rng *rand.Rand) {
	r := e.r
	rpc := lib.Pick(rng, rpcs)
	rt := routes[rpc]
	method, path := rt.method, rt.path
	var body []byte
	switch rng.Intn(9) {
	case 0, 1, 2:
		b, err := protojson.Marshal(hostileMessage(rng, rpc, nil, e.specs))
		if err != nil { // not expressible in JSON
			b = []byte(`{"ticket":{"extensions":{"a":{"@type":"type.googleapis.com/no.such.Type"}}}}`)
		}
		body = b
	case 3, 4: // mutated JSON
		b, err := protojson.Marshal(hostileMessage(rng, rpc, nil, e.specs))
		if err != nil {
			b = []byte(`{"ticket":{"attributes":{"tags":["a",1,null,{}]}}}`)
		}
		for n := 1 + rng.Intn(3); n > 0 && len(b) > 0; n-- {
			i := rng.Intn(len(b))
			switch rng.Intn(4) {
			case 0:
				b[i] = byte(rng.Intn(256))
			case 1:
				b = b[:i]
			case 2:
				b = append(b[:i], b[min(len(b), i+rng.Intn(9)):]...)
			case 3:
				b = append(append(append([]byte{}, b[:i]...), lib.Pick(rng, []string{"null", "{", "}", "[", "]", `"`, ",", ":", "1e999", "-0", `\u0000`, `\ud800`})...), b[i:]...)
			}
		}
		body = b
	case 5:
		d := lib.Pick(rng, []int{10, 1000, 9000, 200000})
		body = []byte(strings.Repeat(lib.Pick(rng, []string{"[", `{"ticket":`, `{"profile":{"pools":`, `{"a":{"@type":`}), d))
	case 6:
		body = []byte(lib.Pick(rng, []string{"", "null", "1", `""`, "[]", "{}", "{}{}", `{"ticket":null}`, `{"ticket":[]}`, `{"ticketIds":"x"}`, `{"ticketIds":[null]}`, `{"ticketIds":{}}`, `{"unknown":1}`, `{"ticket":{"expirationTime":"x"}}`, `{"ticket":{"expirationTime":"9999-12-31T23:59:59.999999999Z"}}`, `{"ticket":{"expirationTime":"0001-01-01T00:00:00Z"}}`, `{"ticket":{},"ticket":{}}`, `{"mmfs":[null]}`, `{"profile":{"pools":{"a":null}},"mmfs":[{}]}`, `{"profile":{},"mmfs":[{"type":"NOPE"}]}`, `{"assignmentRoster":{"assignment":null,"tickets":[null]}}`, `{"ticket":{"extensions":{"a":{"@type":"type.googleapis.com/google.protobuf.Duration","value":"x"}}}}`, `{"ticket":{"extensions":{"a":{}}}}`, "\xff\xfe\x00", `{"ticket":{"attributes":{"doubleArgs":{"a":"NaN","b":"Infinity","c":1e400}}}}`}))
	case 7:
		body = make([]byte, rng.Intn(2000))
		rng.Read(body)
	case 8:
		method = lib.Pick(rng, []string{"GET", "PUT", "PATCH", "DELETE", "POST", "OPTIONS", "HEAD", "TRACE", "FOO"})
		path = lib.Pick(rng, []string{"/", "/v2", "/v2/tickets:nope", "/v2/tickets/1-1", "/v2//tickets", "/v2/%2e%2e/x", "/v2/matches:fetch?a=b", "/v2/assignments:watch?ticketIds=1-1", "/v1/tickets", "/v2/tickets:activate:activate", path, "/" + strings.Repeat("x", 5000), "/debug/pprof/", "/metrics"})
		body = []byte(`{}`)
		if rng.Intn(60) == 0 {
			body = bytes.Repeat([]byte(`{"a":"b"}`), 1<<20)
		}
	}
	limit := 90 * time.Second
	watching := strings.HasPrefix(path, "/v2/assignments:watch")
	if watching {
		limit = time.Duration(50+rng.Intn(1000)) * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	q, err := http.NewRequestWithContext(ctx, method, "http://127.0.0.1:58081"+path, bytes.NewReader(body))
	if err != nil {
		return
	}
	q.Header.Set("Content-Type", lib.Pick(rng, []string{"application/json", "application/json", "application/json", "text/plain", "application/x-protobuf", "", "application/json; charset=utf-16"}))
	if rng.Intn(20) == 0 {
		q.Header.Set(lib.Pick(rng, []string{"Grpc-Timeout", "Grpc-Metadata-X", "X-HTTP-Method-Override", "Accept", "Grpc-Encoding", "Te"}), lib.Pick(rng, []string{"", "1n", "99999999H", "x", "-1S", "GET", "gzip", "\t"}))
	}
	resp, err := http.DefaultClient.Do(q)
	var ans []byte
	if err == nil {
		ans, err = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	if watching && ctx.Err() != nil {
		return
	}
	if ctx.Err() != nil {
		_, prof, _ := lib.Goroutines()
		r.Violate("a hostile request is never answered", map[string]any{"method": method, "path": path, "body": string(headB(body)), "goroutines": prof[:min(len(prof), 3000)]})
	}
	if err != nil {
		time.Sleep(200 * time.Millisecond)
		r.Violate("a REST request ends without an answer", map[string]any{"method": method, "path": path, "body": string(headB(body)), "error": err.Error()})
	}
	r.Count(fmt.Sprint("http_", resp.StatusCode), 1)
	// on the documented routes the answer is JSON: a response, results, or a status
	if method == rt.method && path == rt.path {
		d := json.NewDecoder(bytes.NewReader(ans))
		objs := 0
		for {
			var x map[string]json.RawMessage
			err := d.Decode(&x)
			if err == io.EOF {
				break
			}
			if err != nil {
				r.Violate("a REST route answers with something else than JSON objects", map[string]any{"method": method, "path": path, "body": string(headB(body)), "answer": string(headB(ans)), "http": resp.StatusCode})
			}
			objs++
		}
		if resp.StatusCode != 200 && objs == 0 {
			r.Violate("a REST error carries no status", map[string]any{"method": method, "path": path, "body": string(headB(body)), "http": resp.StatusCode})
		}
	}
}
