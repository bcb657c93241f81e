package lib

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
)

// Alphabets: small, so that filters and tickets meet.
var (
	Tags    = []string{"a", "b", "c", "mode.x", "", "ünï", "A"}
	SKeys   = []string{"s1", "s2", "", "S1"}
	SVals   = []string{"", "v1", "v2", "V1", "v 1"}
	DKeys   = []string{"d1", "d2", "", "s1"}
	DVals   = []float64{0, math.Copysign(0, -1), 1, 1.5, -1, 2, 100, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 + 1e-15}
	BasTime = int64(1_700_000_000)

	nearSeps  = []string{".", "/", ":", "-", "_", "|", ",", ";", "#", "@", "=", " ", "\t", "\n", "*", "?", "\x00", "\u00a0", "~", "+", "%", "&", "$", "^", "(", "["}
	nearWords = []string{"", "x", "gold", "1", "a", "b", "*"}
)

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

// Pick a random element.
func Pick[T any](r *rand.Rand, s []T) T { return pick(r, s) }

// Any makes an extension value.
func Any(s string) *anypb.Any {
	a, _ := anypb.New(wrapperspb.String(s))
	return a
}

// Near makes a string that resembles s (the matching rules someone might confuse with equality).
func Near(r *rand.Rand, s string) string { return strings.ToValidUTF8(near(r, s), "") }

func near(r *rand.Rand, s string) string {
	sep, w := pick(r, nearSeps), pick(r, nearWords)
	switch r.Intn(20) {
	case 0, 1, 2:
		return s + sep + w
	case 3, 4:
		return w + sep + s
	case 5:
		return s + w
	case 6:
		return w + s
	case 7:
		return strings.ToUpper(s)
	case 8:
		return strings.ToLower(s)
	case 9:
		return strings.TrimSpace(s)
	case 10:
		if len(s) > 0 {
			return s[:r.Intn(len(s))]
		}
		return sep
	case 11:
		if len(s) > 0 {
			return s[1+r.Intn(len(s)):]
		}
		return w
	case 12:
		return s + s
	case 13:
		return "!" + s
	case 14:
		return "^" + s + "$"
	case 15:
		return pick(r, []string{"*", ".*", "?", "%", "any", "true", "0", "null"})
	case 16: // looks the same
		return strings.NewReplacer("a", "\u0430", "e", "\u0435", "ü", "u\u0308", "o", "\u043e").Replace(s)
	case 17:
		return s + pick(r, []string{"", ".0", ".00", "e0"})
	case 18:
		return "0" + s
	}
	if i := strings.IndexAny(s, ".-_/:,"); i >= 0 {
		return s[:i]
	}
	return s + sep
}

// NearWord makes base words for Near: longer ones than the alphabets above.
func NearWord(r *rand.Rand) string {
	return pick(r, []string{"ranked", "mode.ranked", "region-eu", "eu/west", "a,b", "1", "10", "1.5", "Ünïted", " padded ", "x:y:z", "true", "*", ""})
}

// GenExt makes random extensions.
func GenExt(r *rand.Rand, max int) map[string]*anypb.Any {
	n := r.Intn(max + 1)
	if n == 0 {
		return nil
	}
	out := map[string]*anypb.Any{}
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			out[fmt.Sprintf("k%d", r.Intn(5))] = &anypb.Any{}
		case 1:
			b := make([]byte, r.Intn(40))
			r.Read(b)
			out[fmt.Sprintf("k%d", r.Intn(5))] = &anypb.Any{TypeUrl: "type.example/unknown.Type", Value: b}
		case 2:
			out[""] = Any("empty key")
		default:
			out[fmt.Sprintf("k%d", r.Intn(5))] = Any(fmt.Sprintf("x%d", r.Intn(1000)))
		}
	}
	return out
}

// GenTime makes a valid time around BasTime, with few distinct values.
func GenTime(r *rand.Rand) *timestamppb.Timestamp {
	t := &timestamppb.Timestamp{Seconds: BasTime + int64(r.Intn(4))}
	if r.Intn(2) == 0 {
		t.Nanos = int32(pick(r, []int{1, 500_000_000, 999_999_999}))
	}
	return t
}

// InvalidTime makes an invalid timestamp.
func InvalidTime(r *rand.Rand) *timestamppb.Timestamp {
	switch r.Intn(4) {
	case 0:
		return &timestamppb.Timestamp{Seconds: 1, Nanos: -1}
	case 1:
		return &timestamppb.Timestamp{Seconds: 1, Nanos: 1_000_000_000}
	case 2:
		return &timestamppb.Timestamp{Seconds: 253402300800}
	}
	return &timestamppb.Timestamp{Seconds: -62135596801}
}

// GenAttrs makes random filterable data (possibly nil).
func GenAttrs(r *rand.Rand) *pb.Ticket_FilterableData {
	if r.Intn(12) == 0 {
		return nil
	}
	a := &pb.Ticket_FilterableData{}
	for i := r.Intn(4); i > 0; i-- {
		a.Tags = append(a.Tags, pick(r, Tags)) // duplicates are fine
	}
	if r.Intn(4) > 0 {
		a.StringArgs = map[string]string{}
		for i := r.Intn(3); i > 0; i-- {
			a.StringArgs[pick(r, SKeys)] = pick(r, SVals)
		}
	}
	if r.Intn(4) > 0 {
		a.DoubleArgs = map[string]float64{}
		for i := r.Intn(4); i > 0; i-- {
			a.DoubleArgs[pick(r, DKeys)] = pick(r, DVals)
		}
	}
	return a
}

// Crowd puts the filterable data among n others, in any order.
func Crowd(r *rand.Rand, a *pb.Ticket_FilterableData, n int) *pb.Ticket_FilterableData {
	c := &pb.Ticket_FilterableData{StringArgs: map[string]string{}, DoubleArgs: map[string]float64{}}
	if a != nil {
		c = proto.Clone(a).(*pb.Ticket_FilterableData)
		if c.StringArgs == nil {
			c.StringArgs = map[string]string{}
		}
		if c.DoubleArgs == nil {
			c.DoubleArgs = map[string]float64{}
		}
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("crowd-", i)
		c.Tags = append(c.Tags, k)
		if i%3 == 0 {
			c.StringArgs[k] = pick(r, SVals)
		}
		if i%4 == 0 {
			c.DoubleArgs[k] = pick(r, DVals)
		}
	}
	switch r.Intn(3) {
	case 0: // the old ones last
		for i, j := 0, len(c.Tags)-1; i < j; i, j = i+1, j-1 {
			c.Tags[i], c.Tags[j] = c.Tags[j], c.Tags[i]
		}
	case 1:
		r.Shuffle(len(c.Tags), func(i, j int) { c.Tags[i], c.Tags[j] = c.Tags[j], c.Tags[i] })
	}
	return c
}

// PoolOpt selects what GenPool makes.
type PoolOpt struct{ CreationTime, InvalidTime bool }

// GenPool makes a random pool.
func GenPool(r *rand.Rand, o PoolOpt) *pb.Pool {
	p := &pb.Pool{Name: fmt.Sprintf("pool-%d", r.Intn(1000))}
	if r.Intn(2) == 0 {
		p.Extensions = GenExt(r, 3)
	}
	for i := r.Intn(3); i > 0; i-- {
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: pick(r, Tags)})
	}
	for i := r.Intn(5) - 2; i > 0; i-- {
		p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: pick(r, SKeys), Value: pick(r, SVals)})
	}
	for i := r.Intn(5) - 2; i > 0; i-- {
		lo, hi := pick(r, DVals), pick(r, DVals)
		if lo > hi && r.Intn(4) > 0 {
			lo, hi = hi, lo
		}
		p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: pick(r, DKeys), Minimum: lo, Maximum: hi, Bounds: pb.Pool_FilterBounds(r.Intn(4))})
	}
	if o.CreationTime && r.Intn(3) == 0 {
		f := &pb.Pool_CreationTimeRangeFilter{Bounds: pb.Pool_FilterBounds(r.Intn(4))}
		if r.Intn(4) > 0 {
			f.Start = GenTime(r)
		}
		if r.Intn(4) > 0 {
			f.End = GenTime(r)
		}
		p.CreationTimeRangeFilter = f
	}
	if o.InvalidTime && r.Intn(4) == 0 {
		f := &pb.Pool_CreationTimeRangeFilter{Bounds: pb.Pool_FilterBounds(r.Intn(4))}
		switch r.Intn(3) {
		case 0:
			f.Start = InvalidTime(r)
		case 1:
			f.End = InvalidTime(r)
		case 2:
			f.Start, f.End = GenTime(r), InvalidTime(r)
		}
		p.CreationTimeRangeFilter = f
	}
	return p
}

// StoredTicket is the stored form of a ticket that lives ttl seconds from now.
func StoredTicket(t *pb.Ticket, ttl int) []byte {
	c := proto.Clone(t).(*pb.Ticket)
	if c.Attributes == nil {
		c.Attributes = &pb.Ticket_FilterableData{}
	}
	if c.Attributes.CreationTime == nil {
		c.Attributes.CreationTime = timestamppb.Now()
	}
	if c.ExpirationTime == nil {
		c.ExpirationTime = timestamppb.New(time.Now().Add(time.Duration(ttl) * time.Second))
	}
	b, err := proto.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

// Det marshals deterministically (for comparison; NaN-safe).
func Det(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "ERR " + err.Error()
	}
	return string(b)
}

// Pad makes a string of n bytes.
func Pad(n int) string { return strings.Repeat("x", n) }
