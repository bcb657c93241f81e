package lib

import (
	"math"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"

	"google.golang.org/protobuf/proto"
)

func cmpTS(a, b *timestamppb.Timestamp) int {
	switch {
	case a.GetSeconds() < b.GetSeconds():
		return -1
	case a.GetSeconds() > b.GetSeconds():
		return 1
	case a.GetNanos() < b.GetNanos():
		return -1
	case a.GetNanos() > b.GetNanos():
		return 1
	}
	return 0
}

func rangeOK(lo, hi int, b pb.Pool_FilterBounds) bool { // signs of v-min and v-max
	exMin := b == pb.Pool_EXCLUDE_MIN || b == pb.Pool_EXCLUDE_BOTH
	exMax := b == pb.Pool_EXCLUDE_MAX || b == pb.Pool_EXCLUDE_BOTH
	if lo < 0 || (lo == 0 && exMin) {
		return false
	}
	if hi > 0 || (hi == 0 && exMax) {
		return false
	}
	return true
}

// attrIn is the specification for everything but the creation time.
func attrIn(p *pb.Pool, t *pb.Ticket) bool {
	a := t.GetAttributes()
	tags := map[string]bool{}
	for _, x := range a.GetTags() {
		tags[x] = true
	}
	for _, f := range p.GetTagPresentFilters() {
		if !tags[f.GetTag()] {
			return false
		}
	}
	for _, f := range p.GetStringEqualsFilters() {
		if v, ok := a.GetStringArgs()[f.GetStringArg()]; !ok || v != f.GetValue() {
			return false
		}
	}
	for _, f := range p.GetDoubleRangeFilters() {
		v, ok := a.GetDoubleArgs()[f.GetDoubleArg()]
		if !ok || math.IsNaN(v) || math.IsNaN(f.GetMinimum()) || math.IsNaN(f.GetMaximum()) {
			return false
		}
		c := func(a, b float64) int {
			if a < b {
				return -1
			}
			if a > b {
				return 1
			}
			return 0
		}
		if !rangeOK(c(v, f.GetMinimum()), c(v, f.GetMaximum()), f.GetBounds()) {
			return false
		}
	}
	return true
}

// InPool is the specification of pool membership.
func InPool(p *pb.Pool, t *pb.Ticket) bool {
	if !attrIn(p, t) {
		return false
	}
	f := p.GetCreationTimeRangeFilter()
	if f == nil {
		return true
	}
	ct := t.GetAttributes().GetCreationTime()
	lo, hi := 1, -1
	if f.GetStart() != nil {
		lo = cmpTS(ct, f.GetStart())
	}
	if f.GetEnd() != nil {
		hi = cmpTS(ct, f.GetEnd())
	}
	return rangeOK(lo, hi, f.GetBounds())
}

// InPoolInverted is what the known finding C06-creation-time-inverted does with the creation time: a ticket is in when
// it was created before the start AND after the end (an unset end being the epoch).
func InPoolInverted(p *pb.Pool, t *pb.Ticket) bool {
	f := p.GetCreationTimeRangeFilter()
	if f == nil {
		return InPool(p, t)
	}
	ct := t.GetAttributes().GetCreationTime()
	return attrIn(p, t) && cmpTS(ct, f.GetStart()) < 0 && cmpTS(ct, f.GetEnd()) > 0
}

// ValidTS is the specification of timestamp validity (protobuf).
func ValidTS(t *timestamppb.Timestamp) bool {
	return t != nil && t.GetSeconds() >= -62135596800 && t.GetSeconds() <= 253402300799 && t.GetNanos() >= 0 && t.GetNanos() <= 999999999
}

// ValidPool tells whether the pool's creation time bounds are valid.
func ValidPool(p *pb.Pool) bool {
	f := p.GetCreationTimeRangeFilter()
	if f == nil {
		return true
	}
	return (f.Start == nil || ValidTS(f.Start)) && (f.End == nil || ValidTS(f.End))
}

// Upd is a decoded stream entry.
type Upd struct {
	Idx    int
	ID     string // stream id
	MS     int64
	Cmd    string // ticket, activate, deactivate, assign
	Key    string // ticket concerned
	Val    []byte
	Ticket *pb.Ticket
	Conn   int
}

// Decode reads a stream entry the way the stream format is documented.
func Decode(i int, e fredis.Entry) Upd {
	u := Upd{Idx: i, ID: e.ID(), MS: e.MS, Conn: e.Conn}
	if len(e.Fields) < 2 {
		u.Cmd = "?"
		return u
	}
	u.Cmd = e.Fields[0]
	switch u.Cmd {
	case "ticket":
		u.Key = u.ID
		u.Val = []byte(e.Fields[1])
		t := &pb.Ticket{}
		if proto.Unmarshal(u.Val, t) == nil {
			u.Ticket = t
		}
	case "activate", "deactivate":
		u.Key = e.Fields[1]
	case "assign":
		u.Key = e.Fields[1]
		if len(e.Fields) > 3 {
			u.Val = []byte(e.Fields[3])
		}
	}
	return u
}

// DecodeAll decodes entries starting at log index from.
func DecodeAll(from int, es []fredis.Entry) []Upd {
	out := make([]Upd, len(es))
	for i, e := range es {
		out[i] = Decode(from+i, e)
	}
	return out
}

// Fold gives the state after the updates: known tickets and which are active.
func Fold(us []Upd) (tickets map[string]*pb.Ticket, active map[string]bool, assigned map[string][]byte) {
	tickets, active, assigned = map[string]*pb.Ticket{}, map[string]bool{}, map[string][]byte{}
	for _, u := range us {
		switch u.Cmd {
		case "ticket":
			tickets[u.Key] = u.Ticket
			active[u.Key] = false
		case "activate":
			active[u.Key] = true
		case "deactivate":
			active[u.Key] = false
		case "assign":
			assigned[u.Key] = u.Val
		}
	}
	return
}
