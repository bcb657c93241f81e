package main

import (
	"fmt"
	"math"
	"math/rand"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/filter"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func main() { lib.ChildMain(map[string]func(*lib.Run){"filter": run}) }

func judge(r *lib.Run, p *pb.Pool, t *pb.Ticket) {
	if !lib.ValidPool(p) {
		return
	}
	want := lib.InPool(p, t)
	bp, bt := lib.Det(p), lib.Det(t)
	got := filter.In(p, t)
	if lib.Det(p) != bp || lib.Det(t) != bt {
		r.Violate("filtering changed the pool or the ticket", map[string]any{"pool": p.String(), "ticket": t.String()})
	}
	r.Eval(want || got || len(p.GetDoubleRangeFilters()) > 0, bp, "|", bt)
	if want {
		r.Count("members", 1)
	} else {
		r.Count("non_members", 1)
	}
	if got == want {
		return
	}
	if p.GetCreationTimeRangeFilter() != nil && got == lib.InPoolInverted(p, t) && r.Known("C06-creation-time-inverted") {
		return
	}
	r.Violate("pool membership differs from the conjunction of the filters", map[string]any{"pool": p.String(), "ticket": t.String(), "member_by_specification": want, "member_by_filter": got})
}

func valid(r *lib.Run, p *pb.Pool) {
	want := lib.ValidPool(p)
	got, err := filter.ValidatePoolFilters(p)
	r.Eval(!want, "valid", lib.Det(p))
	if got != want || (err == nil) != want {
		r.Violate("pool validity", map[string]any{"pool": p.String(), "valid_by_specification": want, "reported": got, "error": fmt.Sprint(err)})
	}
	if !want {
		r.Count("invalid_pools", 1)
	}
}

func run(r *lib.Run) {
	// every combination of value, bounds and bound kind for one double filter
	for _, v := range lib.DVals {
		for _, lo := range lib.DVals {
			for _, hi := range lib.DVals {
				for b := 0; b < 4; b++ {
					p := &pb.Pool{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: lo, Maximum: hi, Bounds: pb.Pool_FilterBounds(b)}}}
					judge(r, p, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"d": v}}})
				}
			}
		}
	}
	// every combination of creation time and bounds (before, at, between, after; unset ends)
	at := func(s int64, n int32) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: s, Nanos: n} }
	ends := []*timestamppb.Timestamp{nil, at(100, 0), at(100, 1), at(200, 0), at(200, 999999999), at(-5, 3), at(0, 0)}
	for _, c := range append(ends[1:], at(150, 0), at(99, 999999999), at(200, 1), at(1<<32, 0)) {
		for _, lo := range ends {
			for _, hi := range ends {
				for b := 0; b < 4; b++ {
					judge(r, &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: lo, End: hi, Bounds: pb.Pool_FilterBounds(b)}},
						&pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: c}})
				}
			}
		}
	}
	// tickets without attributes, pools without filters
	empty := []*pb.Ticket{{}, {Attributes: &pb.Ticket_FilterableData{}}, {Attributes: &pb.Ticket_FilterableData{Tags: []string{""}, StringArgs: map[string]string{"": ""}, DoubleArgs: map[string]float64{"": 0}}}}
	pools := []*pb.Pool{{},
		{TagPresentFilters: []*pb.Pool_TagPresentFilter{{}}},
		{StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{}}},
		{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{}}},
		{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{Minimum: math.Inf(-1), Maximum: math.Inf(1)}}}}
	for _, p := range pools {
		for _, t := range empty {
			judge(r, p, t)
		}
		valid(r, p)
	}
	near(r)
	rng := r.Rng("random")
	// validity of every combination of creation time ends
	inv := []*timestamppb.Timestamp{at(1, -1), at(1, 1_000_000_000), at(253402300800, 0), at(-62135596801, 0), at(math.MaxInt64, 0), at(math.MinInt64, 0), at(0, math.MaxInt32), at(0, math.MinInt32)}
	val := []*timestamppb.Timestamp{nil, at(0, 0), at(-62135596800, 0), at(253402300799, 999999999), at(-1, 1)}
	mix := append(append([]*timestamppb.Timestamp{}, inv...), val...)
	for _, lo := range mix {
		for _, hi := range mix {
			for b := 0; b < 4; b++ {
				p := lib.GenPool(rng, lib.PoolOpt{})
				p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: lo, End: hi, Bounds: pb.Pool_FilterBounds(b)}
				valid(r, p)
			}
		}
	}
	for i := 0; i < r.N(400000, 8000000); i++ {
		p := lib.GenPool(rng, lib.PoolOpt{CreationTime: true, InvalidTime: rng.Intn(4) == 0})
		valid(r, p)
		t := &pb.Ticket{Attributes: lib.GenAttrs(rng)}
		if rng.Intn(3) > 0 { // make membership likely: give the ticket what the pool asks for, then maybe spoil one thing
			t.Attributes = &pb.Ticket_FilterableData{StringArgs: map[string]string{}, DoubleArgs: map[string]float64{}}
			for _, f := range p.GetTagPresentFilters() {
				t.Attributes.Tags = append(t.Attributes.Tags, f.GetTag())
			}
			for _, f := range p.GetStringEqualsFilters() {
				t.Attributes.StringArgs[f.GetStringArg()] = f.GetValue()
			}
			for _, f := range p.GetDoubleRangeFilters() {
				t.Attributes.DoubleArgs[f.GetDoubleArg()] = lib.Pick(rng, []float64{f.GetMinimum(), f.GetMaximum(), (f.GetMinimum() + f.GetMaximum()) / 2})
			}
			switch a := t.Attributes; rng.Intn(5) {
			case 0:
				if len(a.Tags) > 0 {
					a.Tags = a.Tags[1:]
				}
			case 1:
				for k := range a.StringArgs {
					if rng.Intn(2) == 0 {
						a.StringArgs[k] = lib.Pick(rng, lib.SVals)
					} else {
						delete(a.StringArgs, k)
					}
					break
				}
			case 2:
				for k, v := range a.DoubleArgs {
					switch rng.Intn(4) {
					case 0:
						delete(a.DoubleArgs, k)
					case 1:
						a.DoubleArgs[k] = math.Nextafter(v, math.Inf(1))
					case 2:
						a.DoubleArgs[k] = math.Nextafter(v, math.Inf(-1))
					case 3:
						a.DoubleArgs[k] = math.NaN()
					}
					break
				}
			}
		}
		if t.Attributes != nil && t.Attributes.CreationTime == nil {
			t.Attributes.CreationTime = lib.GenTime(rng)
		}
		if rng.Intn(60) == 0 { // among many others
			t.Attributes = lib.Crowd(rng, t.Attributes, 1+rng.Intn(lib.Pick(rng, []int{20, 300, 2000})))
			r.Count("crowded_tickets", 1)
		}
		if rng.Intn(60) == 0 {
			p = proto.Clone(p).(*pb.Pool)
			crowdPool(rng, p, t)
			r.Count("crowded_pools", 1)
		}
		if rng.Intn(50) == 0 {
			t = proto.Clone(t).(*pb.Ticket)
		}
		judge(r, p, t)
		if i%100000 == 7 {
			r.Sample(map[string]any{"pool": p.String(), "ticket": t.String(), "member": lib.InPool(p, t)})
		}
	}
}

// crowdPool adds many filters that the ticket passes, and then possibly one more that is hard to say.
func crowdPool(rng *rand.Rand, p *pb.Pool, t *pb.Ticket) {
	a := t.GetAttributes()
	for _, g := range a.GetTags() {
		for k := rng.Intn(4); k > 0 && len(p.TagPresentFilters) < 300; k-- {
			p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: g})
		}
	}
	for k, v := range a.GetStringArgs() {
		if len(p.StringEqualsFilters) < 300 {
			p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: k, Value: v})
		}
	}
	for k, v := range a.GetDoubleArgs() {
		if len(p.DoubleRangeFilters) < 300 {
			p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: k, Minimum: v, Maximum: v})
		}
	}
	rng.Shuffle(len(p.TagPresentFilters), func(i, j int) {
		p.TagPresentFilters[i], p.TagPresentFilters[j] = p.TagPresentFilters[j], p.TagPresentFilters[i]
	})
	switch rng.Intn(4) { // the last one decides
	case 0:
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: lib.NearWord(rng)})
	case 1:
		if n := len(p.StringEqualsFilters); n > 0 {
			p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: p.StringEqualsFilters[rng.Intn(n)].StringArg, Value: lib.Pick(rng, lib.SVals)})
		}
	case 2:
		if n := len(p.DoubleRangeFilters); n > 0 {
			p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: p.DoubleRangeFilters[rng.Intn(n)].DoubleArg, Minimum: lib.Pick(rng, lib.DVals), Maximum: lib.Pick(rng, lib.DVals), Bounds: pb.Pool_FilterBounds(rng.Intn(4))})
		}
	}
}

// near: strings that resemble what the filter asks for without being it, on either side.
func near(r *lib.Run) {
	rng := r.Rng("near")
	for i := 0; i < r.N(150000, 3000000); i++ {
		w := lib.NearWord(rng)
		n := lib.Near(rng, w)
		if rng.Intn(6) == 0 {
			n = lib.Near(rng, n)
		}
		if rng.Intn(2) == 0 {
			w, n = n, w
		}
		p := &pb.Pool{}
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: lib.GenTime(rng)}}
		a := t.Attributes
		switch rng.Intn(5) {
		case 0, 1: // tags; possibly several
			p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: w})
			a.Tags = append(a.Tags, n)
			for k := rng.Intn(3); k > 0; k-- {
				a.Tags = append(a.Tags, lib.Near(rng, n))
			}
			if rng.Intn(3) == 0 {
				p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: a.Tags[rng.Intn(len(a.Tags))]})
			}
			if rng.Intn(4) == 0 { // the value is elsewhere
				a.StringArgs = map[string]string{w: "true", "tag": w}
				a.DoubleArgs = map[string]float64{w: 1}
			}
		case 2: // value
			p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: "k", Value: w})
			a.StringArgs = map[string]string{"k": n}
		case 3: // key
			p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: w, Value: "v"})
			a.StringArgs = map[string]string{n: "v"}
			if rng.Intn(3) == 0 {
				a.Tags = []string{w, "v"}
			}
		case 4: // key of a double
			p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: w, Minimum: 0, Maximum: 2})
			a.DoubleArgs = map[string]float64{n: 1}
			if rng.Intn(3) == 0 {
				a.StringArgs = map[string]string{w: "1"}
			}
		}
		r.Count("near_misses", 1)
		judge(r, p, t)
	}
}
