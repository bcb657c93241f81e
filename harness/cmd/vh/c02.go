package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func init() { checks["C02"] = c02 }

func c02(r *lib.Run) {
	r.Rule = "one evaluation = one ticket with random content (attributes, extensions, creation and expiration times: unset, valid, invalid, at the limits) created through the API and compared, field by field on the wire form, with what storage holds and with what a matchmaking function received. Non-trivial: it carries content or explicit times"
	r.Assumptions = []string{"client and server clocks are the same clock (one machine)"}
	for i := 0; i < r.N(5, 30); i++ {
		c02round(r, i)
	}
}

// genTimes picks a creation and an expiration time; ttl is the configured one.
func genTimes(rng *rand.Rand, ttl time.Duration) (cr, ex *timestamppb.Timestamp) {
	now := time.Now()
	switch rng.Intn(7) {
	case 0, 1:
	case 2:
		cr = lib.InvalidTime(rng)
	case 3:
		cr = timestamppb.New(now.Add(-time.Duration(rng.Int63n(int64(ttl)))))
	case 4:
		cr = lib.GenTime(rng)
	case 5:
		cr = timestamppb.New(now.Add(time.Duration(rng.Intn(10000)) * time.Second)) // in the future
	case 6:
		cr = lib.Pick(rng, []*timestamppb.Timestamp{{}, {Seconds: -62135596800}, {Seconds: 32503680000, Nanos: 999999999}, {Nanos: 1}, {Seconds: -1}})
	}
	base := now
	if cr != nil && lib.ValidTS(cr) {
		base = cr.AsTime()
	}
	switch rng.Intn(11) {
	case 0, 1:
	case 9: // long gone, or never
		ex = lib.Pick(rng, []*timestamppb.Timestamp{{}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999}, {Nanos: 1}, {Seconds: -1}, {Seconds: 1}})
	case 10: // before, or exactly at the creation
		ex = timestamppb.New(base.Add(-time.Duration(rng.Intn(2)) * time.Nanosecond))
	case 2:
		ex = lib.InvalidTime(rng)
	case 3:
		ex = timestamppb.New(base.Add(ttl)) // exactly the default (when the creation time is given)
	case 4:
		ex = timestamppb.New(base.Add(ttl + time.Nanosecond*time.Duration(1+rng.Intn(2000))))
	case 5:
		ex = timestamppb.New(base.Add(ttl - time.Nanosecond))
	case 6:
		ex = timestamppb.New(base.Add(time.Duration(rng.Int63n(int64(ttl)))))
	case 7:
		ex = timestamppb.New(base.Add(ttl * 3))
	case 8:
		ex = timestamppb.New(base.Add(-time.Second))
	}
	return
}

type c02case struct {
	in     *pb.Ticket
	t0, t1 time.Time
	id     string
}

// c02judge compares a stored or delivered ticket with the submitted one.
func c02judge(r *lib.Run, where string, c *c02case, got *pb.Ticket, ttl time.Duration, crSeen map[string]string) {
	bad := func(what string, want, have any) {
		r.Violate("ticket content: "+what+" ("+where+")", map[string]any{"submitted": c.in.String(), "id": c.id, "want": want, "got": have, "ttl": ttl.String()})
	}
	strip := func(t *pb.Ticket) string {
		x := &pb.Ticket{Extensions: t.GetExtensions(), Attributes: &pb.Ticket_FilterableData{
			Tags: t.GetAttributes().GetTags(), StringArgs: t.GetAttributes().GetStringArgs(), DoubleArgs: t.GetAttributes().GetDoubleArgs()}}
		return lib.Det(x)
	}
	if strip(c.in) != strip(got) {
		bad("tags, args or extensions changed", c.in.String(), got.String())
	}
	if len(got.ProtoReflect().GetUnknown()) > 0 {
		bad("unknown fields", nil, got.String())
	}
	cr := got.GetAttributes().GetCreationTime()
	if !lib.ValidTS(cr) {
		bad("invalid creation time", nil, cr.String())
	}
	if ct := c.in.GetAttributes().GetCreationTime(); lib.ValidTS(ct) {
		if !proto.Equal(ct, cr) {
			bad("submitted creation time not kept", ct.String(), cr.String())
		}
	} else {
		g := cr.AsTime()
		if g.Before(c.t0.Add(-5*time.Millisecond)) || g.After(c.t1.Add(5*time.Millisecond)) {
			bad("creation time is not the time of the call", []string{c.t0.String(), c.t1.String()}, g.String())
		}
	}
	limit := cr.AsTime().Add(ttl)
	want := limit
	if ex := c.in.GetExpirationTime(); lib.ValidTS(ex) && !ex.AsTime().After(limit) {
		want = ex.AsTime()
	}
	if !got.GetExpirationTime().AsTime().Equal(want) || got.GetExpirationTime() == nil {
		bad("wrong expiration time", want.String(), got.GetExpirationTime().AsTime().String())
	}
	_ = crSeen
}

func c02round(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint(round))
	// an enormous TTL keeps tickets with creation times of the past in the pools
	ttlSecs := []int{400_000_000, 600, 1, 86400, 400_000_000}[round%5]
	ttl := time.Duration(ttlSecs) * time.Second
	memory := round%5 == 4
	env := lib.Merge(lib.FastEnv(), map[string]string{"OM_CACHE_TICKET_TTL_SECS": fmt.Sprint(ttlSecs)})
	var entries func() []lib.Upd
	if !memory {
		s := newRedis(r)
		defer s.Close()
		env = lib.Merge(env, lib.RedisEnv(s.Port()))
		entries = func() []lib.Upd { return lib.DecodeAll(0, s.Entries(0)) }
	}
	o := r.StartOM("om", env)
	n := r.N(1200, 5000)
	cases := make([]*c02case, n)
	for i := range cases {
		t := &pb.Ticket{Attributes: lib.GenAttrs(rng), Extensions: lib.GenExt(rng, 4)}
		if rng.Intn(4) == 0 {
			t.Id = lib.Pick(rng, []string{"x", "1-1", fmt.Sprintf("%d-0", time.Now().UnixMilli())})
		}
		if rng.Intn(100) == 0 {
			if t.Attributes == nil {
				t.Attributes = &pb.Ticket_FilterableData{}
			}
			t.Attributes.Tags = append(t.Attributes.Tags, strings.Repeat("\x00é\r\n$*", rng.Intn(20000)))
			for k := 0; k < 300; k++ {
				t.Attributes.Tags = append(t.Attributes.Tags, fmt.Sprint(k))
			}
		}
		if rng.Intn(100) == 0 && t.Attributes != nil {
			t.Attributes.StringArgs, t.Attributes.DoubleArgs = map[string]string{}, map[string]float64{}
			for k := 0; k < 200; k++ {
				t.Attributes.StringArgs[fmt.Sprint("k", k)] = fmt.Sprint(k)
				t.Attributes.DoubleArgs[fmt.Sprint("k", k)] = rng.NormFloat64()
			}
		}
		if rng.Intn(100) == 0 { // long content of every kind
			if t.Attributes == nil {
				t.Attributes = &pb.Ticket_FilterableData{}
			}
			long := func() string { return lib.Pad(10_000+rng.Intn(150_000)) + fmt.Sprint(rng.Int()) }
			t.Attributes.StringArgs = map[string]string{"k": long(), long(): "v", long(): long()}
			t.Attributes.DoubleArgs = map[string]float64{long(): math.MaxFloat64, long(): 1e301}
			t.Attributes.Tags = append(t.Attributes.Tags, long(), long())
			t.Extensions = map[string]*anypb.Any{"k": lib.Any(long()), long(): lib.Any("v"), "m": bigAny(500_000 + rng.Intn(1_000_000))}
		}
		cr, ex := genTimes(rng, ttl)
		if cr != nil && t.Attributes == nil {
			t.Attributes = &pb.Ticket_FilterableData{}
		}
		if cr != nil {
			t.Attributes.CreationTime = cr
		}
		t.ExpirationTime = ex
		cases[i] = &c02case{in: t}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 64)
	for _, c := range cases {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			c.t0 = time.Now()
			c.id = o.Create(c.in)
			c.t1 = time.Now()
		}()
	}
	wg.Wait()
	byID := map[string]*c02case{}
	ids := []string{}
	for _, c := range cases {
		byID[c.id] = c
		ids = append(ids, c.id)
	}
	if entries != nil {
		stored := 0
		for _, u := range entries() {
			c := byID[u.ID]
			if u.Cmd != "ticket" || c == nil {
				continue
			}
			stored++
			if u.Ticket == nil {
				r.Violate("stored ticket cannot be decoded", map[string]any{"id": u.ID})
			}
			c02judge(r, "storage", c, u.Ticket, ttl, nil)
			r.Count("compared_in_storage", 1)
		}
		if stored != len(byID) {
			r.Violate("created tickets missing from storage", map[string]any{"want": len(byID), "got": stored})
		}
	}
	o.Activate(ids...)
	o.Barrier()
	obs := o.Query(map[string]*pb.Pool{"all": {Name: "all"}})
	seen := obs.Pools["all"]
	for id, t := range seen {
		c := byID[id]
		if c == nil {
			continue
		}
		if t.GetId() != id {
			r.Violate("ticket without its id", map[string]any{"id": id, "ticket": t.String()})
		}
		c02judge(r, "delivered", c, t, ttl, nil)
		r.Count("compared_in_pools", 1)
	}
	for i, c := range cases {
		t := c.in
		r.Eval(t.Attributes != nil || t.Extensions != nil || t.ExpirationTime != nil, round, i)
		if ttlSecs == 400_000_000 {
			exp := c.t1
			if ct := t.GetAttributes().GetCreationTime(); lib.ValidTS(ct) {
				exp = ct.AsTime()
			}
			limit := exp.Add(ttl)
			if ex := t.GetExpirationTime(); lib.ValidTS(ex) && ex.AsTime().Before(limit) {
				limit = ex.AsTime()
			}
			if limit.After(time.Now().Add(time.Hour)) && seen[c.id] == nil {
				r.Violate("an active unexpired ticket is not delivered", map[string]any{"id": c.id, "ticket": t.String()})
			}
		}
		if r.WantSample() && t.Attributes != nil && t.ExpirationTime != nil {
			r.Sample(map[string]any{"submitted": t.String(), "id": c.id, "ttl": ttl.String(), "delivered": seen[c.id] != nil})
		}
	}
	o.Stop()
}
