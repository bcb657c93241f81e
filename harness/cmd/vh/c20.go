package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"

	"context"
)

func init() { checks["C20"] = c20; checks["C21"] = c21 }

var idForm = regexp.MustCompile(`^\d+-\d+$`)

func splitID(id string) (int64, int64) {
	a, b, _ := strings.Cut(id, "-")
	x, _ := strconv.ParseInt(a, 10, 64)
	y, _ := strconv.ParseInt(b, 10, 64)
	return x, y
}

func c20(r *lib.Run) {
	r.Rule = "one evaluation = one stream of updates given to the in-memory storage in batches and read back concurrently, compared position by position; or one ticket id returned by a server with that storage (form, clock, order per client, uniqueness) with the ticket found under it; also with the server's wall clock standing still and set back and forth. Non-trivial: always"
	r.Comp("comp-memory", "stream")
	c20clock(r)
	o := r.StartOM("om", lib.FastEnv())
	quiet := o.Noise(r.Rng("noise"), 10*time.Millisecond, []string{"1-1", "5-5"})
	var ids sync.Map
	var wg sync.WaitGroup
	for w := 0; w < 24; w++ {
		wg.Add(1)
		wr := r.Rng(fmt.Sprint("w", w))
		go func() {
			defer wg.Done()
			var pm, ps int64 = -1, -1
			for n := 0; n < r.N(60, 300); n++ {
				mark := fmt.Sprintf("m-%d-%d", w, n)
				t0 := time.Now().UnixMilli()
				id := o.Create(lib.TagTicket("c20", mark))
				t1 := time.Now().UnixMilli()
				ms, seq := splitID(id)
				det := map[string]any{"id": id, "call_began_ms": t0, "call_ended_ms": t1}
				if !idForm.MatchString(id) {
					r.Violate("an id does not have the documented form", det)
				}
				if ms < t0-5000 || ms > t1 {
					r.Violate("the time in an id is not the time of the creation in the unit ticket ages are computed in", det)
				}
				if ms < pm || (ms == pm && seq <= ps) {
					det["previous"] = fmt.Sprint(pm, "-", ps)
					r.Violate("ids do not increase in the order of submission", det)
				}
				pm, ps = ms, seq
				if x, dup := ids.LoadOrStore(id, mark); dup {
					r.Violate("two tickets got the same id", map[string]any{"id": id, "tickets": []any{x, mark}})
				}
				if wr.Intn(2) == 0 {
					o.Activate(id)
				}
				o.Activate(id)
				r.Eval(true, "sys", id)
			}
		}()
	}
	wg.Wait()
	quiet()
	o.Barrier()
	vis := o.QueryTag("c20")
	ids.Range(func(k, v any) bool {
		t := vis[k.(string)]
		if t == nil || len(t.GetAttributes().GetTags()) != 2 || t.Attributes.Tags[1] != v.(string) {
			r.Violate("the ticket under a returned id is missing or another one", map[string]any{"id": k, "created": v, "found": fmt.Sprint(t)})
		}
		return true
	})
	r.Count("server_ids_judged", len(vis))
	o.Stop()
}

func c21(r *lib.Run) {
	r.Rule = "one evaluation = one sequence of queued updates (known order of acceptance, or concurrent requesters with known own order; thresholds 1 to 1000; failures mixed in; cancelled requesters) whose batches and results were compared; or one write batch seen at the storage of a running server. Non-trivial: at least two requests"
	r.Comp("comp-cache", "queue")
	for i := 0; i < r.N(3, 12); i++ {
		c21sys(r, i)
	}
}

// c21sys: batches as the storage sees them; every call's own result; cancelled calls in between.
func c21sys(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("sys", round))
	s := newRedis(r)
	defer s.Close()
	threshold := []int{1, 5, 40}[round%3]
	wait := []int{3, 60, 10}[round%3]
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(threshold), "OM_CACHE_OUT_WAIT_TIMEOUT_MS": fmt.Sprint(wait)}))
	var mu sync.Mutex
	open := map[int]int{} // connection -> XADDs since the last XTRIM
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		mu.Lock()
		defer mu.Unlock()
		switch c.Name {
		case "XADD":
			open[c.Conn]++
			if n := open[c.Conn]; n > threshold {
				go r.Violate("a batch is larger than the configured threshold", map[string]any{"size": n, "threshold": threshold})
			}
			r.Max("server_batch", int64(open[c.Conn]))
			if len(c.Args) > 3 && strings.HasPrefix(c.Args[3], "7-") { // these fail
				return fredis.Action{Err: "ERR refused " + c.Args[3]}
			}
		case "XTRIM":
			r.Eval(open[c.Conn] > 1, "batch", round, c.N)
			open[c.Conn] = 0
			r.Count("server_batches", 1)
		}
		return fredis.Action{}
	})
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for n := 0; n < r.N(30, 120); n++ {
				ctx, cancel := lib.Ctx()
				if wr.Intn(4) == 0 { // goes away while its updates are queued
					c2, x := context.WithTimeout(ctx, time.Duration(wr.Intn(2*wait*1000+1))*time.Microsecond)
					o.C.ActivateTickets(c2, &pb.ActivateTicketsRequest{TicketIds: []string{fmt.Sprintf("9-%d", wr.Intn(1000)), "9-1"}})
					x()
					cancel()
					r.Count("cancelled_calls", 1)
					continue
				}
				var ids, bad []string
				for k := 0; k < 1+wr.Intn(12); k++ {
					if wr.Intn(4) == 0 {
						ids = append(ids, fmt.Sprintf("7-%d%03d%02d", w, n, k))
						bad = append(bad, ids[len(ids)-1])
					} else {
						ids = append(ids, fmt.Sprintf("8-%d%03d%02d", w, n, k))
					}
				}
				_, err := o.C.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
				cancel()
				if status.Code(err) == codes.DeadlineExceeded {
					r.Violate("a requester never receives its results", map[string]any{"threshold": threshold, "wait_ms": wait})
				}
				got := violatedIDs(err)
				if fmt.Sprint(got) != fmt.Sprint(bad) || (err != nil) != (len(bad) > 0) {
					r.Violate("a call's results are not those of its own updates", map[string]any{"refused": bad, "reported": got, "error": fmt.Sprint(err)})
				}
				r.Eval(len(ids) > 1, "call", round, w, n)
			}
		}()
	}
	wg.Wait()
	// a single update does not wait for others
	t0 := time.Now()
	o.Create(lib.TagTicket("single"))
	r.Max("single_update_ms", time.Since(t0).Milliseconds())
	if d := time.Since(t0); d > 15*time.Second {
		r.Violate("a partially filled batch is not sent after the configured wait", map[string]any{"wait_ms": wait, "took_ms": d.Milliseconds()})
	}
	// order within and between calls
	pos := map[string]int{}
	for i, u := range lib.DecodeAll(0, s.Entries(0)) {
		if strings.HasPrefix(u.Key, "8-") {
			if _, dup := pos[u.Key]; dup {
				r.Violate("an update is stored twice", u.Key)
			}
			pos[u.Key] = i
		}
	}
	last := map[string]int{}
	keys := lib.SortedKeys(pos) // w, n, k: the order in which one worker issued them
	for _, k := range keys {
		w := k[:len(k)-5]
		if p, ok := last[w]; ok && pos[k] < p {
			r.Violate("updates of one requester reach the storage out of order", map[string]any{"update": k})
		}
		last[w] = pos[k]
	}
	r.Count("server_updates_judged", len(keys))
	s.SetHook(nil)
	o.Stop()
}
