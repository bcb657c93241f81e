// Drives the replication queues of om-core's ticket cache with a recording storage.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/lib"
)

func main() {
	logrus.SetLevel(logrus.PanicLevel)
	lib.ChildMain(map[string]func(*lib.Run){"queue": queue, "race": race})
}

type fakeRep struct {
	mu      sync.Mutex
	batches [][]store.StateUpdate
	at      []time.Time
	send    func(n int, us []*store.StateUpdate) []*store.StateResponse
	get     func() []*store.StateUpdate
}

func (f *fakeRep) SendUpdates(us []*store.StateUpdate) []*store.StateResponse {
	f.mu.Lock()
	n := len(f.batches)
	b := make([]store.StateUpdate, len(us))
	for i, u := range us {
		b[i] = *u
	}
	f.batches = append(f.batches, b)
	f.at = append(f.at, time.Now())
	f.mu.Unlock()
	return f.send(n, us)
}

func (f *fakeRep) GetUpdates() []*store.StateUpdate {
	if f.get == nil {
		time.Sleep(time.Hour)
	}
	return f.get()
}

func (f *fakeRep) GetReplIdValidationRegex() string { return `^\d+-\d+$` }

func queue(r *lib.Run) {
	for round := 0; round < r.N(30, 200); round++ {
		preloaded(r, round)
		concurrent(r, round)
	}
	waits(r)
}

func cfg(threshold, waitMs int) *viper.Viper {
	c := viper.New()
	c.Set("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", threshold)
	c.Set("OM_CACHE_OUT_WAIT_TIMEOUT_MS", waitMs)
	c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 5)
	c.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 1000)
	c.Set("OM_CACHE_TICKET_TTL_SECS", 600)
	c.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 600)
	return c
}

// results: success or failure per update, decided by its key.
func results(rng *rand.Rand, mu *sync.Mutex, verdict map[string]string) func(int, []*store.StateUpdate) []*store.StateResponse {
	return func(n int, us []*store.StateUpdate) []*store.StateResponse {
		mu.Lock()
		defer mu.Unlock()
		p := lib.Pick(rng, []int{0, 0, 30, 100})
		out := make([]*store.StateResponse, len(us))
		for i, u := range us {
			k := u.Key + u.Value
			if rng.Intn(100) < p {
				verdict[k] = "error " + k
				out[i] = &store.StateResponse{Result: k, Err: errors.New("error " + k)}
			} else {
				verdict[k] = fmt.Sprintf("id %d-%d", n, i)
				out[i] = &store.StateResponse{Result: verdict[k]}
			}
		}
		if rng.Intn(4) == 0 {
			time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
		}
		return out
	}
}

func same(x *store.StateResponse, v string) bool {
	if x == nil {
		return false
	}
	if x.Err != nil {
		return x.Err.Error() == v
	}
	return x.Result == v
}

// preloaded: the order of acceptance is known.
func preloaded(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("pre", round))
	threshold := lib.Pick(rng, []int{1, 2, 3, 10, 50, 1000})
	total := lib.Pick(rng, []int{1, threshold - 1, threshold, threshold + 1, 7*threshold + 3, 400})
	if total < 1 {
		total = 1
	}
	verdict := map[string]string{}
	var vmu sync.Mutex
	f := &fakeRep{send: results(rng, &vmu, verdict)}
	tc := &cache.ReplicatedTicketCache{Replicator: f, UpRequests: make(chan *cache.UpdateRequest, total), Cfg: cfg(threshold, lib.Pick(rng, []int{1, 10, 40}))}
	reqs := make([]*cache.UpdateRequest, total)
	for i := range reqs {
		ctx, cancel := context.WithCancel(context.Background())
		if rng.Intn(4) == 0 {
			cancel() // this requester has gone away
		}
		defer cancel()
		reqs[i] = &cache.UpdateRequest{Ctx: ctx, Update: store.StateUpdate{Cmd: rng.Intn(4), Key: fmt.Sprint("k", i), Value: fmt.Sprint("v", i)}, ResultsChan: make(chan *store.StateResponse, 2)}
		tc.UpRequests <- reqs[i]
	}
	want := make([]store.StateUpdate, total)
	for i, q := range reqs {
		want[i] = q.Update
	}
	go tc.OutgoingReplicationQueue(context.Background())
	judge(r, fmt.Sprint("pre", round), f, reqs, verdict, &vmu, threshold)
	i := 0
	for _, b := range f.batches {
		for _, u := range b {
			if i >= total || u.Cmd != want[i].Cmd || u.Key != want[i].Key || u.Value != want[i].Value {
				r.Violate("updates do not reach the storage in the order they were accepted", map[string]any{"position": i, "got": fmt.Sprintf("%+v", u), "threshold": threshold})
			}
			i++
		}
	}
	if i != total {
		r.Violate("updates are lost or duplicated on their way to the storage", map[string]any{"accepted": total, "sent": i})
	}
}

func judge(r *lib.Run, name string, f *fakeRep, reqs []*cache.UpdateRequest, verdict map[string]string, vmu *sync.Mutex, threshold int) {
	for i, q := range reqs {
		select {
		case x := <-q.ResultsChan:
			vmu.Lock()
			v := verdict[q.Update.Key+q.Update.Value]
			vmu.Unlock()
			if !same(x, v) {
				r.Violate("a requester receives the result of another update", map[string]any{"request": i, "update": fmt.Sprintf("%+v", q.Update), "got": fmt.Sprintf("%+v", x), "own": v})
			}
		case <-time.After(60 * time.Second):
			r.Violate("a requester never receives its result", map[string]any{"request": i, "of": len(reqs), "threshold": threshold, "batches": len(f.batches)})
		}
	}
	time.Sleep(3 * time.Millisecond)
	for i, q := range reqs {
		select {
		case x := <-q.ResultsChan:
			r.Violate("a requester receives two results", map[string]any{"request": i, "second": fmt.Sprintf("%+v", x)})
		default:
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	full := 0
	for _, b := range f.batches {
		if len(b) > threshold {
			r.Violate("a batch is larger than the configured threshold", map[string]any{"size": len(b), "threshold": threshold})
		}
		if len(b) == 0 {
			r.Count("empty_batches", 1)
		}
		if len(b) == threshold {
			full++
		}
		r.Max("batch", int64(len(b)))
	}
	r.Count("batches", len(f.batches))
	r.Count("full_batches", full)
	r.Count("requests", len(reqs))
	r.Eval(len(reqs) > 1, name)
}

// concurrent requesters: every requester's own order is known.
func concurrent(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("conc", round))
	threshold := lib.Pick(rng, []int{1, 2, 5, 20, 50})
	verdict := map[string]string{}
	var vmu sync.Mutex
	f := &fakeRep{send: results(rng, &vmu, verdict)}
	tc := &cache.ReplicatedTicketCache{Replicator: f, UpRequests: make(chan *cache.UpdateRequest), Cfg: cfg(threshold, lib.Pick(rng, []int{1, 3, 20}))}
	go tc.OutgoingReplicationQueue(context.Background())
	var mu sync.Mutex
	var all []*cache.UpdateRequest
	var wg sync.WaitGroup
	workers := 10
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		wr := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for n := 0; n < 30; n++ {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				// a call with several updates shares one channel, as the activation calls do
				q := &cache.UpdateRequest{Ctx: ctx, Update: store.StateUpdate{Cmd: wr.Intn(4), Key: fmt.Sprint("w", w), Value: fmt.Sprint("n", n)}, ResultsChan: make(chan *store.StateResponse, 2)}
				select {
				case tc.UpRequests <- q:
				case <-time.After(60 * time.Second):
					r.Violate("the queue does not accept updates any more", map[string]any{"worker": w, "n": n, "batches": len(f.batches)})
				}
				if wr.Intn(5) == 0 {
					cancel()
				}
				mu.Lock()
				all = append(all, q)
				mu.Unlock()
				if wr.Intn(6) == 0 {
					time.Sleep(time.Duration(wr.Intn(4)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	judge(r, fmt.Sprint("conc", round), f, all, verdict, &vmu, threshold)
	next := map[string]int{}
	n := 0
	for _, b := range f.batches {
		for _, u := range b {
			if u.Value != fmt.Sprint("n", next[u.Key]) {
				r.Violate("updates of one requester reach the storage out of order, twice or not at all", map[string]any{"worker": u.Key, "got": u.Value, "expected": next[u.Key]})
			}
			next[u.Key]++
			n++
		}
	}
	if n != len(all) {
		r.Violate("updates are lost or duplicated on their way to the storage", map[string]any{"accepted": len(all), "sent": n})
	}
}

// waits: a partially filled batch is sent once the configured wait is over.
func waits(r *lib.Run) {
	for _, wait := range []int{1, 50, 300} {
		f := &fakeRep{send: func(n int, us []*store.StateUpdate) []*store.StateResponse {
			out := make([]*store.StateResponse, len(us))
			for i := range us {
				out[i] = &store.StateResponse{Result: "1-1"}
			}
			return out
		}}
		tc := &cache.ReplicatedTicketCache{Replicator: f, UpRequests: make(chan *cache.UpdateRequest), Cfg: cfg(1000, wait)}
		go tc.OutgoingReplicationQueue(context.Background())
		for i := 0; i < 6; i++ {
			// others keep arriving: the batch may not wait for more and more of them
			stop := make(chan bool)
			var wg sync.WaitGroup
			if i%2 == 1 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						q := &cache.UpdateRequest{Ctx: context.Background(), Update: store.StateUpdate{Cmd: store.Activate, Key: "o"}, ResultsChan: make(chan *store.StateResponse, 1)}
						select {
						case tc.UpRequests <- q:
						case <-stop:
							return
						}
						select {
						case <-time.After(time.Duration(wait) * time.Millisecond / 4):
						case <-stop:
							return
						}
					}
				}()
			}
			q := &cache.UpdateRequest{Ctx: context.Background(), Update: store.StateUpdate{Cmd: store.Activate, Key: "k"}, ResultsChan: make(chan *store.StateResponse, 1)}
			t0 := time.Now()
			tc.UpRequests <- q
			select {
			case <-q.ResultsChan:
				r.Max(fmt.Sprintf("partial_batch_ms_with_wait_%d", wait), time.Since(t0).Milliseconds())
			case <-time.After(10*time.Second + 10*time.Duration(wait)*time.Millisecond):
				r.Violate("a partially filled batch is not sent after the configured wait", map[string]any{"wait_ms": wait, "others_arriving": i%2 == 1})
			}
			close(stop)
			wg.Wait()
			r.Eval(true, "wait", wait, i)
		}
	}
}

// race: both queues and the metrics callback at once, for the race detector.
func race(r *lib.Run) {
	var m metric.Meter = noop.NewMeterProvider().Meter("x")
	cache.RegisterMetrics(&m)
	var mu sync.Mutex
	seq := 0
	var pending []*store.StateUpdate
	f := &fakeRep{}
	f.send = func(n int, us []*store.StateUpdate) []*store.StateResponse {
		mu.Lock()
		defer mu.Unlock()
		out := make([]*store.StateResponse, len(us))
		for i, u := range us {
			seq++
			id := fmt.Sprintf("%d-%d", time.Now().UnixMilli(), seq)
			c := *u
			if c.Cmd == store.Ticket {
				c.Key = id
			}
			pending = append(pending, &c)
			out[i] = &store.StateResponse{Result: id}
		}
		return out
	}
	f.get = func() []*store.StateUpdate {
		time.Sleep(time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		p := pending
		pending = nil
		return p
	}
	c := cfg(20, 1)
	c.Set("OM_CACHE_TICKET_TTL_SECS", 1)
	c.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 1)
	tc := &cache.ReplicatedTicketCache{Replicator: f, UpRequests: make(chan *cache.UpdateRequest), Cfg: c}
	go tc.OutgoingReplicationQueue(context.Background())
	go tc.IncomingReplicationQueue(context.Background())
	var wg sync.WaitGroup
	end := time.Now().Add(time.Duration(r.N(3500, 20000)) * time.Millisecond)
	for w := 0; w < 6; w++ {
		w := w
		wg.Add(1)
		rng := r.Rng(fmt.Sprint("race", w))
		go func() {
			defer wg.Done()
			ids := []string{"1-1"}
			for time.Now().Before(end) {
				u := store.StateUpdate{Cmd: rng.Intn(4), Key: lib.Pick(rng, ids)}
				switch u.Cmd {
				case store.Ticket:
					b, _ := proto.Marshal(&pb.Ticket{ExpirationTime: timestamppb.New(time.Now().Add(time.Duration(rng.Intn(900)) * time.Millisecond))})
					u.Value = string(b)
				case store.Assign:
					b, _ := proto.Marshal(&pb.Assignment{Connection: "x"})
					u.Value = string(b)
				}
				q := &cache.UpdateRequest{Ctx: context.Background(), Update: u, ResultsChan: make(chan *store.StateResponse, 1)}
				tc.UpRequests <- q
				x := <-q.ResultsChan
				if u.Cmd == store.Ticket {
					ids = append(ids, x.Result)
				}
				n := 0
				tc.Tickets.Range(func(k, v any) bool { n++; _, _ = tc.InactiveSet.Load(k); return n < 50 })
			}
		}()
	}
	wg.Wait()
	r.Eval(true, "race-cache")
	r.Count("race_updates", seq)
}
