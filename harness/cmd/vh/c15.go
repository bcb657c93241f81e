package main

import (
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/h/fredis"
	"verif.local/h/lib"
)

func init() { checks["C15"] = c15; checks["C16"] = c16 }

func c15(r *lib.Run) {
	r.Rule = "one evaluation = one batch given to the Redis replicator (complete and incomplete updates of every type, binary payloads, refused commands, refused trim, connections cut at any command, storage down) whose results are compared position by position with what the stand-in stored; or one RPC of the concurrent system workload under refused writes. Non-trivial: the batch has more than one update"
	r.Comp("comp-redis", "send")
	for i := 0; i < r.N(1, 4); i++ {
		c04round(r, 4*i+1) // error replies
		c04round(r, 4*i+2) // dropped connections
		c13deliver(r, i, "redis", true)
		c01redis(r, 100+i)
	}
}

func c16(r *lib.Run) {
	r.Rule = "one evaluation = one stream read to its end by repeated polls of the Redis replicator (poll sizes 1 to 10000, error replies, lost replies, cut connections, storage down, trimmed beginning, ids whose textual and numerical order differ) compared entry by entry with the stand-in's log; or one instance that read such a stream with faults, whose pools and assignments are compared with the fold of the log. Non-trivial: the stream has entries"
	r.Comp("comp-redis", "read")
	for i := 0; i < r.N(4, 24); i++ {
		c16sys(r, i)
	}
}

// c16sys: the instance reads a stream under read faults; the state it ends with must be the fold of the stream.
func c16sys(r *lib.Run, round int) {
	rng := r.Rng(fmt.Sprint("sys", round))
	s := newRedis(r)
	defer s.Close()
	count := []int{1, 2, 5, 10000}[round%4]
	var fmu sync.Mutex
	frng := r.Rng(fmt.Sprint("sysf", round))
	faults := 0
	on := true
	s.SetHook(func(c *fredis.Cmd) fredis.Action {
		if c.Name != "XREAD" {
			return fredis.Action{}
		}
		fmu.Lock()
		defer fmu.Unlock()
		if !on || frng.Intn(5) != 0 {
			return fredis.Action{}
		}
		faults++
		switch frng.Intn(3) {
		case 0:
			return fredis.Action{Err: lib.StorageError()}
		case 1:
			return fredis.Action{DropBefore: true}
		}
		return fredis.Action{DropAfter: true}
	})
	ms := time.Now().UnixMilli() - 3000
	seq := int64(7)
	var ids []string
	step := func() (m, q int64) {
		if rng.Intn(25) == 0 {
			ms++
			seq = 0
		} else {
			seq++
		}
		return ms, seq
	}
	add := func() {
		var f []string
		switch x := rng.Intn(10); {
		case x < 3 || len(ids) == 0:
			f = stored("c16")
		case x < 6:
			f = []string{"activate", lib.Pick(rng, ids)}
		case x < 8:
			f = []string{"deactivate", lib.Pick(rng, ids)}
		default:
			b, _ := proto.Marshal(&pb.Assignment{Connection: fmt.Sprint("c", rng.Int63())})
			f = []string{"assign", lib.Pick(rng, ids), "connection", string(b)}
		}
		var id string
		var err error
		if ms < time.Now().UnixMilli()-1000 && rng.Intn(3) > 0 || len(ids) < 50 {
			m, q := step()
			id, err = s.AddAt(m, q, f...)
			if err != nil {
				id = s.Add(f...)
			}
		} else {
			id = s.Add(f...)
		}
		if f[0] == "ticket" {
			ids = append(ids, id)
		}
	}
	n := 400
	if count > 100 {
		n = 3000
	}
	for i := 0; i < n; i++ {
		add()
	}
	o := r.StartOM("om", lib.Merge(lib.FastEnv(), lib.RedisEnv(s.Port()), map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": fmt.Sprint(count), "OM_CACHE_IN_WAIT_TIMEOUT_MS": "5", "OM_LOGGING_LEVEL": "fatal"}))
	for i := 0; i < n/2; i++ {
		add()
		if rng.Intn(10) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	fmu.Lock()
	on = false
	nf := faults
	fmu.Unlock()
	o.Barrier()
	_, active, assigned := lib.Fold(lib.DecodeAll(0, s.Entries(0)))
	vis := o.QueryTag("c16")
	for _, id := range ids {
		if (vis[id] != nil) != active[id] {
			r.Violate("the pools differ from the stored updates", map[string]any{"ticket": id, "active_by_log": active[id], "in_pool": vis[id] != nil, "read_faults": nf, "poll_size": count})
		}
		r.Eval(true, "sys", round, id)
	}
	var ws []string
	for id := range assigned {
		ws = append(ws, id)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	res := watch(ctx, o.C, ws, nil)
	for id, v := range assigned {
		a := &pb.Assignment{}
		proto.Unmarshal(v, a)
		if res.err != io.EOF || len(res.got[id]) != 1 || lib.Det(res.got[id][0]) != lib.Det(a) {
			r.Violate("the assignments differ from the stored updates", map[string]any{"ticket": id, "end": fmt.Sprint(res.err), "got": fmt.Sprint(res.got[id]), "stored": a.String(), "read_faults": nf, "poll_size": count})
		}
	}
	r.Count("system_read_faults", nf)
	r.Count("assignments_compared", len(ws))
	o.Stop()
}
