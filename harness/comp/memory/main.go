// Drives the in-memory storage of om-core.
package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
	"verif.local/h/lib"
)

func main() {
	logrus.SetLevel(logrus.PanicLevel)
	lib.ChildMain(map[string]func(*lib.Run){"stream": stream, "race": race})
}

func gen(rng *rand.Rand, n int) store.StateUpdate {
	u := store.StateUpdate{Cmd: lib.Pick(rng, []int{store.Ticket, store.Activate, store.Deactivate, store.Assign})}
	if u.Cmd != store.Ticket {
		u.Key = fmt.Sprintf("%d-%d", 1700000000000+rng.Int63n(1000), rng.Intn(30))
		switch rng.Intn(10) {
		case 0: // of a clock that is ahead
			u.Key = fmt.Sprintf("%d-%d", time.Now().UnixMilli()+rng.Int63n(3600_000), rng.Intn(30))
		case 1:
			u.Key = lib.Pick(rng, []string{"9-9", "99999999999999-1", "0-0", "x", "x 1-1", "9223372036854775807-9"})
		}
	}
	if u.Cmd == store.Ticket || u.Cmd == store.Assign {
		u.Value = fmt.Sprintf("v%d;\x00\xff", n)
		switch rng.Intn(12) {
		case 0:
			u.Value += lib.Pick(rng, []string{"\x00", "\x00\x00", " ", "\r\n", "\t \n", "\xff\xfe", "", "é\x00"})
		case 1:
			u.Value = lib.Pick(rng, []string{"\x00", " ", "\n", "\ufeff"}) + u.Value
		case 2:
			u.Value = lib.Pick(rng, []string{"\x00", " ", "\n", "\n\x00", "-", "0"})
		case 3:
			if rng.Intn(40) == 0 {
				b := make([]byte, 1<<20+rng.Intn(3<<20))
				rng.Read(b)
				u.Value += string(b)
			}
		}
	}
	return u
}

// streamPaused: nobody reads for a long time.
func streamPaused(r *lib.Run) {
	c := viper.New()
	c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 20)
	rep := memoryReplicator.New(c)
	done := make(chan []*store.StateResponse, 1)
	const total = 3000
	go func() {
		var batch []*store.StateUpdate
		for i := 0; i < total; i++ {
			batch = append(batch, &store.StateUpdate{Cmd: store.Ticket, Value: fmt.Sprint(i)})
		}
		done <- rep.SendUpdates(batch)
	}()
	var got []*store.StateUpdate
	var res []*store.StateResponse
	for _, pause := range []int{r.N(26, 40), r.N(1, 25), 0} { // seconds without a reader
		time.Sleep(time.Duration(pause) * time.Second)
		got = append(got, rep.GetUpdates()...)
	}
	for end := time.Now().Add(60 * time.Second); res == nil && time.Now().Before(end); {
		got = append(got, rep.GetUpdates()...)
		select {
		case res = <-done:
		default:
		}
	}
	for idle := 0; idle < 3; {
		us := rep.GetUpdates()
		if got = append(got, us...); len(us) == 0 {
			idle++
		}
	}
	if len(res) != total || len(got) != total {
		r.Violate("an update is lost or read twice while nobody reads for a while", map[string]any{"submitted": total, "results": len(res), "read": len(got)})
	}
	for i, u := range got {
		if u.Value != fmt.Sprint(i) || u.Key != res[i].Result {
			r.Violate("an update comes back out of order, altered or under another id", map[string]any{"position": i, "read": fmt.Sprintf("%+v", *u), "id": res[i].Result})
		}
		sameId(r, u, res[i].Result)
	}
	r.Eval(true, "stream-paused")
	r.Count("updates_before_a_late_reader", total)
}

// sameId checks that an update that was read carries the id of its result:
// that is how an instance knows what it has applied.
func sameId(r *lib.Run, u *store.StateUpdate, result string) {
	if id, ok := lib.StringField(u, "ReplId"); ok && id != result {
		r.Violate("an update that was read carries another id than the one its submitter got", map[string]any{"result": result, "read": fmt.Sprintf("%+v", *u)})
	}
}

var form = regexp.MustCompile(`^\d+-\d+$`)

func parse(id string) (int64, int64) {
	a, b, _ := strings.Cut(id, "-")
	x, _ := strconv.ParseInt(a, 10, 64)
	y, _ := strconv.ParseInt(b, 10, 64)
	return x, y
}

func stream(r *lib.Run) {
	paused := make(chan bool)
	go func() {
		defer close(paused)
		streamPaused(r)
	}()
	defer func() { <-paused }()
	for round := 0; round < r.N(30, 300); round++ {
		rng := r.Rng(fmt.Sprint(round))
		c := viper.New()
		c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", lib.Pick(rng, []int{1, 5, 30}))
		c.Set("OM_CACHE_TICKET_TTL_SECS", 600)
		rep := memoryReplicator.New(c)
		if re, err := regexp.Compile(rep.GetReplIdValidationRegex()); err != nil {
			r.Violate("the id pattern is not a regular expression", err.Error())
		} else {
			for _, s := range []string{"", "x1-1", "1-1x", "1", "1-", "-1", "a-b", "1--1", "1-1\n", " 1-1", "1_1"} {
				if re.MatchString(s) {
					r.Violate("a malformed id is taken for a valid one", map[string]any{"id": s})
				}
			}
		}
		total := lib.Pick(rng, []int{50, 400, 6000})
		pause := lib.Pick(rng, []int{0, 1, 3})
		var sent []store.StateUpdate
		var ids []string
		done := make(chan bool)
		go func() {
			defer close(done)
			n := 0
			for n < total {
				k := lib.Pick(rng, []int{1, 1, 2, 9, 50, 1000})
				if n+k > total {
					k = total - n
				}
				batch := make([]*store.StateUpdate, k)
				for i := range batch {
					u := gen(rng, n+i)
					sent = append(sent, u)
					batch[i] = &u
				}
				t0 := time.Now().UnixMilli()
				res := rep.SendUpdates(batch)
				t1 := time.Now().UnixMilli()
				if len(res) != k {
					r.Violate("number of results differs from the number of updates", map[string]any{"updates": k, "results": len(res)})
				}
				for _, x := range res {
					if x == nil || x.Err != nil {
						r.Violate("an update to the memory storage fails", fmt.Sprint(x))
					}
					ms, seq := parse(x.Result)
					det := map[string]any{"id": x.Result, "clock_before_ms": t0, "clock_after_ms": t1}
					if !form.MatchString(x.Result) {
						r.Violate("an id does not have the documented form", det)
					}
					if ms > t1 || ms < t0-5000 { // a clock step back may leave it behind, never ahead of the clock
						r.Violate("the time in an id is not the time of the update in the unit ticket ages are computed in", det)
					}
					if len(ids) > 0 {
						pm, ps := parse(ids[len(ids)-1])
						if ms < pm || (ms == pm && seq <= ps) {
							det["previous"] = ids[len(ids)-1]
							r.Violate("ids do not increase in the order of submission", det)
						}
						if ms == pm {
							r.Count("ids_within_one_millisecond", 1)
						}
					}
					ids = append(ids, x.Result)
				}
				n += k
				if pause > 0 && rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(pause*1000)) * time.Microsecond)
				}
			}
		}()
		var got []store.StateUpdate
		idle := 0
		slow := rand.New(rand.NewSource(int64(round)))
		t0 := time.Now()
		for idle < 3 {
			us := rep.GetUpdates()
			for _, u := range us {
				if u == nil {
					r.Violate("an empty update is read", nil)
				}
				got = append(got, *u)
			}
			select {
			case <-done:
				if len(us) == 0 {
					idle++
				}
			default:
			}
			if slow.Intn(4) == 0 {
				time.Sleep(time.Duration(slow.Intn(3)) * time.Millisecond)
			}
			if time.Since(t0) > 60*time.Second {
				r.Violate("the memory storage does not make progress", map[string]any{"submitted": total, "read": len(got)})
			}
		}
		for i := range sent {
			if i >= len(got) {
				r.Violate("an update is lost", map[string]any{"position": i, "submitted": total, "read": len(got)})
			}
			want := sent[i].Key
			if sent[i].Cmd == store.Ticket {
				want = ids[i]
			}
			if got[i].Cmd != sent[i].Cmd || got[i].Key != want || got[i].Value != sent[i].Value {
				r.Violate("an update comes back out of order, altered or under another id", map[string]any{"position": i, "submitted": fmt.Sprintf("%+v", sent[i]), "id": ids[i], "read": fmt.Sprintf("%+v", got[i])})
			}
			sameId(r, &got[i], ids[i])
		}
		if len(got) > len(sent) {
			r.Violate("an update is read twice", fmt.Sprintf("%+v", got[len(sent)]))
		}
		r.Eval(true, "stream", round)
		r.Count("updates", total)
		if r.WantSample() {
			r.Sample(map[string]any{"updates": total, "first_id": ids[0], "last_id": ids[len(ids)-1]})
		}
	}
}

func race(r *lib.Run) {
	c := viper.New()
	c.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 5)
	rep := memoryReplicator.New(c)
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	n := 0
	go func() {
		defer wg.Done()
		for {
			n += len(rep.GetUpdates())
			select {
			case <-stop:
				return
			default:
			}
		}
	}()
	rng := r.Rng("race")
	total := r.N(20000, 200000)
	for i := 0; i < total; i += 10 {
		batch := []*store.StateUpdate{}
		for k := 0; k < 10; k++ {
			u := gen(rng, i)
			batch = append(batch, &u)
		}
		rep.SendUpdates(batch)
		rep.GetReplIdValidationRegex()
	}
	close(stop)
	wg.Wait()
	r.Eval(true, "race-memory")
	r.Count("race_updates_read", n)
}
