package lib

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

// Noise keeps clients busy around the given tickets with everything that has no say in whether a ticket is active, and
// that no other request may suffer from: assignments, watches that come and go, short-lived other tickets, refused calls
// of every kind, invocations of nothing. The returned function ends it.
func (o *OM) Noise(rng *rand.Rand, pause time.Duration, ids []string) func() {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	ctx, cancelAll := context.WithCancel(context.Background())
	wg.Add(1)
	n := 0
	go func() {
		defer wg.Done()
		for ; ; n++ {
			select {
			case <-stop:
				return
			case <-time.After(pause/2 + time.Duration(rng.Int63n(int64(pause)))):
			}
			var ts []*pb.Ticket
			for k := 1 + rng.Intn(8); k > 0 && len(ids) > 0; k-- {
				ts = append(ts, &pb.Ticket{Id: ids[rng.Intn(len(ids))]})
			}
			c, cancel := context.WithTimeout(ctx, 20*time.Second)
			switch rng.Intn(10) {
			case 0, 1, 2:
				if len(ts) > 0 {
					o.C.CreateAssignments(c, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: fmt.Sprint("noise:", n)}, Tickets: ts}})
				}
			case 3:
				w := &pb.WatchAssignmentsRequest{}
				for _, t := range ts {
					w.TicketIds = append(w.TicketIds, t.Id)
				}
				wc, wcancel := context.WithTimeout(ctx, time.Duration(50+rng.Intn(900))*time.Millisecond)
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer wcancel()
					st, err := o.C.WatchAssignments(wc, w)
					for err == nil {
						_, err = st.Recv()
					}
				}()
			case 4:
				bad := []string{"", "no id", "1-", "x-1"}
				if rng.Intn(2) == 0 {
					o.C.ActivateTickets(c, &pb.ActivateTicketsRequest{TicketIds: bad})
				} else {
					o.C.DeactivateTickets(c, &pb.DeactivateTicketsRequest{TicketIds: bad})
				}
			case 5:
				switch rng.Intn(4) {
				case 0:
					o.C.CreateTicket(c, &pb.CreateTicketRequest{})
				case 1:
					o.C.CreateAssignments(c, &pb.CreateAssignmentsRequest{})
				case 2:
					o.C.CreateTicket(c, &pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: InvalidTime(rng)}})
				case 3:
					o.C.ActivateTickets(c, &pb.ActivateTicketsRequest{})
				}
			case 6:
				req := &pb.MmfRequest{}
				if rng.Intn(2) == 0 {
					req.Profile = &pb.Profile{Name: "noise", Pools: map[string]*pb.Pool{"p": TagPool("zz-noise")}}
				}
				if st, err := o.C.InvokeMatchmakingFunctions(c, req); err == nil {
					for err == nil {
						_, err = st.Recv()
					}
				}
			case 8: // a caller that goes away
				c2, cancel2 := context.WithTimeout(ctx, time.Duration(rng.Int63n(int64(4*time.Millisecond))))
				if rng.Intn(2) == 0 || len(ts) == 0 {
					o.C.CreateTicket(c2, &pb.CreateTicketRequest{Ticket: TagTicket("zz-noise")})
				} else {
					o.C.CreateAssignments(c2, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "gone"}, Tickets: ts}})
				}
				cancel2()
			case 9: // assignments that cannot be stored
				o.C.CreateAssignments(c, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{}, Tickets: ts}})
			case 7:
				t := TagTicket("zz-noise")
				if rng.Intn(2) == 0 {
					t.ExpirationTime = timestamppb.New(time.Now().Add(time.Duration(200+rng.Intn(2500)) * time.Millisecond))
				}
				if resp, err := o.C.CreateTicket(c, &pb.CreateTicketRequest{Ticket: t}); err == nil && rng.Intn(2) == 0 {
					o.C.ActivateTickets(c, &pb.ActivateTicketsRequest{TicketIds: []string{resp.GetTicketId()}})
				}
			}
			cancel()
		}
	}()
	return func() {
		close(stop)
		cancelAll()
		wg.Wait()
		o.R.Count("bystander_calls", n)
	}
}
