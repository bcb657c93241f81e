From 0435c70cf28d702445d9e544cadc3ad63512968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/21] fix: filtering a ticket without attributes must not
 panic

---
 core/internal/filter/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..83496d6 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -86,7 +86,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -113,7 +113,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 	}
 
 	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
-- 
2.43.0


From 89c6ce75a443cc44a2b5dc7bbcd7a38574c964aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 02/21] fix: match redis replies to the updates that were
 actually sent

Updates failing validation are not sent, so the replies to the others were
attributed to the wrong updates; and updates for which no reply could be read
were reported as successful with an empty id.
---
 core/internal/statestore/redis/redis.go | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..b90d39e 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -108,10 +108,12 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	rConn := rr.wConnPool.Get()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
+	// Indices of the updates that pass validation and so get a reply from redis.
+	sent := make([]int, 0, len(updates))
 
 	// Process all the requested redis commands
 	for i, update := range updates {
-		out[i] = &store.StateResponse{Result: "", Err: nil}
+		out[i] = &store.StateResponse{Result: update.Key, Err: nil}
 		redisArgs := make([]interface{}, 0)
 		redisArgs = append(redisArgs, "om-replication", "*")
 		switch update.Cmd {
@@ -170,6 +172,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		// TrimPrefix/Suffix calls when logging the command.
 		logger.Debugf("Executing redis command: %v %v", redisCmd,
 			strings.TrimPrefix(strings.TrimSuffix(fmt.Sprint(redisArgs), "]"), "["))
+		sent = append(sent, i)
 		err = rConn.Send(redisCmd, redisArgs...)
 		if err != nil {
 			logger.Errorf("Redis error: %v", err)
@@ -188,27 +191,24 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	r, err := rConn.Do("")
 	if err != nil {
 		logger.Errorf("Do error: %v", err)
+		// No replies could be read, so none of these updates are known to have been stored.
+		for _, index := range sent {
+			out[index].Err = fmt.Errorf("Redis error: %w", err)
+		}
 	}
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
 	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
-			// First, make sure this was a valid update
-			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
-				if err != nil {
-					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
-				}
-				out[index].Result = t
-				fmt.Printf(" %v - found string: %v\n", index, t)
-			} else {
-				// Error, the update didn't have all the required fields so it was never sent to redis.
-				// Return the error code, and the result is the key that generated the error.
-				fmt.Printf(" %v - had error\n", index)
-				out[index].Result = updates[index].Key
+		for replyIndex, index := range sent {
+			// Updates without all the required fields were never sent to redis, so replies only exist for the sent ones.
+			// If there's an error, the result remains the key that generated the error.
+			t, err := redis.String(r.([]interface{})[replyIndex], err)
+			if err != nil {
+				out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
+				continue
 			}
+			out[index].Result = t
 		}
 
 		// Last result from redis is a count of number of entries we removed with the XTRIM command.
-- 
2.43.0


From 5a5b9d77c14ee9702bd7bc63ae040ea16679c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/21] fix: return redis connections to their pool

---
 core/internal/statestore/redis/redis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index b90d39e..157c48c 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 	// Indices of the updates that pass validation and so get a reply from redis.
@@ -252,6 +253,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From a2ca10989deaf6c47e59180d6e0829c1f8625a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 04/21] fix: anchor the replication id validation regex

---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..6e728d3 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 157c48c..0e072ab 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -314,5 +314,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 941a44c551e320b45bda308c4d0cd6ba466b50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 05/21] fix: use milliseconds for replication ids wherever
 ticket ages are computed

Redis stream ids start with a unix time in milliseconds, but trimming, expiring
inactive tickets and assignments, and the assignment watch deadline treated it
as seconds, so none of them ever happened. The in-memory replicator generates
its ids in milliseconds too, now (and keeps them increasing if the clock steps
back).
---
 .../internal/statestore/cache/replicatedticketcache.go | 10 +++++-----
 core/internal/statestore/memory/main.go                |  4 ++--
 core/internal/statestore/redis/redis.go                |  4 ++--
 core/main.go                                           |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..3fb2159 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -256,8 +256,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
+		// <unix_timestamp_ms>-<index> where the index increments every time a
+		// ticket is created during the same millisecond. We are only
 		// interested in the ticket creation time (the unix timestamp) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
@@ -296,7 +296,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS"))*1000 {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +329,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"))*1000 {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 6e728d3..bd21ba7 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,12 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	if time.Now().UnixMilli() <= rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 0e072ab..9bb3c81 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -180,8 +180,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		}
 	}
 
-	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	// Append command to remove expired entries. Redis stream IDs start with a unix timestamp in milliseconds.
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS")*1000, 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
diff --git a/core/main.go b/core/main.go
index f603ef2..09daf7f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -842,7 +842,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From 830d476f3134c90143f22d640af2f842707973b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 06/21] fix: limit the time spent applying updates before
 expiring tickets

The timer was restarted for every update, so expiration never ran while
updates kept arriving.
---
 core/internal/statestore/cache/replicatedticketcache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 3fb2159..b02c4b5 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -160,11 +160,11 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		time.Sleep(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")))
 		done := false
 
-		for !done {
-			// Maximum length of time we can process updates access to the
-			// ticket cache is locked during updates, so we need a hard limit here.
-			updateTimeout := time.After(time.Millisecond * 500)
+		// Maximum length of time we can process updates access to the
+		// ticket cache is locked during updates, so we need a hard limit here.
+		updateTimeout := time.After(time.Millisecond * 500)
 
+		for !done {
 			// Process all incoming updates (up to the maximum defined in the
 			// config var OM_CACHE_IN_WAIT_TIMEOUT_MS), up until there
 			// are none left or the lock timeout is reached.
-- 
2.43.0


From b32a14d10b3883afc7bf5b4b0249f6e62f98646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 07/21] fix: data race between expiration and metrics
 collection

---
 core/internal/statestore/cache/metrics.go               | 8 +++++---
 core/internal/statestore/cache/replicatedticketcache.go | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/internal/statestore/cache/metrics.go b/core/internal/statestore/cache/metrics.go
index df199cc..80eb566 100644
--- a/core/internal/statestore/cache/metrics.go
+++ b/core/internal/statestore/cache/metrics.go
@@ -18,6 +18,7 @@ import (
 	"log"
 	_ "net/http"
 	_ "net/http/pprof"
+	"sync/atomic"
 
 	otelmetrics "go.opentelemetry.io/otel/metric"
 )
@@ -95,9 +96,10 @@ func RegisterMetrics(meterPointer *otelmetrics.Meter) {
 	if _, err := meter.RegisterCallback(
 		func(ctx context.Context, o otelmetrics.Observer) error {
 			// TODO
-			o.ObserveInt64(ActiveTickets, TicketCount-InactiveCount)
-			o.ObserveInt64(InactiveTickets, InactiveCount)
-			o.ObserveInt64(Assignments, AssignmentCount)
+			inactiveCount := atomic.LoadInt64(&InactiveCount)
+			o.ObserveInt64(ActiveTickets, atomic.LoadInt64(&TicketCount)-inactiveCount)
+			o.ObserveInt64(InactiveTickets, inactiveCount)
+			o.ObserveInt64(Assignments, atomic.LoadInt64(&AssignmentCount))
 			return nil
 		},
 		ActiveTickets, InactiveTickets, Assignments,
diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index b02c4b5..4efe94c 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -338,9 +339,9 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			})
 
 			// Log results and record metrics
-			AssignmentCount = numAssignments
-			TicketCount = numTickets
-			InactiveCount = numInactive
+			atomic.StoreInt64(&AssignmentCount, numAssignments)
+			atomic.StoreInt64(&TicketCount, numTickets)
+			atomic.StoreInt64(&InactiveCount, numInactive)
 
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
 
-- 
2.43.0


From e7f7e85203738bb7a4d86eba8424055e8cd1c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 08/21] fix: tickets created while an invocation takes its
 snapshot are not active

---
 core/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 09daf7f..b3744b4 100644
--- a/core/main.go
+++ b/core/main.go
@@ -951,7 +951,11 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
 		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+			// Tickets may have been added (initially inactive) since the
+			// snapshot of the inactive set was taken, so check again.
+			if _, ok := inactiveSet.Load(id); !ok {
+				activeTickets = append(activeTickets, ticket)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From d27cf98942c2cfe5ec0948f97f4eac5576f5d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 09/21] fix: send every match before ending the invocation
 stream

The handler did not wait for the goroutine that sends matches, so the last
match could be lost.
---
 core/main.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/core/main.go b/core/main.go
index b3744b4..6f08584 100644
--- a/core/main.go
+++ b/core/main.go
@@ -479,24 +479,19 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 	// Channel on which MMFs return their matches.
 	matchChan := make(chan *pb.Match)
-	// Channel that receives a bool flag when all MMFs have closed their streams.
+	// Channel that is closed when all matches have been streamed back.
 	waitChan := make(chan bool)
 	var mmfwg sync.WaitGroup
 	go func() {
+		defer close(waitChan)
 		logger.Debug("MMF results fan-in goroutine active")
-		for {
-			select {
-			case match := <-matchChan:
-				logger.WithFields(logrus.Fields{
-					"match_id": match.GetId(),
-				}).Debug("streaming back match")
-				stream.Send(&pb.StreamedMmfResponse{Match: match})
-			case <-waitChan:
-				logger.Debug("ALL MMFS COMPLETE")
-				close(matchChan)
-				return
-			}
+		for match := range matchChan {
+			logger.WithFields(logrus.Fields{
+				"match_id": match.GetId(),
+			}).Debug("streaming back match")
+			stream.Send(&pb.StreamedMmfResponse{Match: match})
 		}
+		logger.Debug("ALL MMFS COMPLETE")
 	}()
 
 	// Set up grpc dial options for all MMFs
@@ -718,8 +713,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	// https://stackoverflow.com/questions/71246253/handle-goroutine-termination-and-error-handling-via-error-group
 	// Wait for all mmfs to complete.
 	mmfwg.Wait()
-	logger.Debugf("MMF waitgroup done; closing waitchan")
-	close(waitChan)
+	logger.Debugf("MMF waitgroup done; closing matchChan")
+	close(matchChan)
+	// The stream ends when this function returns, so every match must have
+	// been sent by then.
+	<-waitChan
 	return nil
 }
 
-- 
2.43.0


From 1fd9dfd1c366ceeadb96cdb19044b622197d4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 10/21] fix: process the matches received before an mmf error

Returning without waiting for them made their goroutines send on a closed
channel (crashing the server) or lose the match. They also raced on err.
---
 core/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 6f08584..0a45b01 100644
--- a/core/main.go
+++ b/core/main.go
@@ -577,6 +577,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// However this function ends, matches already received have to
+				// be processed first: their goroutines use the match channel.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
@@ -633,7 +636,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						logger.Debugf("deactivating tickets in %v", res.GetId())
 						errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
 						if len(errs) > 0 {
-							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), err)
+							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), errs)
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-- 
2.43.0


From 62366db3df7bde5b424e543e36f15fa598b4d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 11/21] fix: count exactly the matches received from each mmf

The counter was one too high per mmf call, and left out the matches received
before an error.
---
 core/main.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/core/main.go b/core/main.go
index 0a45b01..5241431 100644
--- a/core/main.go
+++ b/core/main.go
@@ -581,11 +581,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// be processed first: their goroutines use the match channel.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
-				// loop reads streaming match responses from the mmf and runs
-				// until a break statement is encountered.
-				var i int64
-				for i = 1; true; i++ {
+				// This loop reads streaming match responses from the mmf and
+				// runs until a break statement is encountered.
+				for {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -600,6 +598,14 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						return status.Error(codes.Internal, fmt.Errorf("Unable to invoke MMF '%v' at %v: %w", mmf.GetName(), mmfHost, err).Error())
 					}
 
+					// TODO decide if we want to track profile names as attributes
+					// as well as mmf names. Profile names are user input, so we'd
+					// have to limit cardinality somehow. Really we should address
+					// the possiblity of too many mmf names causing cardinality
+					// problems too, but it's a relatively low-risk assumption that
+					// the user will only deploy a few different mmfs.
+					Matches.Add(ctx, 1, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+
 					// deactivate tickets & send match back to the matchmaker
 					// asynchronously as streamed match results continue to be
 					// processed.
@@ -689,14 +695,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 				} // End of match stream receiving loop
 
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
 				// Wait for all match ticket deactivation goroutines to complete.
 				tdwg.Wait()
 			}
-- 
2.43.0


From ea21a748134b5e5213bf1cc7aa26193becdc3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 12/21] fix: wait until the tickets of a match are really
 deactivated

The check ran once, after 100ms, so with the default replication delay the
tickets were still in the pools when the match was returned (deactivation
wait on) or the invocation ended (off); and it crashed the server for a match
without tickets. Wait for the last deactivation to be applied locally, by its
replication id.
---
 .../statestore/cache/replicatedticketcache.go | 21 ++++++++
 core/internal/statestore/datatypes/store.go   |  3 ++
 core/internal/statestore/memory/main.go       |  1 +
 core/internal/statestore/redis/redis.go       |  2 +-
 core/main.go                                  | 54 +++++++++++--------
 5 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 4efe94c..078b4e8 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -56,6 +56,9 @@ type ReplicatedTicketCache struct {
 	InactiveSet sync.Map
 	Assignments sync.Map
 
+	// Replication id (a string) of the last update applied to the local state data.
+	lastReplId atomic.Value
+
 	// How this replicatedTicketCache is replicated.
 	Replicator store.StateReplicator
 	// The queue of cache updates
@@ -127,6 +130,23 @@ func (tc *ReplicatedTicketCache) OutgoingReplicationQueue(ctx context.Context) {
 	}
 }
 
+// Applied returns true once the update with the given replication id has been
+// applied to the local copy of the state data.
+func (tc *ReplicatedTicketCache) Applied(replId string) bool {
+	last, _ := tc.lastReplId.Load().(string)
+	lastTime, lastSeq := splitReplId(last)
+	reqTime, reqSeq := splitReplId(replId)
+	return lastTime > reqTime || (lastTime == reqTime && lastSeq >= reqSeq)
+}
+
+// splitReplId returns the two numbers a replication id is made of.
+func splitReplId(replId string) (unixTime, sequence int64) {
+	timePart, seqPart, _ := strings.Cut(replId, "-")
+	unixTime, _ = strconv.ParseInt(timePart, 10, 64)
+	sequence, _ = strconv.ParseInt(seqPart, 10, 64)
+	return
+}
+
 // incomingReplicationQueue is an asynchronous goroutine that runs for the
 // lifetime of the server. It reads all incoming replication events from the
 // configured state storage and applies them to the local ticket cache.  In
@@ -217,6 +237,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					tc.Assignments.Store(curUpdate.Key, assignmentPb)
 					logger.Debugf("**DEPRECATED** assign replication received %v:%v", curUpdate.Key, assignmentPb.GetConnection())
 				}
+				tc.lastReplId.Store(curUpdate.ReplId)
 			case <-updateTimeout:
 				// Lock hold timeout exceeded
 				logger.Debug("lock hold timeout")
diff --git a/core/internal/statestore/datatypes/store.go b/core/internal/statestore/datatypes/store.go
index 58dbfdc..f07b66a 100644
--- a/core/internal/statestore/datatypes/store.go
+++ b/core/internal/statestore/datatypes/store.go
@@ -14,6 +14,9 @@ type StateUpdate struct {
 	Cmd   int    // The operation this update contains
 	Key   string // The key to update
 	Value string // The value to associate with this key (if applicable)
+	// The replication id the state storage assigned to this update; only set
+	// on updates received from state storage.
+	ReplId string
 }
 
 // Results of changes to the state of the cache. State replication batches
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index bd21ba7..c4d061c 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -85,6 +85,7 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 		if up.Cmd == store.Ticket {
 			up.Key = replId
 		}
+		up.ReplId = replId
 		rc.replChan <- up
 		out = append(out, &store.StateResponse{Result: replId, Err: nil})
 	}
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 9bb3c81..5628a54 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -274,7 +274,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 				if err != nil {
 					logger.Error(err)
 				}
-				thisUpdate := &store.StateUpdate{}
+				thisUpdate := &store.StateUpdate{ReplId: replId}
 				//fmt.Println(replId)
 
 				// Update type/key/value data
diff --git a/core/main.go b/core/main.go
index 5241431..94ff7cf 100644
--- a/core/main.go
+++ b/core/main.go
@@ -227,13 +227,13 @@ func (s *grpcServer) CreateTicket(parentCtx context.Context, req *pb.CreateTicke
 //
 // NOTE This function does no input validation, that responsibility falls on the
 // calling function.
-func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, command int) map[string]error {
+func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, command int) (lastReplId string, errs map[string]error) {
 	logger := logger.WithFields(logrus.Fields{
 		"stage": "handling",
 		"rpc":   "updateTicketsActiveState",
 	})
 
-	errs := map[string]error{}
+	errs = map[string]error{}
 
 	rChan := make(chan *store.StateResponse, len(ticketIds))
 	defer close(rChan)
@@ -278,9 +278,11 @@ func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, com
 			// The results.result field contains the ticket id that generated the error.
 			errs[results.Result] = fmt.Errorf("Unable to update ticket %v state to %v : %w", ticketIds[i], requestedStateAsString, results.Err)
 			logger.Error(errs[results.Result])
+		} else {
+			lastReplId = results.Result
 		}
 	}
-	return errs
+	return lastReplId, errs
 }
 
 // ActivateTickets accepts a list of ticketids to activate, validates the
@@ -306,7 +308,7 @@ func (s *grpcServer) ActivateTickets(parentCtx context.Context, req *pb.Activate
 	// Send the ticket activation updates. Returns the last Replication ID of
 	// the batch. Can be used to determine if all of these activations have
 	// been applied to a given om-core instance.
-	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
+	_, errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
 
 	// Add activation failures to the error details
 	_ = invalidTicketIds
@@ -340,7 +342,7 @@ func (s *grpcServer) DeactivateTickets(parentCtx context.Context, req *pb.Deacti
 	// Send the ticket deactivation updates. Returns the last Replication ID of
 	// the batch. Can be used to determine if all of these activations have
 	// been applied to a given om-core instance.
-	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
+	_, errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
 
 	// Add deactivation failures to the error details
 	_ = invalidTicketIds
@@ -640,32 +642,38 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 						// Kick off deactivation
 						logger.Debugf("deactivating tickets in %v", res.GetId())
-						errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
+						lastReplId, errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
 						if len(errs) > 0 {
 							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), errs)
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-						// Function to check if deactivation of the last ticket
-						// in this match's rosters has been replicated to the
-						// local cache
-						deactivationCheck := func(ticketId string) {
+						// Function to wait until the last deactivation of the
+						// tickets in this match's rosters has been replicated
+						// to the local cache
+						deactivationCheck := func(replId string) {
+							// Nothing was deactivated (e.g. a match without tickets).
+							if replId == "" {
+								return
+							}
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+							for {
+								select {
+								case <-timeout:
+									// Log the timeout and continue.
+									logger.Errorf("Timeout while waiting for deactivation %v to be replicated to local cache", replId)
 									return
+								default:
+									// There is always /some/ replication delay,
+									// sleep first
+									time.Sleep(100 * time.Millisecond)
+									if tc.Applied(replId) {
+										logger.Debugf("deactivation %v replicated to local cache", replId)
+										return
+									}
 								}
 							}
 						}
@@ -673,7 +681,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(lastReplId)
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -687,7 +695,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(lastReplId)
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From ac0b965dc57b2a23dc932bdd2e5b60cc7976abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 13/21] fix: send the callers pools complete with name, filters
 and extensions

---
 core/main.go | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/core/main.go b/core/main.go
index 94ff7cf..0aded77 100644
--- a/core/main.go
+++ b/core/main.go
@@ -415,8 +415,36 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	// 1000 instead of 1024 for a little extra headroom, we're not trying to hyper-optimize here
 	// Every chunk contains the entire profile, and a portion of the tickets in that profile's pools.
 	maxPbSize := 4 * 1000 * 1000
+	// newChunk makes a request containing the entire profile as the caller
+	// sent it (without invalid pools), and the given participants of its pools.
+	newChunk := func(participants map[string][]*pb.Ticket, numChunks int32) *pb.ChunkedMmfRunRequest {
+		pools := make(map[string]*pb.Pool, len(validPools))
+		for name := range validPools {
+			pool := req.GetProfile().GetPools()[name]
+			pools[name] = &pb.Pool{
+				Participants: &pb.Roster{
+					Name:    name + "_roster",
+					Tickets: participants[name],
+				},
+				TagPresentFilters:       pool.GetTagPresentFilters(),
+				StringEqualsFilters:     pool.GetStringEqualsFilters(),
+				DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+				CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+				Extensions:              pool.GetExtensions(),
+				Name:                    pool.GetName(),
+			}
+		}
+		return &pb.ChunkedMmfRunRequest{
+			Profile: &pb.Profile{
+				Name:       req.GetProfile().GetName(),
+				Pools:      pools,
+				Extensions: req.GetProfile().GetExtensions(),
+			},
+			NumChunks: numChunks,
+		}
+	}
 	// Figure out how big the message is with the profile populated, but all pools empty
-	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	emptyChunkSize := proto.Size(newChunk(nil, math.MaxInt32))
 	curChunkSize := emptyChunkSize
 
 	// Array of 'chunks', each consisting of a portion of the pools in this profile.
@@ -453,24 +481,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	chunkedRequest := make([]*pb.ChunkedMmfRunRequest, len(chunkedPools))
 	for chunkIndex, chunk := range chunkedPools {
 		// Fill this request 'chunk' with the chunked pools we built above
-		pools := make(map[string]*pb.Pool)
-		profile := &pb.Profile{
-			Name:       req.GetProfile().GetName(),
-			Pools:      pools,
-			Extensions: req.GetProfile().GetExtensions(),
-		}
-		for name, participantRoster := range chunk {
-			profile.GetPools()[name] = &pb.Pool{
-				Participants: &pb.Roster{
-					Name:    name + "_roster",
-					Tickets: participantRoster,
-				},
-			}
-		}
-		chunkedRequest[chunkIndex] = &pb.ChunkedMmfRunRequest{
-			Profile:   profile,
-			NumChunks: int32(len(chunkedPools)),
-		}
+		chunkedRequest[chunkIndex] = newChunk(chunk, int32(len(chunkedPools)))
 	}
 
 	// MMF Result fan-in goroutine
-- 
2.43.0


From a8b03006eb4c45e6f663aadbd293f67d9bf07faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/21] fix: account for the field overhead of tickets when
 chunking mmf requests

---
 core/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 0aded77..4581979 100644
--- a/core/main.go
+++ b/core/main.go
@@ -37,6 +37,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/credentials/insecure"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/encoding/protowire"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -457,7 +458,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		for name, _ := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Size of this ticket as an element of the repeated tickets
+				// field of a roster: field tag, length, and contents.
+				ticketSize := 1 + protowire.SizeBytes(proto.Size(ticket.(*pb.Ticket)))
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
-- 
2.43.0


From 7ae2b58701b460eac65da114f8175b04f039dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 15/21] fix: report failed assignments to the caller

---
 core/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 4581979..dc35d4b 100644
--- a/core/main.go
+++ b/core/main.go
@@ -802,7 +802,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 
 		if results.Err != nil {
 			// Wrap redis error and give it a gRPC internal server error status code
-			err = status.Error(codes.Internal, fmt.Errorf("Unable to delete ticket: %w", results.Err).Error())
+			err = status.Error(codes.Internal, fmt.Errorf("Unable to assign ticket: %w", results.Err).Error())
 			logger.Error(err)
 		}
 	}
@@ -812,7 +812,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 4f4d8bf62b6b57d47d12f93007dfdf4ef9cc3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 16/21] fix: enforce the maximum number of updates per call for
 assignments

---
 core/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/main.go b/core/main.go
index dc35d4b..2c22e1a 100644
--- a/core/main.go
+++ b/core/main.go
@@ -761,6 +761,12 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {
 		return nil, status.Error(codes.InvalidArgument, "roster with assignment is required")
 	}
+	numReqUpdates := len(req.GetAssignmentRoster().GetTickets())
+	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
+		errMsg := fmt.Sprintf("Too many assignments requested in a single call (configured maximum %v, requested %v)",
+			cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"), numReqUpdates)
+		return nil, status.Error(codes.InvalidArgument, errMsg)
+	}
 	assignmentPb, err := proto.Marshal(req.GetAssignmentRoster().GetAssignment())
 	if assignmentPb == nil || err != nil {
 		err = errors.Wrap(err, "failed to marshal the assignment protobuf")
-- 
2.43.0


From 33334b8055fd4f40fb0b42d1520ca16ffb5741cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 17/21] fix: end assignment watches without leaving goroutines
 behind

---
 core/main.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/core/main.go b/core/main.go
index 2c22e1a..a9ea2d9 100644
--- a/core/main.go
+++ b/core/main.go
@@ -840,7 +840,10 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+
+	// Ends the goroutines of this watch when it returns, whatever the reason.
+	ctx, cancel := context.WithCancel(stream.Context())
+	defer cancel()
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -852,15 +855,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-ctx.Done():
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-ctx.Done():
+					return
+				}
 			}
 		}(id)
 
@@ -876,7 +886,10 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			newestTicketCtime = ticketCtime
 		}
 	}
-	AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())))
+	numWatches := int64(len(req.GetTicketIds()))
+	AssignmentWatches.Add(context.Background(), numWatches)
+	// Watches which are still outstanding when this function returns end too.
+	defer func() { AssignmentWatches.Add(context.Background(), -numWatches) }()
 
 	// loop once per result we want to get.
 	// Exit when we've gotten all results or timeout is reached.
@@ -884,14 +897,17 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// time to wait from it's creation time + configured TTL
 	// This is a very naive implementation. This functionality is deprecated.
 	timeout := time.After(time.Until(newestTicketCtime.Add(time.Second * time.Duration(cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")))))
-	for i, _ := range req.GetTicketIds() {
+	for range req.GetTicketIds() {
 		select {
 		case thisAssignment := <-updateChan:
 			AssignmentWatches.Add(context.Background(), -1)
+			numWatches--
 			stream.Send(thisAssignment)
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
 			return nil
+		case <-ctx.Done():
+			// The client went away.
+			return status.FromContextError(ctx.Err()).Err()
 		}
 	}
 
-- 
2.43.0


From 5deef6e835b330fc43d02143b9d0896bbe256c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 18/21] fix: concatenate pools whose first chunk has no
 participants

---
 mmf/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..bfc2226 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -92,6 +92,10 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 					Extensions:              pool.GetExtensions(),
 					Participants:            pool.GetParticipants(),
 				}
+				if pools[name].Participants == nil {
+					// Later chunks may still add participants.
+					pools[name].Participants = &pb.Roster{}
+				}
 			} else {
 				// concate pools split amoung multiple chunks
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
-- 
2.43.0


From 750225791b009d40449b7064795ac8a6b1e0af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 19/21] fix: wait for all activation calls of the example
 matchmaker

---
 matchmaker-example/main.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..53e9c05 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,7 +415,10 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			activationWg.Add(1)
 			go func(ticketsAwaitingActivation []string) {
+				// Track this goroutine
+				defer activationWg.Done()
 
 				// Quick in-line function to grab information
 				// the calling function put into the context when
@@ -429,10 +432,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
-				defer activationWg.Done()
-
 				// Activate tickets
 				reqPb := &pb.ActivateTicketsRequest{TicketIds: ticketsAwaitingActivation}
 				var resPb *pb.ActivateTicketsResponse
-- 
2.43.0


From 8c9587f678ccae232612f7dd3b2fe4151e28de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 20/21] fix: re-activate any number of rejected tickets in the
 example matchmaker

---
 matchmaker-example/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 53e9c05..f73bb64 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -186,7 +186,6 @@ func main() {
 
 	// Main Matchmaking Loop
 	emptyCycles := 0
-	ticketIdsToActivate := make(chan string, 10000)
 	// Loop for the configured number of cycles
 	for i := *mmCycles; i > 0; i-- {
 		rejectedMatches := []*pb.Match{}
@@ -359,12 +358,19 @@ func main() {
 
 			// re-activate tickets from rejected matches
 			numRejectedTickets := 0
+			for _, match := range rejectedMatches {
+				for _, roster := range match.GetRosters() {
+					numRejectedTickets += len(roster.GetTickets())
+				}
+			}
+			// The queue is only drained after all tickets are queued, so it
+			// needs room for every one of them.
+			ticketIdsToActivate := make(chan string, numRejectedTickets)
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
 						// queue this ticket ID to be re-activated
 						ticketIdsToActivate <- ticket.GetId()
-						numRejectedTickets++
 					}
 				}
 			}
-- 
2.43.0


From cf1ebfb9df48934d9ce1a3436244dee9eb1db14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:21 +0000
Subject: [PATCH 21/21] fix: tickets that expire while an invocation takes its
 snapshot are not active

---
 core/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index a9ea2d9..6deeb7b 100644
--- a/core/main.go
+++ b/core/main.go
@@ -997,7 +997,11 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 			// Tickets may have been added (initially inactive) since the
 			// snapshot of the inactive set was taken, so check again.
 			if _, ok := inactiveSet.Load(id); !ok {
-				activeTickets = append(activeTickets, ticket)
+				// When a ticket expires it is removed before it leaves the
+				// inactive set, so only one that still exists was active.
+				if _, ok := tix.Load(id); ok {
+					activeTickets = append(activeTickets, ticket)
+				}
 			}
 		}
 		return true
-- 
2.43.0

