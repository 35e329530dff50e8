From 0c64cd11f6f7adc87839ebd5451f2739f2fb02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 01/43] fix: inserting into the middle of the request queue
 lost a queued work

---
 core/request_queue.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..8bfe694 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -50,12 +50,12 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		// Add this to the front of the queue
 		q.queue = append([]*types.WorkRequest{work}, q.queue...)
 	} else {
-		// Insert into the middle of the queue
-		first := q.queue[:position+1]
-		second := q.queue[position+1:]
-
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		// Insert into the middle of the queue. Build a new slice since appending to q.queue[:position+1]
+		// would overwrite the element right after the insert position.
+		queue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		queue = append(queue, q.queue[:position+1]...)
+		queue = append(queue, work)
+		q.queue = append(queue, q.queue[position+1:]...)
 	}
 
 	return true
-- 
2.43.0


From b2cc282059961fce5c251e844b9eb83d430ab15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 02/43] fix: evicting an old entry of the circular queue
 removed a newer entry of the same key

---
 tools/circular_queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..77806a3 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,10 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		oldest := q.queue[q.head%q.size]
+		if q.m[oldest.key] == oldest { // The same key could have been added again later.
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From 556862e1b891b88f8c519faf30a497c697d9225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 03/43] fix: popping cached messages copied the remaining
 messages of a sender to other senders

---
 core/cache/message_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..e8a091a 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,13 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		newList := make([]*commonTypes.TssMessage, 0)
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From a3f6cc7a25e15248ade196aacc61dab083127cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 04/43] fix: an availability response always said YES whatever
 the answer

---
 types/common/tss_message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..292f21d 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -47,7 +47,7 @@ func NewAvailabilityRequestMessage(from, to, workId string) *TssMessage {
 func NewAvailabilityResponseMessage(from, to, workId string, answer AvailabilityResponseMessage_ANSWER, maxJob int) *TssMessage {
 	msg := baseMessage(TssMessage_AVAILABILITY_RESPONSE, from, to, workId)
 	msg.AvailabilityResponseMessage = &AvailabilityResponseMessage{
-		Answer: AvailabilityResponseMessage_YES,
+		Answer: answer,
 		MaxJob: int32(maxJob),
 	}
 
-- 
2.43.0


From a9b8236e528f9f4c614e821fa945650b86490343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 05/43] fix: an empty message key was accepted as a key without
 any part

---
 types/common/tss_message.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 292f21d..07d8bd6 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,9 +115,6 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
 	keys := strings.Split(msgKey, "__")
 	if len(keys) < 4 {
 		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-- 
2.43.0


From 82aadea39c9a2160fab4f35ec143c941f9fe5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 06/43] fix: two protocol messages were attributed to a wrong
 round

---
 core/message/tss_phase_messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..c91caa0 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -47,7 +47,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *ecsigning.SignRound1Message1, *ecsigning.SignRound1Message2:
 		return EcSigning1, nil
 	case *ecsigning.SignRound2Message:
-		return EcSigning1, nil
+		return EcSigning2, nil
 	case *ecsigning.SignRound3Message:
 		return EcSigning3, nil
 	case *ecsigning.SignRound4Message:
@@ -63,7 +63,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *edkeygen.KGRound1Message:
 		return EdKeygen1, nil
 	case *edkeygen.KGRound2Message1, *edkeygen.KGRound2Message2:
-		return EcKeygen2, nil
+		return EdKeygen2, nil
 	case *edsigning.SignRound1Message:
 		return EdSigning1, nil
 	case *edsigning.SignRound2Message:
-- 
2.43.0


From 6d2175b6d6cc4c34e1ff470c447d27032ceaae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 07/43] fix: a leader that owns none of the selected presigns
 executed the work anyway

---
 worker/prework_selection.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..6e9af1c 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -289,10 +289,12 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 	log.Info("Leader: Broadcasting PreExecOutput to everyone...")
 	go s.dispatcher.BroadcastMessage(s.allParties, msg)
 
+	// The owners of the selected presigns do not necessarily include this leader.
 	s.broadcastResult(SelectionResult{
-		Success:      true,
-		SelectedPids: selectedPids,
-		PresignIds:   presignIds,
+		Success:        true,
+		IsNodeExcluded: helper.GetPidFromString(s.myPid.Id, selectedPids) == nil,
+		SelectedPids:   selectedPids,
+		PresignIds:     presignIds,
 	})
 }
 
-- 
2.43.0


From 7f9f1a0cc47241bf5115614f13ed12525e757e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 08/43] fix: a member accepted a selection result from a node
 that is not the leader

---
 worker/prework_selection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 6e9af1c..e955cac 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -305,7 +305,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.From == leader.Id {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -439,6 +439,11 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 			return fmt.Errorf("error when processing execution response %w", err)
 		}
 	case common.TssMessage_PRE_EXEC_OUTPUT:
+		// Only the leader decides who takes part in the work.
+		if tssMsg.From != s.leader.Id {
+			return fmt.Errorf("selection result from %s who is not the leader", tssMsg.From)
+		}
+
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
 		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
-- 
2.43.0


From 2bcfc34e125eb1575c593106b44cc39c968acdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 09/43] fix: a member accepted a selection that counts a party
 more than once

---
 worker/prework_selection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index e955cac..4ed11e3 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -412,11 +412,13 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || selected[pid] {
 			return false
 		}
+		selected[pid] = true
 	}
 
 	return true
-- 
2.43.0


From 7f9bd0eeb7d1ab70fab65f8136de36f12f2dfb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 10/43] fix: a member accepted a presign set that does not
 cover all the messages to sign

---
 worker/prework_selection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 4ed11e3..42568f5 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -371,7 +371,7 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
-				if err != nil || len(signingInput) == 0 {
+				if err != nil || len(msg.PresignIds) != s.request.BatchSize || len(signingInput) != s.request.BatchSize {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
 						Success: false,
-- 
2.43.0


From 0de36c507a477ceec6a60c4e15a724cfdb93003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 11/43] fix: a selection message that arrives after the outcome
 blocked its deliverer forever

---
 worker/prework_selection.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 42568f5..d788582 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 	"time"
 
 	enginecache "github.com/sisu-network/dheart/core/cache"
@@ -50,6 +51,8 @@ type PreworkSelection struct {
 	callback         func(SelectionResult)
 	preExecMsgCh     chan *common.PreExecOutputMessage
 	memberResponseCh chan *common.TssMessage
+	doneCh           chan struct{} // Closed when the outcome of this selection is known.
+	doneOnce         *sync.Once
 	cfg              config.TimeoutConfig
 
 	///////////////////////
@@ -80,6 +83,8 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		preExecMsgCh:     make(chan *commonTypes.PreExecOutputMessage, 1),
 		presignsManager:  presignsManager,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
+		doneCh:           make(chan struct{}),
+		doneOnce:         &sync.Once{},
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
 		cfg:              cfg,
@@ -426,6 +431,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
 	s.stopped.Store(true)
+	s.doneOnce.Do(func() { close(s.doneCh) })
 
 	s.callback(result)
 }
@@ -445,10 +451,18 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 		if tssMsg.From != s.leader.Id {
 			return fmt.Errorf("selection result from %s who is not the leader", tssMsg.From)
 		}
+		if s.myPid.Id == s.leader.Id {
+			// The leader decides itself and does not read the channel.
+			return errors.New("selection result sent to the leader")
+		}
 
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		case <-s.doneCh:
+			// The selection is over and nobody reads the channel.
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -477,8 +491,15 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	if s.myPid.Id != s.leader.Id {
+		// Only the leader reads the responses.
+		return fmt.Errorf("availability response from %s but this node is not the leader", tssMsg.From)
+	}
+
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.doneCh:
+		// The selection is over and nobody reads the channel.
+	}
 	return nil
 }
-- 
2.43.0


From f0f903cb682992d613bce9bd11a1743439bfd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 12/43] fix: losing a race for presigns left the presign store
 locked

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From 397c5f9016e269fd3fbd6ca995cce30f6bda57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 13/43] fix: a full signing could end without sending its last
 message

A signing without presign data sends eight kinds of messages, one more than a
presigning. The job considered its output complete after seven, and dropped
the eighth if the result was ready before it was picked up.
---
 worker/job.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/worker/job.go b/worker/job.go
index b95e382..7be55ea 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	hasMessage     bool
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.hasMessage = msgInt != nil
 
 	return job
 }
@@ -300,7 +302,13 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	expected := message.GetMessageCountByWorkType(job.jobType, job.hasPresignData)
+	if job.jobType == wTypes.EcSigning && !job.hasPresignData && job.hasMessage {
+		// A full signing has one round more than a presigning: the one that signs the message.
+		expected++
+	}
+
+	if count == expected {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From a7d2a41b1b797a5a378b39741999959660197499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 14/43] fix: a work whose input cannot be loaded crashed the
 node

An executor without pre-parameters, keygen output or presign data for all
messages dereferenced the missing data. It reports the work as failed now.
---
 worker/worker_executor.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..71d9da4 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -119,12 +119,13 @@ func NewWorkerExecutor(
 }
 
 func (w *WorkerExecutor) Init() (err error) {
-	if w.workType == wTypes.EcKeygen {
-		if w.request.EcKeygenInput == nil {
-			err = w.loadPreparams()
-		} else {
-			w.ecKeygenInput = w.request.EcKeygenInput
-		}
+	if err = w.loadInput(); err != nil {
+		// Without its input the work cannot run.
+		log.Error("Cannot load the input of the work, err = ", err)
+		w.broadcastResult(ExecutionResult{
+			Success: false,
+		})
+		return err
 	}
 
 	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
@@ -208,6 +209,32 @@ func (w *WorkerExecutor) Run(cachedMsgs []*commonTypes.TssMessage) {
 	}
 }
 
+// loadInput makes sure that all data the jobs start from are there.
+func (w *WorkerExecutor) loadInput() error {
+	switch w.workType {
+	case wTypes.EcKeygen:
+		if w.request.EcKeygenInput == nil {
+			return w.loadPreparams()
+		}
+		w.ecKeygenInput = w.request.EcKeygenInput
+
+	case wTypes.EcSigning:
+		if w.request.EcSigningInput == nil {
+			return errors.New("missing ecdsa keygen output")
+		}
+		if len(w.ecPresignOutput) < w.request.BatchSize {
+			return fmt.Errorf("missing presign data: %d of %d", len(w.ecPresignOutput), w.request.BatchSize)
+		}
+
+	case wTypes.EdSigning:
+		if w.request.EdSigningInput == nil {
+			return errors.New("missing eddsa keygen output")
+		}
+	}
+
+	return nil
+}
+
 func (w *WorkerExecutor) loadPreparams() error {
 	// Check if we have generated preparams
 	var err error
-- 
2.43.0


From 104d6199f6146ab12e1e164756987ec6750202a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 15/43] fix: concurrent requests could exceed the worker limit
 or replace a running worker

Counting the workers and adding the next one were two steps, and a work that
was requested again while running got a second worker in place of the first.
---
 core/engine.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..f5237e0 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -148,7 +148,7 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold workLock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +165,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +172,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -266,15 +262,22 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Counting the workers and adding a new one must be a single step. Otherwise, concurrent calls
+	// exceed the limit.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
+	for nextWork != nil && engine.workers[nextWork.WorkId] != nil {
+		// This work is running already, do not replace its worker.
+		log.Warn("Work is running already, work id = ", nextWork.WorkId)
+		nextWork = engine.requestQueue.Pop()
+	}
 
 	if nextWork == nil {
 		return
-- 
2.43.0


From b40b2be9866513e740030d57093df15970ee28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 16/43] fix: finishing a work read the map of workers without
 its lock

---
 core/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index f5237e0..6a9070d 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -246,13 +246,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
+	engine.workLock.Unlock()
 	log.Verbosef(s)
 
 	// Start next work
-- 
2.43.0


From 5db9d45c64a82aaf8057137fd70865566f795420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 17/43] fix: routing a message could deadlock with the start of
 a work

ProcessNewMessage acquired the read lock of the workers twice, which blocks
for good if a work is started or finished in between.
---
 core/engine.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 6a9070d..5bcd493 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -190,7 +190,8 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		// Do not call getWorker() here: acquiring a read lock twice blocks if a writer is waiting.
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -293,13 +294,6 @@ func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
 	return engine.nodes[peerId]
 }
 
-func (engine *defaultEngine) getWorker(workId string) worker.Worker {
-	engine.workLock.RLock()
-	defer engine.workLock.RUnlock()
-
-	return engine.workers[workId]
-}
-
 // Broadcast a message to everyone in a list.
 func (engine *defaultEngine) BroadcastMessage(pIDs []*tss.PartyID, tssMessage *common.TssMessage) {
 	if tssMessage.To == engine.myPid.Id {
-- 
2.43.0


From 3d053558be1e6b710e7142b63fafe70c1bae79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 18/43] fix: sending to an unknown node left the node list
 locked

sendSignMessaged returned without releasing the read lock, which blocked every
later AddNodes. It also acquired that lock twice. Looking up a node takes the
lock on its own.
---
 core/engine.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 5bcd493..956f9c8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -353,7 +353,6 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 
 	// Converts pids => peerIds
 	peerIds := make([]peer.ID, 0, len(pIDs))
-	engine.nodeLock.RLock()
 	for _, pid := range pIDs {
 		if pid.Id == engine.myPid.Id {
 			// Don't send to ourself.
@@ -369,7 +368,6 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 
 		peerIds = append(peerIds, node.PeerId)
 	}
-	engine.nodeLock.RUnlock()
 
 	// Write to stream
 	for _, peerId := range peerIds {
-- 
2.43.0


From 30cf015d07eb71deb785999a246e2fc24f2a181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 19/43] fix: answering a message request read the node list
 without its lock

---
 core/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index 956f9c8..65e86f6 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -228,11 +228,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
+	engine.nodeLock.RLock()
 	for _, node := range engine.nodes {
 		if node.PartyId.Id == tssMsg.From {
 			dest = node.PartyId
 		}
 	}
+	engine.nodeLock.RUnlock()
 
 	if dest != nil {
 		log.Verbose("Replying request message: ", msgKey, " dest = ", dest)
-- 
2.43.0


From d2d229ea7b1698b4e47d85538a3b2d8f9572afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 20/43] fix: a malformed message from the network crashed the
 node

---
 core/engine.go              |  9 +++++++++
 types/common/tss_message.go | 25 +++++++++++++++++++++++++
 worker/worker_executor.go   |  4 ++++
 3 files changed, 38 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index 65e86f6..e8e9a08 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -180,6 +180,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		return nil
 	}
 
+	if err := tssMsg.ValidateBody(); err != nil {
+		return err
+	}
+
 	switch tssMsg.Type {
 	case common.TssMessage_ASK_MESSAGE_REQUEST:
 		if err := engine.OnAskMessage(tssMsg); err != nil {
@@ -418,6 +422,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
+	if err := tssMessage.ValidateBody(); err != nil {
+		log.Error("Malformed message, err = ", err)
+		return
+	}
+
 	// TODO: Check message signature here.
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 07d8bd6..ec4b262 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -90,6 +90,31 @@ func baseMessage(typez TssMessage_Type, from, to, workId string) *TssMessage {
 	}
 }
 
+// ValidateBody checks that the message carries the content of its type. Messages come from other nodes
+// and can be malformed.
+func (msg *TssMessage) ValidateBody() error {
+	ok := true
+	switch msg.Type {
+	case TssMessage_UPDATE_MESSAGES:
+		ok = len(msg.UpdateMessages) > 0
+		for _, update := range msg.UpdateMessages {
+			ok = ok && update != nil
+		}
+	case TssMessage_AVAILABILITY_RESPONSE:
+		ok = msg.AvailabilityResponseMessage != nil
+	case TssMessage_PRE_EXEC_OUTPUT:
+		ok = msg.PreExecOutputMessage != nil
+	case TssMessage_ASK_MESSAGE_REQUEST:
+		ok = msg.AskRequestMessage != nil
+	}
+
+	if !ok {
+		return fmt.Errorf("message of type %s from %s without its content", msg.Type, msg.From)
+	}
+
+	return nil
+}
+
 func (msg *TssMessage) IsBroadcast() bool {
 	return msg.To == ""
 }
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 71d9da4..7e647dc 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -373,6 +373,10 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(tssMsg.UpdateMessages) != w.request.BatchSize {
+		return fmt.Errorf("wrong number of messages: %d of %d", len(tssMsg.UpdateMessages), w.request.BatchSize)
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
-- 
2.43.0


From 97e77bc7efe043ab4920e41e7a78b9ae8f9b00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 21/43] fix: messages from the network were processed without
 checking who signed them

---
 core/engine.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index e8e9a08..e9bb551 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -402,6 +402,36 @@ func (engine *defaultEngine) getSignedMessageBytes(tssMessage *common.TssMessage
 	return signedMessage, nil
 }
 
+// authenticate checks that a message is for this node and is signed by the node it claims to come
+// from. The peer who delivers the message might be another one since nodes relay messages that get
+// lost (see OnAskMessage).
+func (engine *defaultEngine) authenticate(signedMessage *common.SignedMessage) error {
+	tssMessage := signedMessage.TssMessage
+	if tssMessage.From != signedMessage.From {
+		return fmt.Errorf("message of %s is signed by %s", tssMessage.From, signedMessage.From)
+	}
+
+	if !tssMessage.IsBroadcast() && tssMessage.To != engine.myPid.Id {
+		return fmt.Errorf("message for %s", tssMessage.To)
+	}
+
+	node := engine.getNodeFromPeerId(signedMessage.From)
+	if node == nil {
+		return fmt.Errorf("unknown sender %s", signedMessage.From)
+	}
+
+	serialized, err := json.Marshal(tssMessage)
+	if err != nil {
+		return err
+	}
+
+	if !node.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("wrong signature of %s", signedMessage.From)
+	}
+
+	return nil
+}
+
 // OnNetworkMessage implements P2PDataListener interface.
 func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	node := engine.getNodeFromPeerId(message.FromPeerId)
@@ -427,7 +457,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.authenticate(signedMessage); err != nil {
+		log.Error("Reject message relayed by ", message.FromPeerId, ", err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
-- 
2.43.0


From 0662c2bb41a36f5bb69512275f9c2d4bbc635b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 22/43] fix: messages that follow one another on a stream were
 lost or garbled

ReadStreamWithBuffer made a new buffered reader for every message, which
swallowed the beginning of the next one. A stream was also abandoned for good
when its first message came before the listener was registered.
---
 p2p/connection_manager.go | 6 ++++--
 p2p/helper.go             | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..28750b2 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -175,13 +175,15 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 		if err != nil {
 			log.Warn(err)
 			// TODO: handle retry here.
+			// Nothing reads this stream anymore. Tell the other side.
+			stream.Reset()
 			return
 		}
 		if dataBuf != nil {
 			listener := cm.getListener(protocol)
 			if listener == nil {
-				// No listener. Ignore the message
-				return
+				// No listener (yet). Ignore the message but continue to read the stream.
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..12bfe22 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,10 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Read straight from the stream: a buffered reader that lives for one call
+	// only would swallow (and lose) the beginning of the next message.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +30,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From 04f8af1362dabc22562ce71d7d73490a132d99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 23/43] fix: a broken stream to a peer was used forever

The map of streams was also accessed without its lock, so that concurrent
messages could race or open several streams.
---
 p2p/connection.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..b6a5ce0 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -33,6 +33,9 @@ func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connecti
 }
 
 func (con *Connection) ReleaseStream() {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	for _, stream := range con.streams {
 		if stream != nil {
 			stream.Reset()
@@ -55,6 +58,9 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
@@ -65,8 +71,12 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	con.lock.Lock()
-	defer con.lock.Unlock()
+	if err := WriteStreamWithBuffer(msg, stream); err != nil {
+		// The stream is broken. The next message has to use a new one.
+		delete(con.streams, protocolId)
+		stream.Reset()
+		return err
+	}
 
-	return WriteStreamWithBuffer(msg, stream)
+	return nil
 }
-- 
2.43.0


From 397119ee5b092204307b9ad26cf6495d79073e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 24/43] fix: not being selected for an EdDSA signing was never
 reported

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index e9bb551..11f48b4 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -482,10 +482,10 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 32403056975684f4eddce7e5d05f2f6adb21be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 25/43] fix: results of signings could lose their request and
 hopeless requests were accepted

The map of requests was accessed without a lock, filled after the work had
started and shared by repeated requests. The work now carries the request of
Sisu. Requests of an unknown key type, without a stored key or without messages
are refused: they crashed the node or were accepted without ever being answered.
---
 core/heart.go                | 37 ++++++++++++++++++------------------
 worker/types/work_request.go |  9 +++++++++
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..6cc6e46 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,6 +6,7 @@ import (
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -44,22 +45,22 @@ type Heart struct {
 	cm         p2p.ConnectionManager
 	engine     Engine
 	client     client.Client
+
+	// Requests from Sisu are served concurrently.
+	lock       sync.RWMutex
 	valPubkeys []ctypes.PubKey
 
 	ready atomic.Value
 
 	privateKey ctypes.PrivKey
 	aesKey     []byte
-
-	keysignRequests map[string]*htypes.KeysignRequest
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
 	return &Heart{
-		config:          config,
-		aesKey:          config.AesKey,
-		client:          client,
-		keysignRequests: make(map[string]*htypes.KeysignRequest),
+		config: config,
+		aesKey: config.AesKey,
+		client: client,
 	}
 }
 
@@ -187,21 +188,15 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	result.Request = request.ClientRequest
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
-
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
-
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -213,7 +208,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  request.ClientRequest,
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -290,7 +285,9 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	h.lock.Lock()
 	h.valPubkeys = tPubKeys
+	h.lock.Unlock()
 
 	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
@@ -309,6 +306,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("Unsupported key type: %s", keyType)
 	}
 
 	return h.engine.AddRequest(request)
@@ -364,18 +363,18 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("Unsupported key type: %s", req.KeyType)
 	}
 
-	err := h.engine.AddRequest(workRequest)
+	workRequest.ClientRequest = req
 
-	h.keysignRequests[workRequest.WorkId] = req
-
-	return err
+	return h.engine.AddRequest(workRequest)
 }
 
 // Called at the end of Sisu's block. This could be a time when we can check our CPU resource and
diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..4ab455a 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -3,6 +3,7 @@ package types
 import (
 	"errors"
 
+	htypes "github.com/sisu-network/dheart/types"
 	"github.com/sisu-network/lib/log"
 	"github.com/sisu-network/tss-lib/ecdsa/keygen"
 	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
@@ -33,6 +34,9 @@ type WorkRequest struct {
 	// Used for signing
 	Messages [][]byte // TODO: Make this a byte array
 	Chains   []string
+
+	// The request of Sisu that this work serves (if any). It is returned together with the result.
+	ClientRequest *htypes.KeysignRequest
 }
 
 func NewEcKeygenRequest(keyType, workId string, pIds tss.SortedPartyIDs, threshold int, keygenInput *keygen.LocalPreParams) *WorkRequest {
@@ -100,6 +104,11 @@ func (request *WorkRequest) Validate() error {
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if request.IsSigning() && len(request.Messages) == 0 {
+		return errors.New("Nothing to sign")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From bcff3b4c726c57426b48ae2a3da365da6917c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 26/43] fix: a short ciphertext or an unknown type of key
 crashed the node

---
 utils/crypto.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..391d4a5 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,10 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("Encrypted message is too short, length = %d", len(encrypted))
+	}
+
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
@@ -76,7 +80,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From 40b7490ee880e4c81e86eddee07a654dd4ce4d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 27/43] fix: a request with invalid keys or parts crashed its
 handler

---
 core/heart.go     | 40 ++++++++++++++++++++++++++++++++++++++--
 server/tss_api.go | 18 ++++++++----------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 6cc6e46..0c1e2de 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -166,6 +166,11 @@ func (h *Heart) loadPeers(engine Engine) {
 			continue
 		}
 
+		if NewNode(pubkey) == nil {
+			log.Error("loadPeers: invalid pubkey: ", peer.PubKey)
+			continue
+		}
+
 		pubkeys = append(pubkeys, pubkey)
 	}
 	h.valPubkeys = pubkeys
@@ -285,11 +290,15 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	nodes, err := newCommittee(tPubKeys)
+	if err != nil {
+		return err
+	}
+
 	h.lock.Lock()
 	h.valPubkeys = tPubKeys
 	h.lock.Unlock()
 
-	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -313,6 +322,21 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	return h.engine.AddRequest(request)
 }
 
+// newCommittee creates the nodes of a committee from their public keys.
+func newCommittee(pubkeys []ctypes.PubKey) ([]*Node, error) {
+	if len(pubkeys) == 0 {
+		return nil, fmt.Errorf("The committee is empty")
+	}
+
+	for i, pubkey := range pubkeys {
+		if pubkey == nil || NewNode(pubkey) == nil {
+			return nil, fmt.Errorf("Invalid public key at index %d", i)
+		}
+	}
+
+	return NewNodes(pubkeys), nil
+}
+
 func (h *Heart) getKey(requestType, chain, workdId string) string {
 	return fmt.Sprintf("%s__%s__%s", requestType, chain, workdId)
 }
@@ -322,8 +346,16 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return ErrDheartNotReady
 	}
 
+	if req == nil {
+		return fmt.Errorf("The request is empty")
+	}
+
 	n := len(tPubKeys)
-	nodes := NewNodes(tPubKeys)
+	nodes, err := newCommittee(tPubKeys)
+	if err != nil {
+		return err
+	}
+
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
@@ -336,6 +368,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	signMessages := make([][]byte, len(req.KeysignMessages)) // TODO: make this a byte array
 	chains := make([]string, len(req.KeysignMessages))
 	for i, msg := range req.KeysignMessages {
+		if msg == nil {
+			return fmt.Errorf("Message %d is empty", i)
+		}
+
 		log.Verbosef("There is a new work for chain %s with hash %s", msg.OutChain, msg.OutHash)
 
 		workId = workId + msg.Id
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..b37a681 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
@@ -92,6 +86,10 @@ func (api *TssApi) getPubkeysFromWrapper(keyWrappers []types.PubKeyWrapper) ([]c
 }
 
 func (api *TssApi) KeySign(req *types.KeysignRequest, keyWrappers []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("the request cannot be empty")
+	}
+
 	log.Info("There is keysign request with message length ", len(req.KeysignMessages))
 
 	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
-- 
2.43.0


From 0a4099d8f65bc70683829d7976092df9b9e851d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 28/43] fix: a node that failed to start or was not ready
 accepted requests

SetSisuReady ignored its argument and crashed before the private key was set. A
private key was kept when the node could not be started with it, so that it
could not be started any more.
---
 core/heart.go | 81 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 0c1e2de..5af8d49 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -40,20 +40,22 @@ var (
 
 // The dragon heart of this component.
 type Heart struct {
-	config     config.HeartConfig
-	db         db.Database
-	cm         p2p.ConnectionManager
-	engine     Engine
-	client     client.Client
+	config config.HeartConfig
+	db     db.Database
+	client client.Client
 
 	// Requests from Sisu are served concurrently.
 	lock       sync.RWMutex
 	valPubkeys []ctypes.PubKey
+	cm         p2p.ConnectionManager
+	engine     Engine
+	privateKey ctypes.PrivKey
 
 	ready atomic.Value
 
-	privateKey ctypes.PrivKey
-	aesKey     []byte
+	// Only one private key can be set at a time.
+	privateKeyLock sync.Mutex
+	aesKey         []byte
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
@@ -111,29 +113,32 @@ func (h *Heart) Start() error {
 	return nil
 }
 
-func (h *Heart) initConnectionManager() error {
+func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
 	// Connection manager
-	h.cm = p2p.NewConnectionManager(h.config.Connection)
+	cm := p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
-	myNode := NewNode(h.privateKey.PubKey())
-	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
+	myNode := NewNode(privateKey.PubKey())
+	if myNode == nil {
+		return fmt.Errorf("Invalid private key")
+	}
+	engine := NewEngine(myNode, cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
 
 	if h.valPubkeys != nil {
-		h.engine.AddNodes(NewNodes(h.valPubkeys))
+		engine.AddNodes(NewNodes(h.valPubkeys))
 	}
 
 	log.Info("Adding engine as listener for connection manager....")
-	err := h.engine.Init()
+	err := engine.Init()
 	if err != nil {
 		return err
 	}
-	h.loadPeers(h.engine)
+	h.loadPeers(engine)
 
 	// Start connection manager.
-	err = h.cm.Start(h.privateKey.Bytes(), h.privateKey.Type())
+	err = cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
 		log.Error("Cannot start connection manager. err =", err)
 		return err
@@ -141,9 +146,28 @@ func (h *Heart) initConnectionManager() error {
 		log.Info("Connected manager started!")
 	}
 
+	// Everything is running. Set the private key only now, so that a failed start can be repeated.
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.cm = cm
+	h.engine = engine
+	h.privateKey = privateKey
+	if h.ready.Load() == true {
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine)
+	}
+
 	return nil
 }
 
+// isReady returns true if this node is running and Sisu is ready.
+func (h *Heart) isReady() bool {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	return h.ready.Load() == true && h.engine != nil
+}
+
 func (h *Heart) loadPeers(engine Engine) {
 	peers := h.db.LoadPeers()
 	if len(peers) == 0 && len(h.config.Connection.Peers) > 0 {
@@ -228,10 +252,15 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.ready.Store(isReady)
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	if isReady && h.cm != nil {
+		// Sisu is ready, we are now ready to process messages from network.
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	}
 }
 
 // TODO: remove this function
@@ -244,6 +273,9 @@ func (h *Heart) SetBootstrappedKeys(tPubKeys []ctypes.PubKey) {
 }
 
 func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error {
+	h.privateKeyLock.Lock()
+	defer h.privateKeyLock.Unlock()
+
 	encrypted, err := hex.DecodeString(encryptedKey)
 	if err != nil {
 		log.Error("Failed to decode string, err =", err)
@@ -265,16 +297,17 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return nil
 	}
 
+	var privateKey ctypes.PrivKey
 	switch tendermintKeyType {
 	case "ed25519":
-		h.privateKey = &ed25519.PrivKey{Key: decrypted}
+		privateKey = &ed25519.PrivKey{Key: decrypted}
 	case "secp256k1":
-		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
+		privateKey = &secp256k1.PrivKey{Key: decrypted}
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
 	}
 
-	err = h.initConnectionManager()
+	err = h.initConnectionManager(privateKey)
 	if err != nil {
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
@@ -283,7 +316,7 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 }
 
 func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		log.Verbose("Heart not ready")
 		return ErrDheartNotReady
 	}
@@ -342,7 +375,7 @@ func (h *Heart) getKey(requestType, chain, workdId string) string {
 }
 
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
@@ -421,7 +454,7 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 		return nil
 	}
 
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
-- 
2.43.0


From bfa1634564f7dcf59f4f5f72fc8ceb3a897d6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 29/43] fix: peers could not be saved and were loaded with a
 wrong type of key

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..814217c 100644
--- a/db/database.go
+++ b/db/database.go
@@ -529,10 +529,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, len(peers)*3)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -562,7 +571,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From a0fb73b6727eac3f788066e4d94e22e137781211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 30/43] fix: presigns were loaded in another order than asked
 for

---
 db/database.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/db/database.go b/db/database.go
index 814217c..742aff9 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,16 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+
+	// 3. Return the presigns in the order of the ids. A presign is never returned twice.
+	results := make([]*ecsigning.SignatureData_OneRoundData, 0, len(presignIds))
+	for _, presignId := range presignIds {
+		if data, ok := loaded[presignId]; ok {
+			results = append(results, data)
+			delete(loaded, presignId)
+		}
 	}
 
 	return results, nil
@@ -483,7 +493,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -497,15 +507,24 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	// 2. Scan every rows
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
-		results = append(results, status)
+		loaded[presignId] = status
+	}
+
+	// 3. Return the statuses in the order of the ids.
+	results := make([]string, 0, len(presignIds))
+	for _, presignId := range presignIds {
+		if status, ok := loaded[presignId]; ok {
+			results = append(results, status)
+			delete(loaded, presignId)
+		}
 	}
 
 	return results, nil
-- 
2.43.0


From 785a21e438a96a1306a9cd0ac50ff5210297a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 31/43] fix: the presigns of a batch could not be saved

---
 db/migrations/002_create_presign_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/002_create_presign_table.up.sql b/db/migrations/002_create_presign_table.up.sql
index 2149182..1ebd037 100644
--- a/db/migrations/002_create_presign_table.up.sql
+++ b/db/migrations/002_create_presign_table.up.sql
@@ -5,5 +5,5 @@ CREATE TABLE IF NOT EXISTS presign(
   status VARCHAR(64),
   presign_output BLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
-  PRIMARY KEY (work_id)
+  PRIMARY KEY (presign_id)
 );
-- 
2.43.0


From 560e73ce55fd4c75e652909aa34be23e70a9986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 32/43] fix: members gave up before the leader decided

---
 core/config/timeout.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..6173a93 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,8 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		// Members wait longer than the leader, so that they get to know its decision.
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From 4c9fde47680fe9514baa85b9c49673701c6eb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 33/43] fix: lost EdDSA messages were never asked for again

The monitor of missing messages had no list of the EdDSA protocols' messages, so
that one lost message failed an EdDSA key generation or signing.
---
 core/message/tss_phase_messages.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index c91caa0..5bbe007 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -117,6 +117,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -133,7 +147,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
-- 
2.43.0


From 99e3760245252fc3d8abada9f8fb55ba88a31937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 34/43] fix: a lost message of a signing from presigns was not
 asked for again

The monitor expected all rounds of a signing, though one that starts from presigns
only has the last.
---
 worker/components/message_monitor.go | 10 ++++++++--
 worker/worker_executor.go            |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/worker/components/message_monitor.go b/worker/components/message_monitor.go
index 0885614..0c34cfa 100644
--- a/worker/components/message_monitor.go
+++ b/worker/components/message_monitor.go
@@ -40,7 +40,13 @@ type DefaultMessageMonitor struct {
 
 func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
 	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
-	allMessages := message.GetMessagesByWorkType(jobType)
+	return NewMessageMonitorOf(mypid, jobType, message.GetMessagesByWorkType(jobType), callback, pIDsMap, timeout)
+}
+
+// NewMessageMonitorOf creates a monitor of some messages of a protocol only, e.g. those of a signing
+// that starts from presigns.
+func NewMessageMonitorOf(mypid *tss.PartyID, jobType wTypes.WorkType, allMessages []string,
+	callback MessageMonitorCallback, pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
 	receivedMessages := make(map[string][]bool)
 	for pid := range pIDsMap {
 		receivedMessages[pid] = make([]bool, len(allMessages))
@@ -55,7 +61,7 @@ func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback Mes
 		callback:         callback,
 		pIDsMap:          pIDsMap,
 		receivedMessages: receivedMessages,
-		allMessages:      message.GetMessagesByWorkType(jobType),
+		allMessages:      allMessages,
 	}
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 7e647dc..edf8e03 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -128,7 +128,12 @@ func (w *WorkerExecutor) Init() (err error) {
 		return err
 	}
 
-	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	allMessages := message.GetMessagesByWorkType(w.workType)
+	if w.workType == wTypes.EcSigning && len(w.ecPresignOutput) > 0 && w.ecPresignOutput[0] != nil {
+		// The presigns replace all rounds but the last one.
+		allMessages = allMessages[len(allMessages)-1:]
+	}
+	w.messageMonitor = components.NewMessageMonitorOf(w.myPid, w.workType, allMessages, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
 	p2pCtx := tss.NewPeerContext(w.pIDs)
-- 
2.43.0


From f9ff9ad7b74537ebb887dfd637d8eb70d3824447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 35/43] fix: a result posted before Sisu was connected crashed
 the node

The connection is also set by another goroutine than the ones that use it.
---
 client/client.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..901921c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -28,6 +29,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex
 	url    string
 }
 
@@ -42,9 +44,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.lock.Lock()
+			c.client = client
+			c.lock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,9 +63,22 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+// call calls a method of Sisu's server. It fails if the server has never been reached.
+func (c *DefaultClient) call(result interface{}, method string, arg interface{}) error {
+	c.lock.RLock()
+	client := c.client
+	c.lock.RUnlock()
+
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
+	return client.CallContext(context.Background(), result, method, arg)
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call(&result, "tss_ping", source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -71,7 +89,7 @@ func (c *DefaultClient) Ping(source string) error {
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call(&r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -88,7 +106,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 	}
 
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call(&r, "tss_presignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
@@ -100,7 +118,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call(&r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 71ce02bd9dc001111f7bf31767c8658c49e0f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 36/43] fix: a peer address without the id of the peer crashed
 the start

---
 p2p/connection_manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 28750b2..ddd9596 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -100,12 +100,17 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 	log.Info("cm.config.BootstrapPeers = ", cm.config.Peers)
 	cm.bootstrapPeers = make([]maddr.Multiaddr, len(cm.config.Peers))
 	for i, peerString := range cm.config.Peers {
-		peer, err := maddr.NewMultiaddr(peerString.Address)
+		peerAddr, err := maddr.NewMultiaddr(peerString.Address)
 		if err != nil {
 			return err
 		}
 
-		cm.bootstrapPeers[i] = peer
+		// The address has to name the peer.
+		if _, err := peer.AddrInfoFromP2pAddr(peerAddr); err != nil {
+			return fmt.Errorf("invalid address %s of a peer: %w", peerString.Address, err)
+		}
+
+		cm.bootstrapPeers[i] = peerAddr
 	}
 
 	host, err := libp2p.New(
-- 
2.43.0


From 16fc7af0883a5bd992e281ef60ea5a2b1d699485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 37/43] fix: an EdDSA signature of another message was reported
 as a success

---
 core/engine_eddsa.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..0d4c3ff 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -30,16 +31,21 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 	log.Infof("%s Signing finished for Eddsa workId %s", engine.myPid.Id[len(engine.myPid.Id)-4:],
 		request.WorkId)
 
+	myKeygen := request.EdSigningInput
+	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
+
 	signatures := make([][]byte, len(data))
 	for i := range data {
 		signatures[i] = data[i].Signature.Signature
-	}
 
-	myKeygen := request.EdSigningInput
-	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+		// tss-lib signs a number, which has no leading zeros. Its signature is not that of the message if
+		// the message starts with zeros.
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From 79ec0c10de85f6f4fdfd5512cb946bef6ef26455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 38/43] fix: a message to an unreachable node held up the
 messages to all others

---
 core/engine.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 11f48b4..7c0dce6 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -375,10 +375,17 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 		peerIds = append(peerIds, node.PeerId)
 	}
 
-	// Write to stream
+	// Write to stream. It takes a while to find out that a peer cannot be reached. The others should
+	// not have to wait for that.
+	wg := &sync.WaitGroup{}
 	for _, peerId := range peerIds {
-		engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		wg.Add(1)
+		go func(peerId peer.ID) {
+			defer wg.Done()
+			engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		}(peerId)
 	}
+	wg.Wait()
 }
 
 // getSignedMessageBytes signs a tss message and returns serialized bytes of the signed message.
-- 
2.43.0


From a93d3e1eb77facc1ed8630e5dff582e2f136ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 39/43] fix: a single node reported a key of an unknown type as
 generated, and crashed on requests it cannot do

A key generation of an unknown type was reported as a success without a
key. Signing before the key was there, a message that cannot be signed and
an empty request crashed the handler, a failure of the random source the
node. The keys were used without synchronisation.
---
 server/single_node_api.go | 99 ++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 28 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..999d942 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -24,6 +25,8 @@ type SingleNodeApi struct {
 	keyMap map[string]interface{}
 	c      client.Client
 
+	// Requests are served concurrently.
+	keyLock   sync.RWMutex
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
 }
@@ -56,38 +59,24 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("Unsupported key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
 		log.Info("Sending keygen to Sisu")
 
-		var result types.KeygenResult
-		switch keyType {
-		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
-			if err != nil {
-				panic(err)
-			}
-
-			pubKey := api.ecPrivate.Public()
-			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
-			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
-
-			result = types.KeygenResult{
-				KeyType:     keyType,
-				Outcome:     types.OutcomeSuccess,
-				PubKeyBytes: publicKeyBytes,
-			}
-		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+		result := types.KeygenResult{
+			KeyType: keyType,
+			Outcome: types.OutcomeSuccess,
+		}
 
-			result = types.KeygenResult{
-				KeyType:     keyType,
-				Outcome:     types.OutcomeSuccess,
-				PubKeyBytes: pubKeyBytes,
-			}
+		var err error
+		if result.PubKeyBytes, err = api.generateKey(keyType); err != nil {
+			log.Error("Cannot generate key, err = ", err)
+			result.Outcome = types.OutcomeFailure
 		}
 
 		if err := api.c.PostKeygenResult(&result); err != nil {
@@ -98,24 +87,74 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 	return nil
 }
 
+// generateKey generates and keeps a new private key. It returns the public key.
+func (api *SingleNodeApi) generateKey(keyType string) ([]byte, error) {
+	if keyType == libchain.KEY_TYPE_ECDSA {
+		ecPrivate, err := crypto.GenerateKey()
+		if err != nil {
+			return nil, err
+		}
+
+		api.keyLock.Lock()
+		api.ecPrivate = ecPrivate
+		api.keyLock.Unlock()
+
+		return crypto.FromECDSAPub(&ecPrivate.PublicKey), nil
+	}
+
+	edPrivate, err := edwards.GeneratePrivateKey()
+	if err != nil {
+		return nil, err
+	}
+
+	api.keyLock.Lock()
+	api.edPrivate = edPrivate
+	api.keyLock.Unlock()
+
+	return edPrivate.PubKey().Serialize(), nil
+}
+
 func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 	return []byte(fmt.Sprintf("keygen_%s", chain))
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.keyLock.RLock()
 	privateKey := api.ecPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("The key has not been generated")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.keyLock.RLock()
+	privateKey := api.edPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("The key has not been generated")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
 func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("the request cannot be empty")
+	}
+
 	var err error
 
 	signatures := make([][]byte, len(req.KeysignMessages))
@@ -124,6 +163,10 @@ func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.Pu
 		var signature []byte
 		var err error
 
+		if msg == nil {
+			return fmt.Errorf("Message %d is empty", i)
+		}
+
 		switch req.KeyType {
 		case libchain.KEY_TYPE_ECDSA:
 			signature, err = api.keySignEth(msg.OutChain, msg.BytesToSign)
-- 
2.43.0


From 67f242aa7ccf547842dcc2a575578975dd5ac8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 40/43] fix: reading a stored value that is too short to be
 encrypted crashed

---
 store/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..5a8c464 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"fmt"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, fmt.Errorf("the value is not encrypted")
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
-- 
2.43.0


From 4d40a7428e099196e4442e39fa0e61568df8c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 41/43] fix: a connection that broke while a result was read
 was taken for the end of the result

---
 db/database.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/db/database.go b/db/database.go
index 742aff9..3cc9e43 100644
--- a/db/database.go
+++ b/db/database.go
@@ -262,6 +262,9 @@ func (d *SqlDatabase) LoadPreparams() (*eckeygen.LocalPreParams, error) {
 	defer rows.Close()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return nil, ErrNotFound
 	}
 
@@ -310,6 +313,10 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
+
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -347,6 +354,10 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
+
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -426,6 +437,10 @@ func (d *SqlDatabase) GetAvailablePresignShortForm() ([]string, []string, error)
 		pids = append(pids, pid)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
+
 	return presignIds, pids, nil
 }
 
@@ -478,6 +493,10 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 		loaded[presignId] = &data
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// 3. Return the presigns in the order of the ids. A presign is never returned twice.
 	results := make([]*ecsigning.SignatureData_OneRoundData, 0, len(presignIds))
 	for _, presignId := range presignIds {
@@ -518,6 +537,10 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 		loaded[presignId] = status
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// 3. Return the statuses in the order of the ids.
 	results := make([]string, 0, len(presignIds))
 	for _, presignId := range presignIds {
-- 
2.43.0


From 6664637e7d6f367a79e314764571fdf7fe292d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 42/43] fix: a failed migration of the database was not
 reported

---
 db/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/database.go b/db/database.go
index 3cc9e43..172f775 100644
--- a/db/database.go
+++ b/db/database.go
@@ -170,7 +170,9 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	m.Up()
+	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From 1ab8d7911511ba8b8c106260a777e377aa771b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 43/43] fix: a database in memory was lost after some seconds,
 and threads had one each

---
 db/database.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/db/database.go b/db/database.go
index 172f775..f627fc2 100644
--- a/db/database.go
+++ b/db/database.go
@@ -129,16 +129,22 @@ func (d *SqlDatabase) Connect() error {
 		database, err = sql.Open("sqlite3", ":memory:")
 	} else {
 		database, err = sql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", username, password, host, d.config.Port, schema))
-		if err != nil {
-			return err
-		}
+	}
+	if err != nil {
+		return err
 	}
 
 	d.db = database
-	database.SetMaxIdleConns(5)
-	database.SetMaxOpenConns(10)
-	database.SetConnMaxIdleTime(5 * time.Second)
-	database.SetConnMaxLifetime(30 * time.Second)
+	if d.config.InMemory {
+		// Every connection to an in-memory database has a database of its own, which is gone when the
+		// connection is closed.
+		database.SetMaxOpenConns(1)
+	} else {
+		database.SetMaxIdleConns(5)
+		database.SetMaxOpenConns(10)
+		database.SetConnMaxIdleTime(5 * time.Second)
+		database.SetConnMaxLifetime(30 * time.Second)
+	}
 
 	log.Info("Db is connected successfully")
 	return nil
-- 
2.43.0

