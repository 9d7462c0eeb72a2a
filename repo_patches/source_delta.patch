From 14bd7a993ccc8eb887836a9773a537991bf06480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 01/28] fix: complete the future returned by Then on a
 completed future

---
 core/actor/actor_reenter_impl.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..5981e36 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -25,16 +25,17 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
-	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
-	}
-
 	newFuture := NewFuture()
-	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
+	run := func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
-	})
+	}
+
+	if f.IsCompleted() {
+		go run(f.result)
+	} else {
+		f.callbacks = append(f.callbacks, run)
+	}
 
 	return newFuture
 }
-- 
2.43.0


From 46787886dbc882e1cec84b20f7de5e0483928081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 02/28] fix: report the call timeout of a blocking local call
 to the caller

---
 core/node/system_impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..abfe801 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -296,6 +296,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 	if root {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
 		mw.Done = make(chan struct{})
+		var waitErr error // written before mw.Done is closed
 		ready := make(chan struct{})
 		go func() {
 			<-ready // Wait for Received to complete
@@ -312,8 +313,9 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 			case <-time.After(sys.callTimeout):
 				log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
 					mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
+				waitErr = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
 				if mw.Err == nil {
-					mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
+					mw.Err = waitErr
 				}
 			}
 
@@ -328,7 +330,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 		select {
 		case <-mw.Done:
-			return nil
+			return waitErr
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
 				mw.Req.Header.TargetActorID, mw.Req.Header.Event)
-- 
2.43.0


From 9e67a45964ba5c0d634d91c103f4fcec308b9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 03/28] fix: return the error of a routed call to the remote
 caller

---
 core/node/system_acceptor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..0af5cfb 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -107,6 +107,7 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From b9b7d287fc4b4637d36842d8dcc7ed95d2ac3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 04/28] fix: deliver remote sends (create the connection,
 decode the reply)

---
 core/node/system_impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index abfe801..e215de0 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -439,11 +439,13 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	// The response is not used, but the RPC needs somewhere to decode it, and
+	// the connection may have to be created first
+	return sys.client.CallWait(mw.Ctx,
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{})
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From 50d166d4763142c56b422920858e7bcf08631a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 05/28] fix: do not crash on a stale record of an actor type
 this node does not know

---
 core/node/system_impl.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e215de0..4b7a887 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -262,7 +262,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.actorWeight(actorType)); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
@@ -274,6 +274,14 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	return sys.handleRemoteCall(mw.Ctx, info, mw)
 }
 
+// actorWeight returns the declared weight of an actor type, 0 if it is not known to this node
+func (sys *NormalSystem) actorWeight(ty string) int {
+	if ac := sys.factory.Get(ty); ac != nil {
+		return ac.Weight
+	}
+	return 0
+}
+
 func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string) (core.IActor, core.AddressInfo, error) {
 	sys.RLock()
 
@@ -428,7 +436,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.actorWeight(actorType)); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-- 
2.43.0


From 8f9d72b25b13c3fbcc72b7d7cce7de49575ce576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 06/28] fix: enforce id and node-unique registration rules
 under the lock

---
 core/node/system_impl.go | 56 ++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 4b7a887..0aa02b1 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // ids being registered -> type
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -102,23 +104,12 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
-	sys.Lock()
-	if _, ok := sys.actoridmap[builder.GetID()]; ok {
-		sys.Unlock()
-		return nil, core.ErrActorRegisterRepeat
+	if err := sys.reserve(builder); err != nil {
+		return nil, err
 	}
-	sys.Unlock()
+	defer sys.release(builder.GetID())
 
 	if builder.GetGlobalQuantityLimit() != 0 {
-
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
-
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
 			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
@@ -151,6 +142,43 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// reserve claims the builder's id (and type, if it is limited to one per node)
+// for a registration in progress
+func (sys *NormalSystem) reserve(builder core.IActorBuilder) error {
+	sys.Lock()
+	defer sys.Unlock()
+
+	id, ty := builder.GetID(), builder.GetType()
+	if _, ok := sys.actoridmap[id]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+	if _, ok := sys.registering[id]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+
+	if builder.GetNodeUnique() {
+		for _, v := range sys.actoridmap {
+			if v.Type() == ty {
+				return fmt.Errorf("[barid.system] register unique type actor %v in %v", ty, sys.nodeID)
+			}
+		}
+		for _, v := range sys.registering {
+			if v == ty {
+				return fmt.Errorf("[barid.system] register unique type actor %v in %v", ty, sys.nodeID)
+			}
+		}
+	}
+
+	sys.registering[id] = ty
+	return nil
+}
+
+func (sys *NormalSystem) release(id string) {
+	sys.Lock()
+	delete(sys.registering, id)
+	sys.Unlock()
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
-- 
2.43.0


From ce5f6b550f92dc5457d2857b69cf72daa745abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 07/28] fix: read the actor table under its lock in Actors and
 Exit

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 0aa02b1..055288f 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -215,6 +215,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -514,7 +517,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From 4d63db6480fc56fc875ec0e287431c7bbf20b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 08/28] fix: subtract the weight from the node the removed
 record belongs to

---
 core/addressbook/addressbook_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..30b848d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -118,8 +118,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From c9fc3e4b5be61aece9043193cc58229e1069cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 09/28] fix: compare each node with its own weight when
 choosing a low-weight node

---
 core/addressbook/addressbook_impl.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 30b848d..1ff2554 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"strconv"
 	"sync"
 
 	trdredis "github.com/pojol/braid/3rd/redis"
@@ -253,42 +252,33 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	weightCmds := make(map[string]*redis.StringCmd, len(nodeInfoMap))
 	for nodeID := range nodeInfoMap {
-		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
+		weightCmds[nodeID] = pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
-	cmders, err := pipe.Exec(ctx)
-	if err != nil {
+	// a node without a weight record (redis.Nil) is skipped below
+	_, err = pipe.Exec(ctx)
+	if err != nil && err != redis.Nil {
 		return core.AddressInfo{}, fmt.Errorf("pipeline execution failed: %v", err)
 	}
 
-	i := 0
 	for nodeID, nodeInfoJSON := range nodeInfoMap {
-		if i >= len(cmders) {
-			break
-		}
-
-		weightStr, err := cmders[i].(*redis.StringCmd).Result()
+		weight, err := weightCmds[nodeID].Int()
 		if err != nil {
 			log.WarnF("unable to get weight for node %s: %v", nodeID, err)
-			i++
 			continue
 		}
 
-		weight, _ := strconv.Atoi(weightStr)
-
 		if weight < lowestWeight {
 			var nodeInfo core.AddressInfo
 			if err := json.Unmarshal([]byte(nodeInfoJSON), &nodeInfo); err != nil {
 				log.WarnF("unable to unmarshal node info: %v", err)
-				i++
 				continue
 			}
 			lowestWeight = weight
 			selectedNode = nodeInfo
 		}
-
-		i++
 	}
 
 	if selectedNode.Node == "" {
-- 
2.43.0


From 8b37af42ff554e7616881f7172ed5a6c8b2ecfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 10/28] fix: forget the local ids when the node clears its
 records

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1ff2554..95c172b 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -356,5 +356,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	ab.IDMap = make(map[string]bool)
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From c4b4030690bcf4f9c1730995626666e16b157766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 11/28] fix: publish to a topic this node has not subscribed to

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 055288f..f9d9839 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -488,7 +488,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From d07103aa364e8a735f6ad35f581b6aa6f2d9be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 12/28] fix: apply the topic options given to Sub

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index f9d9839..99a534b 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -492,7 +492,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From 0eafda45bb3fc9807a96ac04c71cf884aa9368d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 13/28] fix: copy every header field in WithReqHeader

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..54da592 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -93,6 +93,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.PrevActorType = h.PrevActorType
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 		b.wrapper.Req.Header.Custom = h.Custom
 	} else {
 		// If either header is nil, directly set the header
-- 
2.43.0


From 7951aa30e8013ec3cf4099b066a52b72b5be7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 14/28] fix: do not panic when the existing custom fields are
 an encoded null

---
 router/msg/msg_custom_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..6caa247 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -24,6 +24,9 @@ func (b *MsgBuilder) WithReqCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing fields were an encoded null
+		data = make(map[string]any, len(attrs))
+	}
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
@@ -53,6 +56,9 @@ func (b *MsgBuilder) WithResCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing fields were an encoded null
+		data = make(map[string]any, len(attrs))
+	}
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
-- 
2.43.0


From c6d83b913c9808e767cff8a4e531188b51d96587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 15/28] fix: convert stored numbers to int8 and uint8 fields
 too

---
 router/msg/msg_custom_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index 6caa247..8c744ef 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -121,6 +121,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
@@ -197,6 +205,14 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
-- 
2.43.0


From 55a3b193f9e5d01af15ba7c0aa4ecc9f8beb3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 16/28] fix: keep the custom data when encoding an object fails

---
 router/msg/map_custom_object.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router/msg/map_custom_object.go b/router/msg/map_custom_object.go
index fefb8f0..8d6e0cd 100644
--- a/router/msg/map_custom_object.go
+++ b/router/msg/map_custom_object.go
@@ -7,6 +7,7 @@ func (b *MsgBuilder) WithReqCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Req.Header.Custom = byt
@@ -18,6 +19,7 @@ func (b *MsgBuilder) WithResCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with res custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Res.Header.Custom = byt
-- 
2.43.0


From 8cc9bd46c5aecc3361700096167925bb4145e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 17/28] fix: do not write actor options through to the shared
 template

---
 core/actor/actor_build_impl.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..a89dbd3 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,7 +31,13 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
-	p.Options[key] = value
+	// the map may be shared with the type's template: never write to it
+	opts := make(map[string]string, len(p.Options)+1)
+	for k, v := range p.Options {
+		opts[k] = v
+	}
+	opts[key] = value
+	p.Options = opts
 	p.optionsMutex.Unlock()
 	return p
 }
-- 
2.43.0


From 7235a7df0a7c07e6ebcfe454e1c66cbec053dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 18/28] fix: register version strategies under the lock

---
 core/entity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..045e31d 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
-- 
2.43.0


From db916db63cafda9669c80dc541e2e86959c6339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 19/28] fix: return the smallest greater version whatever the
 registration order

---
 core/entity.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 045e31d..7c250c9 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -59,14 +59,15 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	// 没有更高的版本时保持不变
+	next := ver
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From b333a6a47b3501d184b447d6a16423b1998b7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 20/28] fix: do not pass a nil call option for a value of
 another type

---
 lib/grpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..7bcd15c 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -148,6 +148,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
 				fmt.Printf("[braid.client] call option type mismatch")
+				continue
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From 6f6b01dd280e0269271fe12bd7f8cd31e6b61f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 21/28] fix: report the error of a failed command in a batch

---
 3rd/redis/client_utils.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..c6a0797 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -10,17 +10,15 @@ import (
 
 func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var bts [][]byte
-	var err error
 	for _, cmder := range cmds {
 		cmd := cmder.(*redis.StringCmd)
 		bytes, err := cmd.Bytes()
 		if err != nil {
-			goto EXT
+			return bts, err
 		}
 		bts = append(bts, bytes)
 	}
-EXT:
-	return bts, err
+	return bts, nil
 }
 
 type spanTag struct {
-- 
2.43.0


From 0321c97035a332a4c1cedacf5abd838d906600d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 22/28] fix: truncate the file before writing JSON to it

---
 utils/file/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file/file.go b/utils/file/file.go
index 022f103..b216e67 100644
--- a/utils/file/file.go
+++ b/utils/file/file.go
@@ -74,7 +74,7 @@ func SaveFile(dat []byte, fileName string) error {
 
 // WriteJSON 保存json文件
 func WriteJSON(path string, jsonByte []byte) {
-	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0755)
+	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	if err != nil {
 		log.Fatal(err)
 		return
-- 
2.43.0


From f5b6c4abb2d5e978d629775c5c8471dd795e517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 23/28] fix: timers without an interval, or stopped before they
 start, do not crash the node

---
 core/actor/actor_runtime_impl.go | 28 +++++++++++++++++++++++-----
 core/actor/actor_timer.go        | 12 ++++++++----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..e5ee4f3 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -104,18 +104,36 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 	go func() {
 		//defer a.timerWg.Done()
 
+		fire := func() {
+			if !info.IsActive() {
+				return
+			}
+			select {
+			case a.timerChan <- info:
+			case <-a.shutdownCh:
+			}
+		}
+
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
 		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
+			select {
+			case <-time.After(info.dueTime):
+				fire()
+			case <-a.shutdownCh:
+				return
+			}
+		} else if info.interval <= 0 {
+			fire() // once, immediately
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		if info.interval > 0 && info.IsActive() {
+			info.ticker.Reset(info.interval)
+		}
 
 		for {
 			select {
 			case <-info.ticker.C:
-				a.timerChan <- info
+				fire()
 			case <-a.shutdownCh:
 				return
 			}
@@ -303,7 +321,7 @@ func (a *Runtime) update() {
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
 			func() {
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..dee0a3b 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -19,10 +19,9 @@ type TimerInfo struct {
 }
 
 func (t *TimerInfo) Stop() bool {
-	if !t.active.Load() {
+	if !t.active.CompareAndSwap(true, false) {
 		return false
 	}
-	t.active.Store(false)
 	t.ticker.Stop()
 
 	return true
@@ -30,8 +29,8 @@ func (t *TimerInfo) Stop() bool {
 
 func (t *TimerInfo) Reset(interval time.Duration) bool {
 	if interval > 0 {
-		// 如果 interval 和 t.interval 相同，则不处理
-		if t.interval == interval {
+		// 如果 interval 和 t.interval 相同且仍在运行，则不处理
+		if t.interval == interval && t.active.Load() {
 			return true
 		}
 		t.interval = interval
@@ -76,6 +75,11 @@ func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) er
 	}
 	t.active.Store(true)
 
+	// the ticker exists from the start, so that Stop and Reset are safe at any
+	// time; it only runs once the timer has been started or reset
+	t.ticker = time.NewTicker(time.Hour)
+	t.ticker.Stop()
+
 	if dueTime != 0 {
 		t.nextTick.Store(time.Now().Add(dueTime))
 	} else {
-- 
2.43.0


From ee36979679647f8eb0ecbaefe8492be0886e199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 24/28] fix: an error with an empty message is not success

---
 lib/errcode/errcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/errcode/errcode.go b/lib/errcode/errcode.go
index f1d93d5..39fd473 100644
--- a/lib/errcode/errcode.go
+++ b/lib/errcode/errcode.go
@@ -86,7 +86,8 @@ func Cause(e error) Codes {
 	if ok {
 		return ec
 	}
-	return String(e.Error())
+	// an error without text is still an error
+	return Code{-1, e.Error(), ""}
 }
 
 // Equal equal a and b by code int.
-- 
2.43.0


From 80dece574b91153f1a9912704781855019c1e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:53 +0000
Subject: [PATCH 25/28] fix: read the backlog length under the lock

---
 lib/unbounded/unbounded.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/unbounded/unbounded.go b/lib/unbounded/unbounded.go
index 0f25c16..6e458b2 100644
--- a/lib/unbounded/unbounded.go
+++ b/lib/unbounded/unbounded.go
@@ -53,5 +53,7 @@ func (b *Unbounded) Get() <-chan interface{} {
 }
 
 func (b *Unbounded) Len() int {
+	b.Lock()
+	defer b.Unlock()
 	return len(b.backlog)
 }
-- 
2.43.0


From 3c31f974f7ef8196c86ebb7c4a1cbaec1d70f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:57 +0000
Subject: [PATCH 26/28] fix: an actor told to exit finishes the message it is
 handling before it reports closed

---
 core/actor/actor_runtime_impl.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index e5ee4f3..043f1e7 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -296,28 +296,22 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 }
 
 func (a *Runtime) update() {
-	checkClose := func() {
-		timeout := time.After(10 * time.Second)
-		ticker := time.NewTicker(10 * time.Millisecond)
-		defer ticker.Stop()
-
-		for !a.q.Empty() || !a.reenterQueue.Empty() {
-			select {
-			case <-timeout:
-				log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
-				goto ForceClose
-			case <-ticker.C:
-				continue
-			}
-		}
-
-	ForceClose:
+	finish := func() {
 		if atomic.CompareAndSwapInt32(&a.closed, 1, 2) {
 			log.InfoF("[braid.actor] %s closing channel", a.Id)
 			close(a.closeCh)
 		}
 	}
 
+	checkClose := func() {
+		select {
+		case <-time.After(10 * time.Second):
+			log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
+			finish()
+		case <-a.closeCh:
+		}
+	}
+
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
@@ -374,6 +368,12 @@ func (a *Runtime) update() {
 				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
 				go checkClose()
 			}
+
+			// No message is being handled here, so once the queues are empty
+			// everything that was accepted has been finished
+			if a.q.Empty() && a.reenterQueue.Empty() {
+				finish()
+			}
 		case <-a.closeCh:
 			log.DebugF("[braid.actor] %s exiting closed", a.Id)
 			return
-- 
2.43.0


From 01b2bc91261cf8f727270330128f40897740d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:08 +0000
Subject: [PATCH 27/28] fix: a message accepted while the actor closes is not
 lost

---
 core/actor/actor_runtime_impl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 043f1e7..6fbc217 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -29,6 +29,7 @@ type Runtime struct {
 	q            *mpsc.Queue
 	reenterQueue *mpsc.Queue
 	closed       int32
+	receiving    int32
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	chains       map[string]core.IChain
@@ -195,6 +196,10 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	// The actor does not end while a message is being accepted
+	atomic.AddInt32(&a.receiving, 1)
+	defer atomic.AddInt32(&a.receiving, -1)
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -369,9 +374,9 @@ func (a *Runtime) update() {
 				go checkClose()
 			}
 
-			// No message is being handled here, so once the queues are empty
-			// everything that was accepted has been finished
-			if a.q.Empty() && a.reenterQueue.Empty() {
+			// No message is being handled here, so once none is being accepted
+			// and the queues are empty everything accepted has been finished
+			if atomic.LoadInt32(&a.receiving) == 0 && a.q.Empty() && a.reenterQueue.Empty() {
 				finish()
 			}
 		case <-a.closeCh:
-- 
2.43.0


From f842a67872bebc0d36bfc04f0688d83144d39448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:52 +0000
Subject: [PATCH 28/28] fix: the shutdown limit covers stopping the acceptor
 and the actors

---
 core/node/node_process_impl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/node/node_process_impl.go b/core/node/node_process_impl.go
index 57724aa..8083d09 100644
--- a/core/node/node_process_impl.go
+++ b/core/node/node_process_impl.go
@@ -67,14 +67,14 @@ func (pn *process) WaitClose() {
 	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
 	defer cancel()
 
-	// Call the system's shutdown method with the WaitGroup
-	pn.sys.Exit(&wg)
-
 	// Create a channel to signal when all actors have finished
 	done := make(chan struct{})
 
-	// Wait for all actors to finish their cleanup in a goroutine
+	// Shut the system down and wait for all actors to finish their cleanup in
+	// a goroutine, so that the timeout covers all of it
 	go func() {
+		// Call the system's shutdown method with the WaitGroup
+		pn.sys.Exit(&wg)
 		wg.Wait()
 		close(done)
 	}()
-- 
2.43.0

