From 559ab51a745459c1b10fb8402d710d5d8470c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 01/42] fix: keep a session that was taken over when its
 previous client is removed

The disconnect actions of the old client removed the session based on the
expiry settings of the new client, leaving the new client connected without
a registered session.
---
 threaddata.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..c0ac479 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,13 +437,15 @@ void ThreadData::clientDisconnectActions(
         store->queueOrSendWillMessage(willPublish, session);
     }
 
-    if (session && session->getDestroyOnDisconnect())
-    {
-        store->removeSession(session);
-    }
-    else
+    const bool destroyOnDisconnect = session && session->getDestroyOnDisconnect();
+
+    // When another client has taken over the session, its fate is no longer ours to decide.
+    if (session && !session->hasActiveClient())
     {
-        store->queueSessionRemoval(session);
+        if (destroyOnDisconnect)
+            store->removeSession(session);
+        else
+            store->queueSessionRemoval(session);
     }
 
     if (authenticated)
-- 
2.43.0


From a5e5a6f3ed99a1894c8cc7f8d430abcb1f7e045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 02/42] fix: apply the filters of a SUBSCRIBE in the order they
 were given

---
 mqttpacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..6eb9b2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From a16891817aa75061e10110de35f76f63511dcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 03/42] fix: set the DUP flag on messages that are sent again

---
 client.cpp         |  5 ++++-
 client.h           |  2 +-
 qospacketqueue.cpp |  4 +++-
 qospacketqueue.h   |  6 +++++-
 session.cpp        | 13 ++++++++-----
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..51dcdca 100644
--- a/client.cpp
+++ b/client.cpp
@@ -433,7 +433,7 @@ PacketDropReason Client::writeMqttPacket(const MqttPacket &packet)
 
 PacketDropReason Client::writeMqttPacketAndBlameThisClient(
     PublishCopyFactory &copyFactory, uint8_t max_qos, uint16_t packet_id, bool retain, uint32_t subscriptionIdentifier,
-    const std::optional<std::string> &topic_override)
+    const std::optional<std::string> &topic_override, bool duplicate)
 {
     assert(max_qos == 0 || packet_id > 0);
 
@@ -487,6 +487,9 @@ PacketDropReason Client::writeMqttPacketAndBlameThisClient(
         // that should be fine.
         p->setPacketId(packet_id);
         p->setQos(copyFactory.getEffectiveQos(max_qos));
+
+        if (duplicate)
+            p->setDuplicate();
     }
 
     p->setRetain(retain);
diff --git a/client.h b/client.h
index a27230b..e55c683 100644
--- a/client.h
+++ b/client.h
@@ -243,7 +243,7 @@ public:
     PacketDropReason writeMqttPacket(const MqttPacket &packet);
     PacketDropReason writeMqttPacketAndBlameThisClient(
         PublishCopyFactory &copyFactory, uint8_t max_qos, uint16_t packet_id, bool retain, uint32_t subscriptionIdentifier,
-        const std::optional<std::string> &topic_override);
+        const std::optional<std::string> &topic_override, bool duplicate = false);
     PacketDropReason writeMqttPacketAndBlameThisClient(const MqttPacket &packet);
     void writeBufIntoFd();
     DisconnectStage getDisconnectStage() const { return disconnectStage; }
diff --git a/qospacketqueue.cpp b/qospacketqueue.cpp
index 61981d8..62ac96b 100644
--- a/qospacketqueue.cpp
+++ b/qospacketqueue.cpp
@@ -177,13 +177,15 @@ void QoSPublishQueue::subtractQoSBytes(const QueuedPublish *p)
  */
 void QoSPublishQueue::queuePublish(
     PublishCopyFactory &copyFactory, uint16_t id, uint8_t new_max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier,
-    const std::optional<std::string> &topic_override)
+    const std::optional<std::string> &topic_override, bool sendAttempted)
 {
     assert(new_max_qos > 0);
     assert(id > 0);
 
     Publish pub = copyFactory.getNewPublish(new_max_qos, retainAsPublished, subscriptionIdentifier);
     std::shared_ptr<QueuedPublish> qp = std::make_shared<QueuedPublish>(std::move(pub), id, topic_override);
+    if (sendAttempted)
+        qp->setSendAttempted();
     addToHeadOfLinkedList(qp);
     qosQueueBytes += qp->getApproximateMemoryFootprint();
     addToExpirationQueue(qp);
diff --git a/qospacketqueue.h b/qospacketqueue.h
index bb4e272..2920a0a 100644
--- a/qospacketqueue.h
+++ b/qospacketqueue.h
@@ -28,6 +28,8 @@ class QueuedPublish
 
     // We store this separately because because we need to retain the original publish path for ACL checking upon resending.
     std::optional<std::string> topic_override;
+
+    bool sendAttempted = false;
 public:
     QueuedPublish(Publish &&publish, uint16_t packet_id, const std::optional<std::string> &topic_override);
     QueuedPublish(const QueuedPublish &other) = delete;
@@ -43,6 +45,8 @@ public:
     uint16_t getPacketId() const;
     Publish &getPublish();
     const std::optional<std::string> &getTopicOverride() const;
+    bool getSendAttempted() const { return sendAttempted; }
+    void setSendAttempted() { sendAttempted = true; }
 };
 
 class QoSPublishQueue
@@ -76,7 +80,7 @@ public:
     size_t getByteSize() const;
     void queuePublish(
         PublishCopyFactory &copyFactory, uint16_t id, uint8_t new_max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier,
-        const std::optional<std::string> &topic_override);
+        const std::optional<std::string> &topic_override, bool sendAttempted);
     void queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override);
     std::vector<uint16_t> clearExpiredMessages();
     const std::shared_ptr<QueuedPublish> &getTail() const;
diff --git a/session.cpp b/session.cpp
index 29310b8..4950f15 100644
--- a/session.cpp
+++ b/session.cpp
@@ -291,7 +291,7 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         }
 
         if (!destroyOnDisconnect)
-            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);
+            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override, c.operator bool());
     }
 
     if (!c)
@@ -354,7 +354,7 @@ void Session::sendAllPendingQosData()
     std::shared_ptr<Client> c = makeSharedClient();
     if (c)
     {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t>> copiedPublishes;
+        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t, bool>> copiedPublishes;
         std::vector<uint16_t> copiedQoS2Ids;
 
         {
@@ -385,7 +385,8 @@ void Session::sendAllPendingQosData()
 
                 qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());
+                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId(), qp->getSendAttempted());
+                qp->setSendAttempted();
             }
 
             for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
@@ -394,12 +395,14 @@ void Session::sendAllPendingQosData()
             }
         }
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t> &p : copiedPublishes)
+        for(std::tuple<Publish, std::optional<std::string>, uint16_t, bool> &p : copiedPublishes)
         {
             Publish &pub = std::get<Publish>(p);
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            // [MQTT-3.3.1-1] The DUP flag is set when this is not the first attempt at sending it.
+            c->writeMqttPacketAndBlameThisClient(
+                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
         }
 
         for(uint16_t id : copiedQoS2Ids)
-- 
2.43.0


From c5c0d53978a1b1dd070e9adf4efa4232b39c264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 04/42] fix: free the packet id of a denied MQTT5 QoS 2 publish

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6eb9b2b..68704ef 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2328,6 +2328,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // With MQTT5, the error in the PUBREC ends the handshake, and the next use of the packet ID is a new message.
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From a83cc72d3ff06b8e60846b128ce0f0f97e6989de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 05/42] fix: queue wills and retained messages with their
 subscription identifier

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 04e06319d654afa3530ac0ab371736eddf4116bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 06/42] fix: ignore stray and repeated acknowledgements for
 flow control

---
 mqttpacket.cpp |  4 +++-
 session.cpp    | 19 +++++++++++++------
 session.h      |  1 +
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 68704ef..309e6c4 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2419,7 +2419,9 @@ void MqttPacket::handlePubRec(std::shared_ptr<Client> &sender)
     // that contains that Packet Identifier as being a new Application Message."
     if (!publishTerminatesHere)
     {
-        sender->getSession()->addOutgoingQoS2MessageId(packet_id);
+        // A repeated or unknown PUBREC doesn't start a handshake that would give back a slot when it ends.
+        if (foundAndRemoved)
+            sender->getSession()->addOutgoingQoS2MessageId(packet_id);
 
         // MQTT5: "[The sender] MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code value less than 0x80"
         const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;
diff --git a/session.cpp b/session.cpp
index 4950f15..fd5ded4 100644
--- a/session.cpp
+++ b/session.cpp
@@ -67,6 +67,14 @@ bool Session::QoSData::eraseQueuedPublish(const uint16_t packet_id)
     return qosPacketQueue.erase(packet_id);
 }
 
+/**
+ * @brief Whether the packet ID belongs to a publish that the other side has not yet acknowledged in any way.
+ */
+bool Session::QoSData::publishInTransit(const uint16_t packet_id) const
+{
+    return usedIds.contains(packet_id) && outgoingQoS2MessageIds.find(packet_id) == outgoingQoS2MessageIds.end();
+}
+
 std::shared_ptr<QueuedPublish> Session::QoSData::getQoSQueueTail()
 {
     return qosPacketQueue.getTail();
@@ -318,12 +326,11 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
     if (logger->wouldLog(LOG_PUBLISH))
         logger->logf(LOG_PUBLISH, "Clearing QoS message for '%s', packet id '%d'. Left in queue: %d", client_id.c_str(), packet_id, qos_locked->getQueuedCount());
 
-    if (!destroyOnDisconnect)
-        result = qos_locked->eraseQueuedPublish(packet_id);
-    else
-    {
-        result = true;
-    }
+    result = qos_locked->eraseQueuedPublish(packet_id);
+
+    // Nothing is queued for sessions that don't outlive their connection, so go by what is still waiting for an ack.
+    if (!result && destroyOnDisconnect)
+        result = qos_locked->publishInTransit(packet_id);
 
     if (qosHandshakeEnds && result)
     {
diff --git a/session.h b/session.h
index 6dbcbac..1f3657b 100644
--- a/session.h
+++ b/session.h
@@ -68,6 +68,7 @@ class Session
         size_t getQueuedByteSize() const;
         size_t getQueuedCount() const;
         bool eraseQueuedPublish(const uint16_t packet_id);
+        bool publishInTransit(const uint16_t packet_id) const;
         std::shared_ptr<QueuedPublish> getQoSQueueTail();
         void markQoSLogPrinted();
         bool currentPackedIdLogPrinted() const;
-- 
2.43.0


From a318ad5c0e5348f4227405792d110fdbbd3e2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 07/42] fix: set deferred retained messages in the order they
 were published

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c0ac479..082da3f 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -629,7 +629,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From c3655a9893c6324a13319bf6129d0cf0be7d5529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 08/42] fix: don't let clients set retained messages on dollar
 topics

---
 subscriptionstore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..dbfa282 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -419,7 +419,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
         // because a client cannot get its own will.
         queuePacketAtSubscribers(factory, will->client_id, {});
 
-        if (will->retain && authResult == AuthResult::success)
+        if (will->retain && authResult == AuthResult::success && will->topic[0] != '$')
             setRetainedMessage(*will, will->getSubtopics());
     }
 }
@@ -931,6 +931,10 @@ void SubscriptionStore::giveClientRetainedMessages(const std::shared_ptr<Session
  */
 void SubscriptionStore::trySetRetainedMessages(const Publish &publish, const std::vector<std::string> &subtopics)
 {
+    // As with routing: only the FlashMQ internals are allowed to set anything on dollar topics.
+    if (publish.topic[0] == '$')
+        return;
+
     const Settings *settings = ThreadGlobals::getSettings();
     const bool try_lock_fail = settings->setRetainedMessageDeferTimeout.count() != 0;
 
-- 
2.43.0


From ba54645ca36be9ff3bd7e869b4317769795cdaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 09/42] fix: let a session live for its expiry interval since
 its latest disconnect

---
 session.cpp           | 11 ++++++++++-
 session.h             |  4 +++-
 subscriptionstore.cpp |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/session.cpp b/session.cpp
index fd5ded4..42dc624 100644
--- a/session.cpp
+++ b/session.cpp
@@ -568,12 +568,21 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     this->sessionExpiryInterval = newVal;
 }
 
-void Session::setQueuedRemovalAt()
+void Session::setQueuedRemovalAt(std::chrono::seconds slot)
 {
     this->removalQueuedAt = std::chrono::steady_clock::now();
+    this->removalSlot = slot;
     this->removalQueued = true;
 }
 
+/**
+ * @brief A session can be in the queue for removal several times, when it was picked up and left again. Only the latest counts.
+ */
+bool Session::removalDueInSlot(std::chrono::seconds slot)
+{
+    return this->removalQueued && this->removalSlot == slot && !hasActiveClient();
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index 1f3657b..cc3f305 100644
--- a/session.h
+++ b/session.h
@@ -110,6 +110,7 @@ class Session
     bool removalQueued = false;
     ClientType clientType = ClientType::Normal;
     std::chrono::time_point<std::chrono::steady_clock> removalQueuedAt;
+    std::chrono::seconds removalSlot {};
     Logger *logger = Logger::getInstance();
 
     Session(const Session &other) = delete;
@@ -149,7 +150,8 @@ public:
 
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
-    void setQueuedRemovalAt();
+    void setQueuedRemovalAt(std::chrono::seconds slot);
+    bool removalDueInSlot(std::chrono::seconds slot);
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index dbfa282..c0558e1 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1302,7 +1302,7 @@ void SubscriptionStore::removeExpiredSessionsClients()
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
                 // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                if (lockedSession && lockedSession->removalDueInSlot(removeAt))
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1446,9 +1446,9 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
 
     std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
     std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
-    session->setQueuedRemovalAt();
 
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
+    session->setQueuedRemovalAt(secondsSinceEpoch);
     queuedSessionRemovals[secondsSinceEpoch].push_back(session);
 }
 
-- 
2.43.0


From 28cb42e80ceace360f7572433fb75da36b8da82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 10/42] fix: don't void the will of a new connection when
 sending the will of the previous one

---
 client.cpp            |  6 +++---
 lockedsharedptr.h     | 13 +++++++++++++
 session.cpp           |  8 ++++++--
 session.h             |  2 +-
 subscriptionstore.cpp |  2 +-
 5 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/client.cpp b/client.cpp
index 51dcdca..d201fa6 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1220,11 +1220,11 @@ const std::optional<std::string> &Client::getRemotePrefix() const
 
 void Client::clearWill()
 {
+    if (session)
+        session->clearWill(willPublish);
+
     willPublish.reset();
     stagedWillPublish.reset();
-
-    if (session)
-        session->clearWill();
 }
 
 std::string Client::getClientIdOrPrefix() const
diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..0d3470f 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,19 @@ public:
         p.reset();
     }
 
+    /**
+     * @brief Resets only when the pointer still is the one given.
+     * @return whether it was.
+     */
+    bool resetIfEqual(const std::shared_ptr<T> &val)
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p != val)
+            return false;
+        p.reset();
+        return true;
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index 42dc624..2942b64 100644
--- a/session.cpp
+++ b/session.cpp
@@ -426,9 +426,13 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
-void Session::clearWill()
+/**
+ * @brief Session::clearWill clears the will, unless it's been replaced by the will of another connection.
+ * @return whether it was there to be cleared.
+ */
+bool Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.reset();
+    return this->willPublish.resetIfEqual(will);
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index cc3f305..c9778ce 100644
--- a/session.h
+++ b/session.h
@@ -131,7 +131,7 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData();
     bool hasActiveClient();
-    void clearWill();
+    bool clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c0558e1..7432c46 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -399,7 +399,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From c86cfd5a351f5167c9660382a72d28032c00e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 11/42] fix: start the expiry interval of a will when it's
 published

---
 subscriptionstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 7432c46..63ab915 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -413,6 +413,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
+        // The lifetime of the will message starts when it's published.
+        if (will->expireInfo)
+            will->expireInfo->createdAt = std::chrono::steady_clock::now();
+
         PublishCopyFactory factory(will.get());
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
-- 
2.43.0


From e438b7d1a3859f63d59400bb3f41af11888fa48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 12/42] fix: send the delayed will of a session that is
 replaced by a new one

---
 subscriptionstore.cpp | 23 +++++++++++++++++++++++
 subscriptionstore.h   |  1 +
 threaddata.cpp        |  1 +
 types.h               |  1 +
 4 files changed, 26 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 63ab915..c7c7eb3 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -327,6 +327,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> replacedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -362,6 +363,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
+            replacedSession = std::move(session);
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
             sessionsById[client->getClientId()] = session;
@@ -369,6 +371,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
     }
 
     session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+    sendWillOfReplacedSession(replacedSession);
 }
 
 /**
@@ -463,6 +466,10 @@ void SubscriptionStore::sendQueuedWillMessages()
             if (s && s->hasActiveClient())
                 continue;
 
+            // Someone else may just have sent it, because the session ended.
+            if (!s || !s->clearWill(p))
+                continue;
+
             sendWill(p, s, "Sending delayed will on topic: ");
         }
 
@@ -470,6 +477,22 @@ void SubscriptionStore::sendQueuedWillMessages()
     }
 }
 
+/**
+ * @brief SubscriptionStore::sendWillOfReplacedSession sends the delayed will of a session that ended because a new session took its place.
+ *
+ * A will delay doesn't outlive its session.
+ */
+void SubscriptionStore::sendWillOfReplacedSession(const std::shared_ptr<Session> &session)
+{
+    if (!session || lockSession(session->getClientId()) == session)
+        return;
+
+    std::shared_ptr<WillPublish> will = session->getWill();
+
+    if (will && will->getIsQueued() && session->clearWill(will))
+        sendWill(will, session, "Sending will of replaced session on topic: ");
+}
+
 void SubscriptionStore::queueOrSendWillMessage(
     const std::shared_ptr<WillPublish> &willMessage, const std::shared_ptr<Session> &session, bool forceNow)
 {
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..5955f3d 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -217,6 +217,7 @@ public:
     std::shared_ptr<Session> lockSession(const std::string &clientid);
 
     void sendQueuedWillMessages();
+    void sendWillOfReplacedSession(const std::shared_ptr<Session> &session);
     void queueOrSendWillMessage(
         const std::shared_ptr<WillPublish> &willMessage, const std::shared_ptr<Session> &session, bool forceNow = false);
     void queueWillMessage(const std::shared_ptr<WillPublish> &willMessage, const std::shared_ptr<Session> &session);
diff --git a/threaddata.cpp b/threaddata.cpp
index 082da3f..57d13ea 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -435,6 +435,7 @@ void ThreadData::clientDisconnectActions(
     if (willPublish)
     {
         store->queueOrSendWillMessage(willPublish, session);
+        store->sendWillOfReplacedSession(session);
     }
 
     const bool destroyOnDisconnect = session && session->getDestroyOnDisconnect();
diff --git a/types.h b/types.h
index 1044692..065fe6c 100644
--- a/types.h
+++ b/types.h
@@ -293,6 +293,7 @@ public:
     WillPublish(const Publish &other);
     void setQueuedAt();
     uint32_t getQueuedAtAge() const;
+    bool getIsQueued() const { return isQueued; }
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
 
-- 
2.43.0


From 70977d8a5c0a1c68eec4fea3117249278178aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 13/42] fix: treat messages too large for the client as
 completed [MQTT-3.1.2-25]

---
 session.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index 2942b64..1d5f33c 100644
--- a/session.cpp
+++ b/session.cpp
@@ -308,7 +308,13 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    if (pack_id && dropReason == PacketDropReason::BiggerThanPacketLimit)
+        clearQosMessage(*pack_id, true);
+
+    return dropReason;
 }
 
 /**
@@ -408,8 +414,11 @@ void Session::sendAllPendingQosData()
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
             // [MQTT-3.3.1-1] The DUP flag is set when this is not the first attempt at sending it.
-            c->writeMqttPacketAndBlameThisClient(
+            const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
                 fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
+
+            if (dropReason == PacketDropReason::BiggerThanPacketLimit)
+                clearQosMessage(std::get<uint16_t>(p), true);
         }
 
         for(uint16_t id : copiedQoS2Ids)
-- 
2.43.0


From 18c8aad0b1ce4088c852e86e6aa002ff09371025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 14/42] fix: load sessions with queued messages that have a
 subscription identifier

---
 mqttpacket.cpp                 | 17 +++++++++++------
 mqttpacket.h                   |  2 +-
 sessionsandsubscriptionsdb.cpp |  2 +-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 309e6c4..3a7754c 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2027,7 +2027,7 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk)
 {
     assert(externallyReceived);
 
@@ -2154,13 +2154,18 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
                 dontReuseBites = true;
 
 #ifndef TESTING
-                if (sender->getClientType() != ClientType::LocalBridge)
+                if (!fromDisk && sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
+#endif
+
+                const uint32_t subscription_identifier = decodeVariableByteIntAtPos();
+
+                // Otherwise we don't store it, because it should not propagate.
+                if (fromDisk)
+                    publishData.subscriptionIdentifier = subscription_identifier;
 
-                // We don't store it, because it should not propagate.
-                decodeVariableByteIntAtPos();
-#else
-                publishData.subscriptionIdentifierTesting = decodeVariableByteIntAtPos();
+#ifdef TESTING
+                publishData.subscriptionIdentifierTesting = subscription_identifier;
 #endif
 
                 break;
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..eca4e86 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -151,7 +151,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk = false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..0e85980 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
-- 
2.43.0


From f8b185252cb4d6c4be2905414180baad17e2dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 15/42] fix: keep packet ids of loaded messages in use

---
 session.cpp                    | 18 ++++++++++++++++++
 session.h                      |  1 +
 sessionsandsubscriptionsdb.cpp |  8 +++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index 1d5f33c..19e52c6 100644
--- a/session.cpp
+++ b/session.cpp
@@ -165,6 +165,24 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+/**
+ * @brief The packet IDs of what was loaded from disk are in use and take their place in the flow control.
+ */
+void Session::QoSData::claimLoadedPacketIds()
+{
+    auto claim = [this](const uint16_t id) {
+        usedIds.insert(id);
+        if (flowControlQuota > 0)
+            flowControlQuota--;
+    };
+
+    for (std::shared_ptr<QueuedPublish> qp = qosPacketQueue.getTail(); qp; qp = qp->next.lock())
+        claim(qp->getPacketId());
+
+    for (const uint16_t id : outgoingQoS2MessageIds)
+        claim(id);
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
diff --git a/session.h b/session.h
index c9778ce..6d82fa5 100644
--- a/session.h
+++ b/session.h
@@ -81,6 +81,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        void claimLoadedPacketIds();
     };
 
     friend class SessionsAndSubscriptionsDB;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0e85980..919c8b9 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -230,7 +230,13 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
             // We will set the session expiry interval as it would have had time continued. If a connection picks up session, it will update
             // it with a more relevant value.
             // The protocol version 5 is just dummy, to get the behavior I want.
-            ses->setSessionProperties(0xFFFF, sessionExpiryInterval, 0, ProtocolVersion::Mqtt5);
+            ses->setSessionProperties(settings.maxQosMsgPendingPerClient, sessionExpiryInterval, 0, ProtocolVersion::Mqtt5);
+
+            // Setting the properties resets the flow control, so this comes after.
+            {
+                MutexLocked<Session::QoSData> qos_locked = ses->qos.lock();
+                qos_locked->claimLoadedPacketIds();
+            }
 
             const uint16_t hasWill = readUint16(eofFound);
 
-- 
2.43.0


From 1baa83b2b1a5def6cff7b817c765297b229be3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 16/42] fix: don't count the age of saved messages twice
 towards their expiry

---
 retainedmessagesdb.cpp         | 7 +++----
 sessionsandsubscriptionsdb.cpp | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..3d0259d 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -194,12 +194,10 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         to_read_count--;
 
         const uint16_t fixed_header_length = readUint16(eofFound);
-        uint32_t originalPubAge = 0;
         if (readVersion >= ReadVersion::v4)
         {
-            originalPubAge = readUint32(eofFound);
+            readUint32(eofFound); // Original age of publish.
         }
-        const uint32_t newPubAge = persistence_state_age + originalPubAge;
         const uint32_t packlen = readUint32(eofFound);
 
         const std::string client_id = readString(eofFound);
@@ -221,8 +219,9 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         pub.client_id = client_id;
         pub.username = username;
 
+        // The expiry interval was written as what was left of it at the time of saving, so don't count the original age again.
         if (pub.expireInfo)
-            pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);
+            pub.expireInfo.value().createdAt = timepointFromAge(persistence_state_age);
 
         RetainedMessage msg(pub);
         if (logger->wouldLog(LOG_DEBUG))
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 919c8b9..d5f6c3a 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -164,7 +164,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 {
                     const uint16_t fixed_header_length = readUint16(eofFound);
                     const uint16_t id = readUint16(eofFound);
-                    const uint32_t originalPubAge = readUint32(eofFound);
+                    readUint32(eofFound); // Original age of publish.
                     const uint32_t packlen = readUint32(eofFound);
                     const std::string sender_clientid = readString(eofFound);
                     const std::string sender_username = readString(eofFound);
@@ -188,9 +188,9 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     pub.client_id = sender_clientid;
                     pub.username = sender_username;
 
-                    const uint32_t newPubAge = persistence_state_age + originalPubAge;
+                    // The expiry interval was written as what was left of it at the time of saving, so don't count the original age again.
                     if (pub.expireInfo)
-                        pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                        pub.expireInfo->createdAt = timepointFromAge(persistence_state_age);
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-- 
2.43.0


From 383346ac992b38e6cac8be2968ef69f1921071ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 17/42] fix: check write permission, not read, when registering
 a will with an ACL file

---
 plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index cc678da..92f18b7 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -894,7 +894,8 @@ AuthResult Authentication::aclCheckFromMosquittoAclFile(const std::string &clien
     if (access == AclAccess::subscribe)
         return AuthResult::success;
 
-    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;
+    // A will is a publish, so being allowed to register it depends on being allowed to write.
+    AclGrant ag = access == AclAccess::write || access == AclAccess::register_will ? AclGrant::Write : AclGrant::Read;
     AuthResult result = aclTree.findPermission(subtopics, ag, username, clientid);
     return result;
 }
-- 
2.43.0


From 692c8454eea95302f9b1ff0e5d23dc0d9342f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 18/42] fix: reject UTF-8 with code points above U+10FFFF

---
 threadlocalutils.cpp | 3 +++
 utils.h              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..6b76888 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -142,6 +142,9 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             else if (total_char_len == 4 && cur_code_point < 0x10000)
                 return false;
 
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
                 return false;
 
diff --git a/utils.h b/utils.h
index 2de4ab5..fa5c89d 100644
--- a/utils.h
+++ b/utils.h
@@ -132,6 +132,9 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
             if (cur_code_point >= 0x007F && cur_code_point <= 0x009F)
                 return false;
 
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             if (total_char_len > 1)
             {
                 // Invalid range for MQTT. [MQTT-1.5.3-1]
-- 
2.43.0


From ec51bb433a7452c1c3909ac21575d24d632b18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 19/42] fix: reject control characters in front of multi-byte
 characters in topics

---
 threadlocalutils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index 6b76888..a5a5994 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -96,6 +96,13 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         // have a minimum of multi byte chars.
         if (index < 16)
         {
+            // The ASCII characters in front of it still need the check for control characters.
+            for (int j = n - index; j < n; j++)
+            {
+                if (i[j] < 0x20 || i[j] == 0x7F)
+                    return false;
+            }
+
             uint8_t x = i[n++];
             int8_t char_len_left = 0;
             int8_t total_char_len = 0;
-- 
2.43.0


From 1c6edfcf124cbd2a056abd99145829711cfe624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 20/42] fix: reject invalid subscription options

---
 mqttpacket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 3a7754c..77346aa 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1792,8 +1792,14 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
             throw ProtocolError("QoS value in subscribe is higher than 2", ReasonCodes::MalformedPacket);
         }
 
+        if (qos_byte & 0xC0)
+            throw ProtocolError("Reserved bits in the subscription options are not 0.", ReasonCodes::MalformedPacket);
+
         const SubscriptionOptionsByte options(qos_byte);
 
+        if (options.getRetainHandling() > RetainHandling::DoNotSendRetainedMessages)
+            throw ProtocolError("Invalid retain handling in the subscription options.", ReasonCodes::ProtocolError);
+
         uint8_t qos = options.getQos();
 
         const bool mqtt3bridge = sender->getClientType() == ClientType::Mqtt3DefactoBridge;
-- 
2.43.0


From 0d9666c8b7eb1ea0d6228d9806c69ce8d79efc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 21/42] fix: keep checking for silence on connections that
 don't complete their connect

---
 threaddata.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 57d13ea..625ea46 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1291,7 +1291,7 @@ void ThreadData::doKeepAliveCheck()
                         {
                             clientsToRemove.push_back(client);
                         }
-                        else if (k.recheck)
+                        else if (k.recheck || !client->getAuthenticated())
                         {
                             clientsToRecheck.push_back(client);
                         }
@@ -1304,7 +1304,9 @@ void ThreadData::doKeepAliveCheck()
             for (std::shared_ptr<Client> &c : clientsToRecheck)
             {
                 c->resetBuffersIfEligible();
-                queueClientNextKeepAliveCheck(c, true);
+
+                // Incoming clients get their own repeating check when they log in.
+                queueClientNextKeepAliveCheck(c, c->getAuthenticated() || c->isOutgoingConnection());
             }
         }
 
-- 
2.43.0


From 225a268a05a30053c748c865927c0a7de8393ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 22/42] fix: don't deliver to sessions that have been replaced

After a clean start of a client that was still connected, the old session
remained in the subscription tree until the old client was really gone, so the
old client would still get messages, or take those of a shared subscription.
---
 session.cpp           | 17 +++++++++++++++++
 session.h             |  4 ++++
 sharedsubscribers.cpp |  6 +++---
 subscription.cpp      |  6 ++++++
 subscription.h        |  1 +
 subscriptionstore.cpp |  3 +++
 6 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/session.cpp b/session.cpp
index 19e52c6..b487435 100644
--- a/session.cpp
+++ b/session.cpp
@@ -240,6 +240,9 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
 
     assert(max_qos <= 2);
 
+    if (isReplaced())
+        return PacketDropReason::ClientOffline;
+
     const uint8_t effectiveQos = copyFactory.getEffectiveQos(max_qos);
     retainAsPublished = retainAsPublished || clientType == ClientType::Mqtt3DefactoBridge;
     bool effectiveRetain = copyFactory.getEffectiveRetain(retainAsPublished);
@@ -453,6 +456,20 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
+/**
+ * @brief Session::setReplaced marks the session as ended because another one took its place. The client may keep the object around for
+ * a short while, but nothing must be sent to it anymore.
+ */
+void Session::setReplaced()
+{
+    this->replaced = true;
+}
+
+bool Session::isReplaced() const
+{
+    return this->replaced;
+}
+
 /**
  * @brief Session::clearWill clears the will, unless it's been replaced by the will of another connection.
  * @return whether it was there to be cleared.
diff --git a/session.h b/session.h
index 6d82fa5..a7d7eac 100644
--- a/session.h
+++ b/session.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef SESSION_H
 #define SESSION_H
 
+#include <atomic>
 #include <memory>
 #include <list>
 #include <mutex>
@@ -107,6 +108,7 @@ class Session
 
     uint32_t sessionExpiryInterval = 0;
     bool destroyOnDisconnect = false;
+    std::atomic<bool> replaced = false;
     LockedSharedPtr<WillPublish> willPublish;
     bool removalQueued = false;
     ClientType clientType = ClientType::Normal;
@@ -132,6 +134,8 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData();
     bool hasActiveClient();
+    void setReplaced();
+    bool isReplaced() const;
     bool clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
diff --git a/sharedsubscribers.cpp b/sharedsubscribers.cpp
index 9b2e6dc..75dffb4 100644
--- a/sharedsubscribers.cpp
+++ b/sharedsubscribers.cpp
@@ -48,7 +48,7 @@ const Subscription *SharedSubscribers::getFirst() const
 
     for (const Subscription &s : members)
     {
-        if (!s.session.expired())
+        if (s.hasLiveSession())
         {
             result = &s;
             break;
@@ -67,7 +67,7 @@ const Subscription *SharedSubscribers::getNext()
         // This counter use is not thread safe / atomic, but it doesn't matter much.
         const Subscription &s = members[roundRobinCounter++ % members.size()];
 
-        if (!s.session.expired())
+        if (s.hasLiveSession())
         {
             result = &s;
             break;
@@ -90,7 +90,7 @@ const Subscription *SharedSubscribers::getNext(size_t hash) const
     {
         const Subscription &s = members[pos++ % members.size()];
 
-        if (!s.session.expired())
+        if (s.hasLiveSession())
         {
             result = &s;
             break;
diff --git a/subscription.cpp b/subscription.cpp
index a802f58..1b48c1e 100644
--- a/subscription.cpp
+++ b/subscription.cpp
@@ -37,3 +37,9 @@ void Subscription::reset()
     qos = 0;
 }
 
+
+bool Subscription::hasLiveSession() const
+{
+    const std::shared_ptr<Session> locked = session.lock();
+    return locked && !locked->isReplaced();
+}
diff --git a/subscription.h b/subscription.h
index e7c69eb..37c87fe 100644
--- a/subscription.h
+++ b/subscription.h
@@ -23,6 +23,7 @@ struct Subscription
     uint32_t subscriptionIdentifier = 0;
     bool operator==(const Subscription &rhs) const;
     void reset();
+    bool hasLiveSession() const;
 };
 
 #endif // SUBSCRIPTION_H
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c7c7eb3..15424f3 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -364,6 +364,9 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         {
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             replacedSession = std::move(session);
+            if (replacedSession)
+                replacedSession->setReplaced();
+
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
             sessionsById[client->getClientId()] = session;
-- 
2.43.0


From 9070a494237205e47718ae99d1f3aff961004b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 23/42] fix: don't see the subscription of a replaced session
 as existing

It made that a client starting clean and taking over a connection didn't get
retained messages when it asked for them to be sent at new subscriptions only.
---
 subscriptionstore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 15424f3..643b129 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -80,14 +80,14 @@ AddSubscriptionType SubscriptionNode::addSubscriber(
     if (shareName.empty())
     {
         Subscription &s = subscribers[client_id];
-        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;
+        result = s.session.lock() == subscriber ? AddSubscriptionType::ExistingSubscription : AddSubscriptionType::NewSubscription;
         s = sub;
     }
     else
     {
         SharedSubscribers &subscribers = sharedSubscribers.try_emplace(shareName, shareName, subscriber->getFmqClientGroupId()).first->second;
         Subscription &s = subscribers[client_id];
-        result = s.session.expired() ? AddSubscriptionType::NewSubscription : AddSubscriptionType::ExistingSubscription;
+        result = s.session.lock() == subscriber ? AddSubscriptionType::ExistingSubscription : AddSubscriptionType::NewSubscription;
         s = sub;
     }
 
-- 
2.43.0


From b23dd7868bb789e26f24796630656187a75cb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 24/42] fix: schedule the first keep-alive check by the
 client's keep-alive interval

---
 subscriptionstore.cpp | 2 --
 threaddata.cpp        | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 643b129..f402caa 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -323,8 +323,6 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 // Removes an existing client when it already exists [MQTT-3.1.4-2].
 void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client> &client, bool clean_start, uint16_t clientReceiveMax, uint32_t sessionExpiryInterval)
 {
-    ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(client, true);
-
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
     std::shared_ptr<Session> replacedSession;
diff --git a/threaddata.cpp b/threaddata.cpp
index 625ea46..c942d22 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -222,6 +222,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
+            queueClientNextKeepAliveCheck(client, true); // After setting authenticated, because before that, there's a fixed interval.
             client->getSession()->sendAllPendingQosData();
             client->handleAfterAsyncQueue(client);
         }
-- 
2.43.0


From 218ec310a47b7b989682dbd2fa1dbbcac321f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:05 +0000
Subject: [PATCH 25/42] fix: save wills with their full expiry interval

---
 sessionsandsubscriptionsdb.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index d5f6c3a..3927cd9 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -419,7 +419,12 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                // The lifetime of the will message starts when it's published, so none of it has passed yet.
+                WillPublish unpublishedWill = *will;
+                if (unpublishedWill.expireInfo)
+                    unpublishedWill.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, unpublishedWill);
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
-- 
2.43.0


From 4e57bc6b8ac954ef394282bfee96a5286c0eb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 26/42] fix: a malformed UNSUBSCRIBE no longer removes part of
 the subscriptions

The filters before the malformed one were already unsubscribed when the
error was found. With a session that is resumed later, those subscriptions
were silently gone.
---
 mqttpacket.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 77346aa..92b594d 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1996,11 +1996,22 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     int numberOfUnsubs = 0;
     std::shared_ptr<Session> session = sender->getSession();
 
+    struct Unsub
+    {
+        std::string topic;
+        std::vector<std::string> subtopics;
+        std::string shareName;
+        std::string topic_without_sharename;
+    };
+
+    // First read them all, so that an error halfway doesn't leave us with part of them unsubscribed.
+    std::vector<Unsub> unsubs;
+
     while (remainingAfterPos() > 0)
     {
         numberOfUnsubs++;
 
-        const std::string topic = readBytesToString(settings->maxStringLength);
+        std::string topic = readBytesToString(settings->maxStringLength);
 
         if (topic.empty())
             throw ProtocolError("Unsubscribe topic is empty.", ReasonCodes::MalformedPacket);
@@ -2013,13 +2024,18 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
         std::string topic_without_sharename = topic;
         parseSubscriptionShare(subtopics, shareName, topic_without_sharename);
 
-        globals->subscriptionStore->removeSubscription(session, subtopics, shareName);
+        unsubs.push_back({std::move(topic), std::move(subtopics), std::move(shareName), std::move(topic_without_sharename)});
+    }
+
+    for (const Unsub &unsub : unsubs)
+    {
+        globals->subscriptionStore->removeSubscription(session, unsub.subtopics, unsub.shareName);
 
         const Authentication &auth = ThreadGlobals::getThreadData()->authentication;
-        auth.onUnsubscribe(session, sender->getClientId(), sender->getUsername(), topic_without_sharename, subtopics, shareName, getUserProperties());
+        auth.onUnsubscribe(session, sender->getClientId(), sender->getUsername(), unsub.topic_without_sharename, unsub.subtopics, unsub.shareName, getUserProperties());
 
         if (logger->wouldLog(LOG_UNSUBSCRIBE))
-            logger->logf(LOG_UNSUBSCRIBE, "Client '%s' unsubscribed from '%s'", sender->repr().c_str(), topic.c_str());
+            logger->logf(LOG_UNSUBSCRIBE, "Client '%s' unsubscribed from '%s'", sender->repr().c_str(), unsub.topic.c_str());
     }
 
     // MQTT-3.10.3-2
-- 
2.43.0


From 7fd387d43c31374a8793573958e0f0458870be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 27/42] fix: websocket continuation frames of a fragmented
 message are accepted

---
 iowrapper.cpp | 8 ++++++++
 iowrapper.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..0403bd1 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -853,6 +853,14 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
             if (headerLength > websocketPendingBytes.usedBytes())
                 return nbytesRead;
 
+            // Fragmented messages: the first frame has the opcode, the rest continues it. Control frames can be in between. The stream of MQTT
+            // bytes doesn't care about message boundaries.
+            if (opcode == WebsocketOpcode::Binary || (opcode == WebsocketOpcode::Continuation && incompleteWebsocketRead.fragmentedMessage))
+            {
+                opcode = WebsocketOpcode::Binary;
+                incompleteWebsocketRead.fragmentedMessage = !(byte1 & 0b10000000);
+            }
+
             if (masked)
             {
                 for (int j = 0; j < 4; j++)
diff --git a/iowrapper.h b/iowrapper.h
index 62c4ac4..fa5b7e7 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -79,6 +79,7 @@ struct IncompleteWebsocketRead
     char maskingKey[4];
     unsigned int maskingKeyI = 0;
     WebsocketOpcode opcode;
+    bool fragmentedMessage = false; // Is about the message, so across frames. Not part of reset().
 
     void reset();
     bool sillWorkingOnFrame() const;
-- 
2.43.0


From c3b33c8f67e9303cd858664af834ae0bb35a1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 28/42] fix: a websocket client is no longer stuck when its
 read buffer is exactly full

---
 client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index d201fa6..9c2415d 100644
--- a/client.cpp
+++ b/client.cpp
@@ -334,7 +334,10 @@ DisconnectStage Client::readFdIntoBuffer()
 
         if (error == IoWrapResult::Interrupted)
             continue;
-        if (error == IoWrapResult::Wouldblock || error == IoWrapResult::Disconnected)
+        if (error == IoWrapResult::Disconnected)
+            break;
+        // With websockets, bytes can come with 'would block', and those may have filled the buffer exactly.
+        if (error == IoWrapResult::Wouldblock && readbuf.freeSpace() > 0)
             break;
 
         // Make sure we either always have enough space for a next call of this method, or stop reading the fd.
-- 
2.43.0


From c487c94bbbeaf677886fdc31fa2aa75b5b86a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 29/42] fix: what is queued for an MQTT 3 client was discarded
 when the server disconnected it

---
 threaddata.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index c942d22..8cc3985 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1070,6 +1070,16 @@ void ThreadData::serverInitiatedDisconnect(const std::shared_ptr<Client> &client
         }
         else
         {
+            try
+            {
+                // There is no disconnect packet, but what was already queued, like wills when shutting down, should still be tried.
+                client->writeBufIntoFd();
+            }
+            catch (std::exception &ex)
+            {
+                logger->log(LOG_DEBUG) << "Error when writing last data to client: " << ex.what();
+            }
+
             client->setDisconnectStage(DisconnectStage::Now);
             removeClientQueued(client);
         }
-- 
2.43.0


From 32495439bfce08473f402c2707c3453039f6ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 30/42] fix: a delayed will of a session that ends at shutdown
 was lost

---
 client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 9c2415d..4f3c439 100644
--- a/client.cpp
+++ b/client.cpp
@@ -743,7 +743,8 @@ void Client::sendOrQueueWill()
         return;
 
     std::shared_ptr<SubscriptionStore> store = globals->subscriptionStore;
-    store->queueOrSendWillMessage(willPublish, session);
+    const bool sessionEnds = session && session->getDestroyOnDisconnect();
+    store->queueOrSendWillMessage(willPublish, session, sessionEnds);
     this->willPublish.reset();
 }
 
-- 
2.43.0


From 811b8fcddbdc34a4ca27532b8b45b3d52c94b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 31/42] fix: QoS 0 packets kept doubling the write buffer of a
 client that does not read

---
 client.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client.cpp b/client.cpp
index 4f3c439..9db9c8a 100644
--- a/client.cpp
+++ b/client.cpp
@@ -413,9 +413,15 @@ PacketDropReason Client::writeMqttPacket(const MqttPacket &packet)
 
     // And drop a publish when it doesn't fit, even after resizing. This means we do allow pings and acks. And
     // QoS packet are queued and limited elsewhere.
-    if (packet.packetType == PacketType::PUBLISH && packet.getQos() == 0 && packetSize > write_buf_locked->buf.freeSpace())
+    if (packet.packetType == PacketType::PUBLISH && packet.getQos() == 0)
     {
-        return PacketDropReason::BufferFull;
+        if (packetSize > write_buf_locked->buf.freeSpace())
+            return PacketDropReason::BufferFull;
+
+        // The other packets can make the buffer grow beyond the max. That must not make room for more QoS 0 packets, or it keeps doubling.
+        const size_t max_used { static_cast<size_t>(growBufMaxTo) * 2 };
+        if (write_buf_locked->buf.usedBytes() + static_cast<size_t>(packetSize) > max_used)
+            return PacketDropReason::BufferFull;
     }
 
     write_buf_locked->checkPressure(maxBufSize, this);
-- 
2.43.0


From 6f2fd5237a1d9ec3b70a07f355561b5cfa346232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:49 +0000
Subject: [PATCH 32/42] fix: a client that was being disconnected got a second
 DISCONNECT at shutdown

---
 threaddata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index 8cc3985..873689d 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1064,6 +1064,10 @@ void ThreadData::serverInitiatedDisconnect(const std::shared_ptr<Client> &client
 
         if (client->getProtocolVersion() >= ProtocolVersion::Mqtt5)
         {
+            // It may already be waiting for its final packet to be sent, and nothing may follow that.
+            if (client->getDisconnectStage() > DisconnectStage::NotInitiated)
+                return;
+
             client->setDisconnectStage(DisconnectStage::SendPendingAppData);
             Disconnect d(ProtocolVersion::Mqtt5, new_reason);
             client->writeMqttPacket(d);
-- 
2.43.0


From 39fb765498f9840c86d980513d45e8522ad676cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 33/42] fix: a session that its client gave an expiry of 0 at
 DISCONNECT could be resumed

---
 session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session.cpp b/session.cpp
index b487435..a2496ce 100644
--- a/session.cpp
+++ b/session.cpp
@@ -614,6 +614,10 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     }
 
     this->sessionExpiryInterval = newVal;
+
+    // Like at connect: a session with an expiry of zero ends when its connection does.
+    if (newVal == 0)
+        this->destroyOnDisconnect = true;
 }
 
 void Session::setQueuedRemovalAt(std::chrono::seconds slot)
-- 
2.43.0


From 61465d91b240a6d336d16dbebc299d277fc3d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 34/42] fix: a second change of the password or ACL file within
 one second was not noticed

---
 plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index 92f18b7..3032917 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -711,7 +711,7 @@ void Authentication::loadMosquittoPasswordFile()
     check<std::runtime_error>(stat(mosquittoPasswordFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec)
+    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec && ctime.tv_nsec == this->mosquittoPasswordFileLastLoad.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoPasswordFile.c_str());
@@ -812,7 +812,7 @@ void Authentication::loadMosquittoAclFile()
     check<std::runtime_error>(stat(mosquittoAclFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec)
+    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec && ctime.tv_nsec == this->mosquittoAclFileLastChange.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoAclFile.c_str());
-- 
2.43.0


From 6ef971cf8417e108c6ea7f4b508559a3bb235a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 35/42] fix: a password file line without a hash was read
 beyond its end

---
 plugin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.cpp b/plugin.cpp
index 3032917..09ac290 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -748,6 +748,9 @@ void Authentication::loadMosquittoPasswordFile()
 
                 std::vector<std::string> fields2 = splitToVector(fields[1], '$', 4, false);
 
+                if (fields2.empty())
+                    throw std::runtime_error(formatString("No password hash found in '%s'", line.c_str()));
+
                 int iterations = -1;
                 int saltField = -1;
                 int hashField = -1;
-- 
2.43.0


From 2b0e5614115e1f36fac66469a5dbc40804a8d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:19 +0000
Subject: [PATCH 36/42] fix: state could not be loaded when a stored message
 exceeded limits on incoming packets

What was written to disk is in MQTT 5 form, which can be larger than the packet the
client sent, and the limits can have been lowered since. FlashMQ then failed to start.
---
 mqttpacket.cpp                 | 15 ++++++++-------
 retainedmessagesdb.cpp         |  7 +++++--
 sessionsandsubscriptionsdb.cpp |  7 +++++--
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 92b594d..a160700 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2068,9 +2068,10 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk
     publishData.username = sender->getUsername();
     publishData.client_id = sender->getClientId();
 
-    const Settings *settings = ThreadGlobals::getSettings();
+    // What was accepted before has to be loadable after the limit was lowered.
+    const size_t maxStringLength = fromDisk ? std::numeric_limits<uint16_t>::max() : ThreadGlobals::getSettings()->maxStringLength;
 
-    publishData.topic = readBytesToString(settings->maxStringLength, true, true);
+    publishData.topic = readBytesToString(maxStringLength, true, true);
 
     if (publishData.qos)
     {
@@ -2146,7 +2147,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk
                 if (pcounts[3]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.responseTopic = readBytesToString(settings->maxStringLength, true, true);
+                publishData.responseTopic = readBytesToString(maxStringLength, true, true);
 
                 if (publishData.responseTopic->empty())
                     throw ProtocolError("Response topic cannot be empty", ReasonCodes::ProtocolError);
@@ -2158,13 +2159,13 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk
                 if (pcounts[4]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.correlationData = readBytesToString(settings->maxStringLength, false);
+                publishData.correlationData = readBytesToString(maxStringLength, false);
                 break;
             }
             case Mqtt5Properties::UserProperty:
             {
-                std::string key = readBytesToString(settings->maxStringLength);
-                std::string val = readBytesToString(settings->maxStringLength);
+                std::string key = readBytesToString(maxStringLength);
+                std::string val = readBytesToString(maxStringLength);
                 this->publishData.addUserProperty(std::move(key), std::move(val));
                 break;
             }
@@ -2197,7 +2198,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromDisk
                 if (pcounts[6]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.contentType = readBytesToString(settings->maxStringLength, true, false);
+                publishData.contentType = readBytesToString(maxStringLength, true, false);
                 break;
             }
             default:
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 3d0259d..ac5a0ad 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -179,7 +179,10 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
 
     CirBuf cirbuf(1024);
 
-    const Settings &settings = *ThreadGlobals::getSettings();
+    // Limits on what clients send don't apply to what we wrote ourselves (in MQTT5 form, which can be bigger).
+    Settings settings = *ThreadGlobals::getSettings();
+    settings.maxPacketSize = ABSOLUTE_MAX_PACKET_SIZE;
+
     std::shared_ptr<ThreadData> dummyThreadData;
     std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settings, false));
     dummyClient->setClientProperties(ProtocolVersion::Mqtt5, "Dummyforloadingretained", {}, "nobody", true, 60);
@@ -213,7 +216,7 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         cirbuf.advanceHead(packlen);
         MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-        pack.parsePublishData(dummyClient);
+        pack.parsePublishData(dummyClient, true);
         Publish pub(pack.getPublishData());
 
         pub.client_id = client_id;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 3927cd9..3476c05 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -111,7 +111,10 @@ void SessionsAndSubscriptionsDB::openRead()
 
 SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 {
-    const Settings &settings = *ThreadGlobals::getSettings();
+    // Limits on what clients send don't apply to what we wrote ourselves (in MQTT5 form, which can be bigger).
+    Settings settings = *ThreadGlobals::getSettings();
+    settings.maxPacketSize = ABSOLUTE_MAX_PACKET_SIZE;
+
 
     SessionsAndSubscriptionsResult result;
 
@@ -259,7 +262,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 readCheck(cirbuf.headPtr(), 1, packlen, f);
                 cirbuf.advanceHead(packlen);
                 MqttPacket publishpack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
-                publishpack.parsePublishData(dummyClient);
+                publishpack.parsePublishData(dummyClient, true);
                 WillPublish willPublish = publishpack.getPublishData();
                 willPublish.will_delay = stateAgecompensatedWillDelay;
 
-- 
2.43.0


From 86c6bb5c9e9a61f46fbe5a79692b52bf064a804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:24 +0000
Subject: [PATCH 37/42] fix: messages of other threads got mixed up with the
 resuming of a session

When a client resumed its session, another thread could write a PUBLISH to it
before its CONNACK, overtake the messages that were queued, cause one to be sent
twice, or queue a message after the queue was sent, which was then stuck until
the next reconnect.
---
 client.h       |   1 +
 mqttpacket.cpp |   2 +-
 session.cpp    | 106 ++++++++++++++++++++++++++++---------------------
 session.h      |   6 ++-
 threaddata.cpp |   2 +-
 5 files changed, 68 insertions(+), 49 deletions(-)

diff --git a/client.h b/client.h
index e55c683..3b1bd4e 100644
--- a/client.h
+++ b/client.h
@@ -269,6 +269,7 @@ public:
 
     void stageConnack(std::unique_ptr<ConnAck> &&c);
     void sendConnackSuccess();
+    bool hasStagedConnack() const { return stagedConnack.operator bool(); }
     void sendConnackDeny(ReasonCodes reason);
     void addAuthReturnDataToStagedConnAck(const std::string &authData);
 
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index a160700..a96f311 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1489,7 +1489,7 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
 
-    session->sendAllPendingQosData();
+    session->sendAllPendingQosData(sender);
 }
 
 AuthPacketData MqttPacket::parseAuthData()
diff --git a/session.cpp b/session.cpp
index a2496ce..6b59b35 100644
--- a/session.cpp
+++ b/session.cpp
@@ -218,7 +218,13 @@ void Session::assignActiveConnection(const std::shared_ptr<Session> &thisSession
     if (username != client->getUsername())
         throw ProtocolError("Cannot take over session with different username", ReasonCodes::NotAuthorized);
 
-    thisSession->assignActiveConnection(client);
+    {
+        // Whatever is published from now on has to wait for the CONNACK and for what's pending: see sendAllPendingQosData().
+        MutexLocked<QoSData> qos_locked = qos.lock();
+        this->resuming = client->hasStagedConnack();
+        thisSession->assignActiveConnection(client);
+    }
+
     client->assignSession(thisSession);
     thisSession->setSessionProperties(clientReceiveMax, sessionExpiryInterval, clean_start, client->getProtocolVersion());
 }
@@ -257,7 +263,10 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         return PacketDropReason::AuthDenied;
     }
 
-    const std::shared_ptr<Client> c = makeSharedClient();
+    std::shared_ptr<Client> c = makeSharedClient();
+
+    if (resuming)
+        c.reset();
 
     std::optional<std::string> topic_override;
 
@@ -283,6 +292,10 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         const Settings *settings = ThreadGlobals::getSettings();
         MutexLocked<QoSData> qos_locked = qos.lock();
 
+        // What is queued when there is no client is sent once there is, so that can't change before it is queued.
+        const bool wait_for_resume = resuming;
+        c = wait_for_resume ? nullptr : makeSharedClient();
+
         // We don't clear expired messages for online clients. It would slow down the 'happy flow' and those packets are already in the output
         // buffer, so we can't clear them anyway.
         if (!c)
@@ -319,7 +332,7 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
             return PacketDropReason::QoSTODOSomethingSomething;
         }
 
-        if (!destroyOnDisconnect)
+        if (!destroyOnDisconnect || wait_for_resume)
             qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override, c.operator bool());
     }
 
@@ -381,73 +394,74 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
  * never know that, because IT will have received the PUBACK from FlashMQ. The QoS system is not between publisher
  * and subscriber. Users are required to implement something themselves.
  */
-void Session::sendAllPendingQosData()
+void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
 {
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::shared_ptr<Client> c = makeSharedClient();
-    if (c)
+    if (!c)
+        return;
+
+    std::vector<uint16_t> tooBig;
+
     {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t, bool>> copiedPublishes;
-        std::vector<uint16_t> copiedQoS2Ids;
+        // Writing happens under the lock as well, so that what other threads have for this client comes after this.
+        MutexLocked<QoSData> qos_locked = qos.lock();
 
+        // It can have been taken over by another client already.
+        if (makeSharedClient() != c)
+            return;
+
+        std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
+        while (qp_)
         {
-            MutexLocked<QoSData> qos_locked = qos.lock();
+            std::shared_ptr<QueuedPublish> qp = qp_;
+            qp_ = qp_->next.lock();
+
+            Publish &pub = qp->getPublish();
 
-            std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
-            while (qp_)
+            if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
             {
-                std::shared_ptr<QueuedPublish> qp = qp_;
-                qp_ = qp_->next.lock();
-
-                Publish &pub = qp->getPublish();
-
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
-                {
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
-
-                if (qos_locked->flowControlExhausted())
-                {
-                    logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
-
-                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
-
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId(), qp->getSendAttempted());
-                qp->setSendAttempted();
+                qos_locked->eraseQueuedPublish(qp->getPacketId());
+                qos_locked->releasePacketId(qp->getPacketId());
+                continue;
             }
 
-            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+            if (qos_locked->flowControlExhausted())
             {
-                copiedQoS2Ids.push_back(packet_id);
+                logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
+                qos_locked->eraseQueuedPublish(qp->getPacketId());
+                qos_locked->releasePacketId(qp->getPacketId());
+                continue;
             }
-        }
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t, bool> &p : copiedPublishes)
-        {
-            Publish &pub = std::get<Publish>(p);
+            qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+
+            // [MQTT-3.3.1-1] The DUP flag is set when this is not the first attempt at sending it.
+            const bool duplicate = qp->getSendAttempted();
+            qp->setSendAttempted();
+
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            // [MQTT-3.3.1-1] The DUP flag is set when this is not the first attempt at sending it.
             const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
-                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
+                fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride(), duplicate);
 
             if (dropReason == PacketDropReason::BiggerThanPacketLimit)
-                clearQosMessage(std::get<uint16_t>(p), true);
+                tooBig.push_back(qp->getPacketId());
         }
 
-        for(uint16_t id : copiedQoS2Ids)
+        for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
         {
-            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
+            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, packet_id);
             MqttPacket packet(pubRel);
             c->writeMqttPacketAndBlameThisClient(packet);
         }
+
+        this->resuming = false;
+    }
+
+    for (const uint16_t packet_id : tooBig)
+    {
+        clearQosMessage(packet_id, true);
     }
 }
 
diff --git a/session.h b/session.h
index a7d7eac..42d868a 100644
--- a/session.h
+++ b/session.h
@@ -109,6 +109,10 @@ class Session
     uint32_t sessionExpiryInterval = 0;
     bool destroyOnDisconnect = false;
     std::atomic<bool> replaced = false;
+
+    // The client is not to be given anything by other threads yet: first it gets its CONNACK, and then what was pending.
+    std::atomic<bool> resuming = false;
+
     LockedSharedPtr<WillPublish> willPublish;
     bool removalQueued = false;
     ClientType clientType = ClientType::Normal;
@@ -132,7 +136,7 @@ public:
                                 uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start);
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
-    void sendAllPendingQosData();
+    void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
     void setReplaced();
     bool isReplaced() const;
diff --git a/threaddata.cpp b/threaddata.cpp
index 873689d..4f6861e 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -223,7 +223,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             client->sendConnackSuccess();
             client->setAuthenticated(true);
             queueClientNextKeepAliveCheck(client, true); // After setting authenticated, because before that, there's a fixed interval.
-            client->getSession()->sendAllPendingQosData();
+            client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
         else // Reauth (to authenticated clients) sends AUTH on success.
-- 
2.43.0


From f0087fb5aa917146d053883aaa6910d3226d8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:17 +0000
Subject: [PATCH 38/42] fix: never put an incompletely written state file in
 place, and survive errors while saving

An error while writing (a full disk, for instance) still hashed what had been
written, and put the file in place of the good one. Errors when closing escaped
from the destructor of RetainedMessagesDB and ended the broker. And a file too
small to have a header was not set aside, so it prevented every next start.
---
 persistencefile.cpp    | 72 +++++++++++++++++++++++++++---------------
 persistencefile.h      |  1 +
 retainedmessagesdb.cpp |  9 +++++-
 3 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..2bce944 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -89,7 +89,8 @@ void PersistenceFile::hashFile()
 {
     logger->logf(LOG_DEBUG, "Calculating and saving hash of '%s'.", filePath.c_str());
 
-    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);
+    if (fseek(f, TOTAL_HEADER_SIZE, SEEK_SET) != 0)
+        throw std::runtime_error(formatString("Error seeking in '%s': %s", filePathTemp.c_str(), strerror(errno)));
 
     unsigned int output_len = 0;
     unsigned char md_value[EVP_MAX_MD_SIZE];
@@ -98,7 +99,7 @@ void PersistenceFile::hashFile()
     EVP_MD_CTX_reset(digestContext.get());
     EVP_DigestInit_ex(digestContext.get(), sha512, NULL);
 
-    while (!feof(f))
+    while (!feof(f) && !ferror(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
@@ -109,18 +110,35 @@ void PersistenceFile::hashFile()
     if (output_len != HASH_SIZE)
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    if (fseek(f, MAGIC_STRING_LENGH, SEEK_SET) != 0)
+        throw std::runtime_error(formatString("Error seeking in '%s': %s", filePathTemp.c_str(), strerror(errno)));
 
     writeCheck(md_value, output_len, 1, f);
 }
 
+void PersistenceFile::setAsideCorrupt(const std::string &reason)
+{
+    fclose(f);
+    f = nullptr;
+
+    if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Moved aside to '%s'.", filePath.c_str(), reason.c_str(), filePathCorrupt.c_str()));
+    }
+    else
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Tried to move aside, but that failed: '%s'.",
+                                              filePath.c_str(), reason.c_str(), strerror(errno)));
+    }
+}
+
 void PersistenceFile::verifyHash()
 {
     fseek(f, 0, SEEK_END);
     const size_t size = ftell(f);
 
     if (size < TOTAL_HEADER_SIZE)
-        throw std::runtime_error(formatString("File '%s' is too small for it even to contain a header.", filePath.c_str()));
+        setAsideCorrupt("too small for it even to contain a header");
 
     unsigned char md_from_disk[HASH_SIZE];
     std::memset(md_from_disk, 0, HASH_SIZE);
@@ -147,20 +165,7 @@ void PersistenceFile::verifyHash()
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
     if (std::memcmp(md_from_disk, md_value, output_len) != 0)
-    {
-        fclose(f);
-        f = nullptr;
-
-        if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Moved aside to '%s'.", filePath.c_str(), filePathCorrupt.c_str()));
-        }
-        else
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Tried to move aside, but that failed: '%s'.",
-                                                  filePath.c_str(), strerror(errno)));
-        }
-    }
+        setAsideCorrupt("hash mismatch");
 
     logger->logf(LOG_DEBUG, "Hash of '%s' correct", filePath.c_str());
 }
@@ -421,18 +426,33 @@ void PersistenceFile::closeFile()
     if (!f)
         return;
 
-    if (openMode == FileMode::write)
+    // When we're here because of an error while writing, what's in the file is incomplete and must never replace the good one.
+    if (openMode == FileMode::write && std::uncaught_exceptions() > 0)
+        discard = true;
+
+    if (openMode == FileMode::write && !discard)
     {
-        if (!discard)
+        try
+        {
             hashFile();
 
-        if (fflush(f) != 0)
+            if (fflush(f) != 0 || ferror(f))
+            {
+                std::string msg(strerror(errno));
+                throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            }
+
+            if (fsync(fileno(f)) != 0)
+            {
+                std::string msg(strerror(errno));
+                throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            }
+        }
+        catch (...)
         {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            discard = true;
+            throw;
         }
-
-        fsync(f->_fileno);
     }
 
     if (f != nullptr)
@@ -440,7 +460,7 @@ void PersistenceFile::closeFile()
         FILE *f2 = f;
         f = nullptr;
 
-        if (fclose(f2) < 0)
+        if (fclose(f2) < 0 && !discard)
         {
             std::string msg(strerror(errno));
             throw std::runtime_error(formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..5900dc3 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -48,6 +48,7 @@ class PersistenceFile
     const EVP_MD *sha512 = EVP_sha512();
 
     void hashFile();
+    void setAsideCorrupt(const std::string &reason);
     void verifyHash();
 
 protected:
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index ac5a0ad..1d6d25c 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,14 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_WARNING) << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
-- 
2.43.0


From 5ab2f4cf53ea81b90091ef7753b54e2aa813560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:17 +0000
Subject: [PATCH 39/42] fix: save subscriptions to topics that begin with '$'

They live in a tree of their own, which was not walked when saving.
---
 subscriptionstore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index f402caa..3f905bd 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1603,6 +1603,7 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
     DeferredGetSubscription start(root, "", true);
 
     deferred.push_front(std::move(start));
+    deferred.emplace_back(rootDollar, "", true);
 
     for (; !deferred.empty(); deferred.pop_front())
     {
-- 
2.43.0


From 5d40b15be73a5c290708131e975c8c9bcdcd98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:17 +0000
Subject: [PATCH 40/42] fix: don't count the broker's own messages as retained
 messages

The periodic recount doesn't have them, so the count, and with it
$SYS/broker/retained messages/count, was off until the first one.
---
 subscriptionstore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 3f905bd..bf8d97e 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1144,7 +1144,8 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
     {
         const ssize_t diff = selected_node->addPayload(publish);
 
-        if (diff != 0)
+        // The periodic recount, in expireRetainedMessages(), doesn't include FlashMQ's own messages on dollar topics either.
+        if (diff != 0 && publish.topic[0] != '$')
             this->retainedMessageCount.fetch_add(diff);
     }
     else
-- 
2.43.0


From e68922a50f59b2a7181e0a899e73e19b5277e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:38 +0000
Subject: [PATCH 41/42] fix: session present flag of a login that a plugin
 decided later

Whether there is a session was looked up when the CONNECT came, but a plugin
can decide later, and sessions can come and go in the meantime. Decide it when
the client is registered.
---
 client.cpp            |  8 ++++++++
 client.h              |  1 +
 mqttpacket.cpp        | 15 ++-------------
 subscriptionstore.cpp |  5 +++++
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/client.cpp b/client.cpp
index 9db9c8a..f10b827 100644
--- a/client.cpp
+++ b/client.cpp
@@ -789,6 +789,14 @@ void Client::stageConnack(std::unique_ptr<ConnAck> &&c)
     this->stagedConnack = std::move(c);
 }
 
+void Client::setSessionPresentOfStagedConnack(bool session_present)
+{
+    if (!stagedConnack || stagedConnack->protocol_version < ProtocolVersion::Mqtt311)
+        return;
+
+    stagedConnack->session_present = session_present;
+}
+
 void Client::sendConnackSuccess()
 {
     if (!stagedConnack)
diff --git a/client.h b/client.h
index 3b1bd4e..aa1f211 100644
--- a/client.h
+++ b/client.h
@@ -268,6 +268,7 @@ public:
     void clearRegistrationData();
 
     void stageConnack(std::unique_ptr<ConnAck> &&c);
+    void setSessionPresentOfStagedConnack(bool session_present);
     void sendConnackSuccess();
     bool hasStagedConnack() const { return stagedConnack.operator bool(); }
     void sendConnackDeny(ReasonCodes reason);
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index a96f311..9f5cc68 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1181,8 +1181,6 @@ void MqttPacket::handleConnect(std::shared_ptr<Client> &sender)
     if (sender->hasConnectPacketSeen())
         throw ProtocolError("Client already sent a CONNECT.", ReasonCodes::ProtocolError);
 
-    std::shared_ptr<SubscriptionStore> subscriptionStore = globals->subscriptionStore;
-
     auto &threadData = ThreadGlobals::getThreadData();
     Authentication &authentication = threadData->authentication;
 
@@ -1298,17 +1296,8 @@ void MqttPacket::handleConnect(std::shared_ptr<Client> &sender)
 
     // Stage connack, for immediate or delayed use when auth succeeds.
     {
-        bool sessionPresent = false;
-        std::shared_ptr<Session> existingSession;
-
-        if (protocolVersion >= ProtocolVersion::Mqtt311 && !connectData.clean_start)
-        {
-            existingSession = subscriptionStore->lockSession(connectData.client_id);
-            if (existingSession && !existingSession->getDestroyOnDisconnect())
-                sessionPresent = true;
-        }
-
-        std::unique_ptr<ConnAck> connAck = std::make_unique<ConnAck>(protocolVersion, ReasonCodes::Success, sessionPresent);
+        // Whether there is a session is decided when the client is registered, which can be much later.
+        std::unique_ptr<ConnAck> connAck = std::make_unique<ConnAck>(protocolVersion, ReasonCodes::Success, false);
 
         if (protocolVersion >= ProtocolVersion::Mqtt5)
         {
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index bf8d97e..0261cb7 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -368,6 +368,11 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
             sessionsById[client->getClientId()] = session;
+            client->setSessionPresentOfStagedConnack(false);
+        }
+        else
+        {
+            client->setSessionPresentOfStagedConnack(true);
         }
     }
 
-- 
2.43.0


From 934e27a54ab0d0a7d1112361f017591683b54f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:38 +0000
Subject: [PATCH 42/42] fix: don't drop queued messages allowed with
 success_without_setting_retained

A plugin that allows a publish without retaining it lost the message for
sessions to which it had been queued, when they were resumed.
---
 session.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index 6b59b35..150347a 100644
--- a/session.cpp
+++ b/session.cpp
@@ -419,7 +419,9 @@ void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
 
             Publish &pub = qp->getPublish();
 
-            if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
+            const AuthResult aclResult = authentication.aclCheck(pub, pub.payload);
+
+            if (pub.hasExpired() || (aclResult != AuthResult::success && aclResult != AuthResult::success_without_setting_retained))
             {
                 qos_locked->eraseQueuedPublish(qp->getPacketId());
                 qos_locked->releasePacketId(qp->getPacketId());
-- 
2.43.0

