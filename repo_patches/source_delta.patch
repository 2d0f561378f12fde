From 507ca2984bdf64dbc1d51705499dbaa9a874b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 01/78] fix: keep connection handshake replies ahead of routes
 that depend on them in TcpCommsSS

A CONNECTION_INFORMATION received by a TcpCommsSS was queued at normal
priority, while NEW_ROUTE/connect requests are queued with priority and
could overtake it, so a broker with a slow transmit thread tried to open
an outbound connection to a client that only has an inbound one, and
dropped the broker acknowledgement.
---
 src/helics/network/tcp/TcpCommsSS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/network/tcp/TcpCommsSS.cpp b/src/helics/network/tcp/TcpCommsSS.cpp
index 8e27b2f..db23d29 100644
--- a/src/helics/network/tcp/TcpCommsSS.cpp
+++ b/src/helics/network/tcp/TcpCommsSS.cpp
@@ -122,7 +122,7 @@ size_t TcpCommsSS::dataReceive(TcpConnection* connection, const char* data, size
         }
         if (isProtocolCommand(m)) {
             m.setExtraData(connection->getIdentifier());
-            txQueue.emplace(control_route, std::move(m));
+            txQueue.emplacePriority(control_route, std::move(m));
         } else {
             if (ActionCallback) {
                 ActionCallback(std::move(m));
-- 
2.43.0


From be9c63bc41e10b40d76990cc8fed708d6008cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 02/78] fix: link a sub-broker into the timing of its parent
 when an endpoint is registered

---
 src/helics/core/CoreBroker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4b81e2d..e908d8b 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2185,7 +2185,9 @@ void CoreBroker::addEndpoint(ActionMessage& message)
 
     if (!isRootc) {
         transmit(parent_route_id, message);
-        if (!hasTimeDependency && !globalTime && !asyncTime) {
+        if (!globalTime && !asyncTime) {
+            // the time dependency flag cannot be used here, a core adds itself as a dependency before
+            // the endpoint registration gets here
             if (timeCoord->addDependency(higher_broker_id)) {
                 hasTimeDependency = true;
                 ActionMessage add(CMD_ADD_INTERDEPENDENCY,
-- 
2.43.0


From c1e7f5ecca4584738144e8b63ee79b26ef486111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 03/78] fix: do not assume dependencies reached the grant time
 when an input delay is set

---
 src/helics/core/TimeCoordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 9efa92d..ae32af6 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -260,7 +260,8 @@ void TimeCoordinator::timeRequest(Time nextTime,
             time_exec = time_requested;
         }
     }
-    dependencies.resetDependentEvents(time_granted);
+    // with an input delay a grant only shows that the dependencies got to the grant time less the delay
+    dependencies.resetDependentEvents(time_granted - info.inputDelay);
     ++sequenceCounter;
     updateTimeFactors();
 
-- 
2.43.0


From ca35de5ba5e9892916d17d4ba8978b7e4d1dbf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 04/78] fix: give the broker timeout monitor its timeout in
 milliseconds

---
 src/helics/core/CoreBroker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index e908d8b..1030f85 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2483,7 +2483,7 @@ bool CoreBroker::connect()
     if (getBrokerState() < BrokerState::CONNECTED) {
         if (transitionBrokerState(BrokerState::CONFIGURED, BrokerState::CONNECTING)) {
             LOG_CONNECTIONS(parent_broker_id, getIdentifier(), "connecting");
-            timeoutMon->setTimeout(std::chrono::milliseconds(timeout));
+            timeoutMon->setTimeout(timeout.to_ms());
             auto res = brokerConnect();
             if (res) {
                 if (!disconnection.activate()) {
-- 
2.43.0


From e32e3431cc2ffc2628bbd6d9ecfd35b370566bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 05/78] fix: do not take a response to an earlier time request
 for one to the current request

---
 src/helics/core/TimeCoordinator.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index ae32af6..7a7bc66 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -262,7 +262,9 @@ void TimeCoordinator::timeRequest(Time nextTime,
     }
     // with an input delay a grant only shows that the dependencies got to the grant time less the delay
     dependencies.resetDependentEvents(time_granted - info.inputDelay);
-    ++sequenceCounter;
+    // keep counting across grants so that a response to an earlier request is not taken for a
+    // response to this one
+    incrementSequenceCounter(sequenceCounter);
     updateTimeFactors();
 
     if (!dependencies.empty()) {
@@ -678,7 +680,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
         case IterationRequest::NO_ITERATIONS:
             if (time_allow > time_exec) {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
                 return MessageProcessingResult::NEXT_STEP;
@@ -688,7 +689,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     if (time_requested <= time_exec) {
                         // this is the non interrupted case
                         iteration = 0;
-                        sequenceCounter = 0;
                         hasIterationData = false;
                         updateTimeGrant();
                         return MessageProcessingResult::NEXT_STEP;
@@ -699,7 +699,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     getDelayMode(info.wait_for_current_time_updates, (time_requested > time_exec));
                 if (dependencies.checkIfReadyForTimeGrant(false, time_exec, delayMode)) {
                     iteration = 0;
-                    sequenceCounter = 0;
                     hasIterationData = false;
                     updateTimeGrant();
                     return MessageProcessingResult::NEXT_STEP;
@@ -722,7 +721,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     ++iteration;
                 } else {
                     iteration = 0;
-                    sequenceCounter = 0;
                 }
 
                 updateTimeGrant();
@@ -807,7 +805,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                 ret = MessageProcessingResult::ITERATING;
             } else {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
             }
@@ -941,14 +938,11 @@ void TimeCoordinator::updateTimeGrant()
         time_granted = time_exec;
         time_grantBase = time_granted;
     }
-    ++sequenceCounter;
+    incrementSequenceCounter(sequenceCounter);
     ActionMessage treq(CMD_TIME_GRANT);
     treq.source_id = mSourceId;
     treq.actionTime = time_granted;
     treq.counter = sequenceCounter;
-    if (std::cmp_not_equal(treq.counter, sequenceCounter)) {
-        sequenceCounter = 0;
-    }
     if (iterating != IterationRequest::NO_ITERATIONS) {
         dependencies.resetIteratingTimeRequests(time_exec);
     }
-- 
2.43.0


From be96c88535d255aa589b58bce4cbca3b2d010f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 06/78] fix: do not rely on event times that predate the
 current time request

---
 src/helics/core/TimeDependencies.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 14cae14..a7a313f 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -834,9 +834,14 @@ static void generateMinTimeImplementation(TimeData& mTime,
         }
     }
     // if (dep.connection != ConnectionType::self) {
-    if (dep.Te < mTime.Te) {
+    // an event time that does not take the current request into account can't be trusted, the
+    // dependency might get something from here and execute as early as its next time
+    const bool currentResponse = dep.connection == ConnectionType::SELF || sequenceCode == 0 ||
+        dep.responseSequenceCounter == sequenceCode || dep.timingVersion == 0 || !dep.dependent;
+    const Time depTe = currentResponse ? dep.Te : (std::min)(dep.Te, dep.next);
+    if (depTe < mTime.Te) {
         mTime.TeAlt = mTime.Te;
-        mTime.Te = dep.Te;
+        mTime.Te = depTe;
         mTime.minFed = dep.fedID;
         mTime.sequenceCounter = dep.sequenceCounter;
         mTime.responseSequenceCounter = dep.sequenceCounter;
@@ -846,7 +851,7 @@ static void generateMinTimeImplementation(TimeData& mTime,
         } else {
             mTime.minFed = dep.fedID;
         }
-    } else if (dep.Te == mTime.Te) {
+    } else if (depTe == mTime.Te) {
         mTime.minFed = GlobalFederateId{};
         mTime.TeAlt = mTime.Te;
     }
-- 
2.43.0


From e782d93b5ab87fa85606ca7a92090ecfb166daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 07/78] fix: tell the dependents when a disconnect lets the own
 time advance

---
 src/helics/core/FederateState.cpp             | 3 ++-
 src/helics/core/TimeCoordinator.cpp           | 2 +-
 src/helics/core/TimeCoordinatorProcessing.cpp | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 5ddac6c..da6264e 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -1589,7 +1589,8 @@ MessageProcessingResult FederateState::processActionMessage(ActionMessage& cmd)
 
                 interfaceInformation.disconnectFederate(cmd.source_id, lastTime);
                 if (!timeGranted_mode) {
-                    auto ret = timeCoord->checkTimeGrant();
+                    // the dependents have to hear about a time that only advances because of this
+                    auto ret = timeCoord->checkTimeGrant(cmd.source_id);
                     if (returnableResult(ret)) {
                         time_granted = timeCoord->getGrantedTime();
                         allowed_send_time = timeCoord->allowedSendTime();
diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 7a7bc66..4950a08 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -922,7 +922,7 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
     } else if (triggerFed.isValid()) {
         upd.dest_id = triggerFed;
         const auto* dep = dependencies.getDependencyInfo(triggerFed);
-        if (dep->dependent) {
+        if (dep != nullptr && dep->dependent) {
             upd.setExtraDestData(dep->sequenceCounter);
             sendMessageFunction(upd);
         }
diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index b88ab43..74b8d88 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -189,7 +189,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     break;
                 }
                 if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
+                    proc = timeCoord->checkTimeGrant(cmd.source_id);
                     if (returnableResult(proc)) {
                         newMode = true;
                     }
@@ -219,7 +219,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                 break;
             }
             if (!timeGranted_mode) {
-                proc = timeCoord->checkTimeGrant();
+                proc = timeCoord->checkTimeGrant(cmd.source_id);
                 if (returnableResult(proc)) {
                     newMode = true;
                 }
@@ -305,7 +305,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     break;
                 }
                 if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
+                    proc = timeCoord->checkTimeGrant(cmd.source_id);
                     if (returnableResult(proc)) {
                         newMode = true;
                     }
-- 
2.43.0


From 4bc025ca6d6dc39870e73f6bbb105dbe6ee2c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 08/78] fix: do not keep two waiting federates repeating their
 time requests to each other

---
 src/helics/core/TimeCoordinator.cpp  | 9 ++++++++-
 src/helics/core/TimeDependencies.hpp | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 4950a08..3254523 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -922,7 +922,11 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
     } else if (triggerFed.isValid()) {
         upd.dest_id = triggerFed;
         const auto* dep = dependencies.getDependencyInfo(triggerFed);
-        if (dep != nullptr && dep->dependent) {
+        // the dependent already has this request if it did not ask for anything new, sending it
+        // again would only make it do the same
+        if (dep != nullptr && dep->dependent &&
+            dep->answeredSequenceCounter != dep->sequenceCounter) {
+            dep->answeredSequenceCounter = dep->sequenceCounter;
             upd.setExtraDestData(dep->sequenceCounter);
             sendMessageFunction(upd);
         }
@@ -1020,6 +1024,7 @@ bool TimeCoordinator::transmitTimingMessages(ActionMessage& msg, GlobalFederateI
     for (const auto& dep : dependencies) {
         if (dep.dependent) {
             if (dep.fedID == skipFed) {
+                dep.answeredSequenceCounter = -1;
                 skipped = true;
                 continue;
             }
@@ -1027,6 +1032,8 @@ bool TimeCoordinator::transmitTimingMessages(ActionMessage& msg, GlobalFederateI
             if (msg.action() == CMD_EXEC_REQUEST || msg.action() == CMD_TIME_REQUEST) {
                 msg.setExtraDestData(dep.sequenceCounter);
             }
+            dep.answeredSequenceCounter =
+                (msg.action() == CMD_TIME_REQUEST) ? dep.sequenceCounter : -1;
             sendMessageFunction(msg);
         }
     }
diff --git a/src/helics/core/TimeDependencies.hpp b/src/helics/core/TimeDependencies.hpp
index a68cd66..0b60431 100644
--- a/src/helics/core/TimeDependencies.hpp
+++ b/src/helics/core/TimeDependencies.hpp
@@ -98,6 +98,8 @@ class TimeData {
 class DependencyInfo: public TimeData {
   public:
     GlobalFederateId fedID{};  //!< identifier for the dependency
+    /// the sequence counter of the dependent that the last time request was sent in response to
+    mutable std::int32_t answeredSequenceCounter{-1};
 
     bool cyclic{false};  //!< indicator that the dependency is cyclic and should be reset more
                          //!< completely on grant
-- 
2.43.0


From f5fc8ae25caa339e8d34af3fba3067ee7b176ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 09/78] fix: announce a changed sequence counter of a broker or
 core to its dependencies

---
 src/helics/core/TimeDependencies.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index a7a313f..c7ec5bd 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -207,7 +207,9 @@ bool TimeData::update(const TimeData& update)
         updated = true;
     }
     if (update.sequenceCounter != sequenceCounter) {
+        // the dependencies have to answer with the new counter
         sequenceCounter = update.sequenceCounter;
+        updated = true;
     }
 
     if (update.interrupted != interrupted) {
-- 
2.43.0


From 26791e77f8b244cd8a02ac56abf6e450b9baae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 10/78] fix: do not send messages for a disconnected core or
 broker back and forth between a sub-broker and its parent

---
 src/helics/core/CoreBroker.cpp | 8 +++++++-
 src/helics/core/CoreBroker.hpp | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 1030f85..4afd082 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1108,6 +1108,11 @@ void CoreBroker::processCommand(ActionMessage&& command)
                           prettyPrintString(command),
                           command.source_id.baseValue(),
                           command.dest_id.baseValue()));
+    if (!closedRoutes.empty() && command.dest_id != global_broker_id_local &&
+        closedRoutes.find(getRoute(command.dest_id)) != closedRoutes.end()) {
+        // the target has disconnected, sending this on the default route would get it back
+        return;
+    }
     switch (command.action()) {
         case CMD_IGNORE:
         case CMD_PROTOCOL:
@@ -1439,7 +1444,7 @@ void CoreBroker::processCommand(ActionMessage&& command)
                         transmit(getRoute(warn.dest_id), warn);
                     }
 
-                } else {
+                } else if (closedRoutes.find(route) == closedRoutes.end()) {
                     transmit(route, command);
                 }
             } else {
@@ -3439,6 +3444,7 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
             }
             if (!globalDisconnect) {
                 removeRoute(brk->route);
+                closedRoutes.insert(brk->route);
             }
         } else {
             if ((!isRootc) && (getBrokerState() < BrokerState::OPERATING)) {
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index fe53bec..2d10dbb 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -28,6 +28,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include <functional>
 #include <map>
 #include <memory>
+#include <set>
 #include <string>
 #include <thread>
 #include <tuple>
@@ -123,6 +124,8 @@ class CoreBroker: public Broker, public BrokerBase {
     std::unordered_map<GlobalFederateId, LocalFederateId> global_id_translation;
     /// map for external routes  <global federate id, route id>
     std::unordered_map<GlobalFederateId, route_id> routing_table;
+    /// routes to brokers and cores which have disconnected
+    std::set<route_id> closedRoutes;
     /// external map for all known external endpoints with names and route
     std::unordered_map<std::string, route_id> knownExternalEndpoints;
     std::unordered_map<std::string, std::string> global_values;  //!< storage for global values
-- 
2.43.0


From 19b515ebd0b51e9fb121359718321ade7d48d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 11/78] fix: let the time coordinator's farewell reach its
 dependents before the core or broker disconnects

---
 src/helics/core/CommonCore.cpp |  7 +++++--
 src/helics/core/CoreBroker.cpp | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2c7f2d7..d3bbf93 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4887,7 +4887,9 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
         case CMD_DISCONNECT:
         case CMD_DISCONNECT_FED:
             if (cmd.dest_id == parent_broker_id) {
-                if (getBrokerState() <= BrokerState::TERMINATING) {
+                if (cmd.source_id == global_broker_id_local) {
+                    transmit(parent_route_id, cmd);
+                } else if (getBrokerState() <= BrokerState::TERMINATING) {
                     auto fed = loopFederates.find(cmd.source_id);
                     if (fed == loopFederates.end()) {
                         return;
@@ -5316,7 +5318,8 @@ bool CommonCore::checkAndProcessDisconnect()
         ActionMessage dis(CMD_DISCONNECT);
         dis.source_id = global_broker_id_local;
         dis.dest_id = parent_broker_id;
-        transmit(parent_route_id, dis);
+        // the broker must not get this before the messages of the time coordinator still in the queue
+        addActionMessage(dis);
         setTickForwarding(TickForwardingReasons::DISCONNECT_TIMEOUT, true);
         disconnectTime = std::chrono::steady_clock::now();
         if (filterFed != nullptr) {
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4afd082..36cd95b 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3397,7 +3397,9 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
         if (!isRootc) {
             ActionMessage dis(CMD_DISCONNECT);
             dis.source_id = global_broker_id_local;
-            transmit(parent_route_id, dis);
+            // the parent must not get this before the messages of the time coordinator still in the
+            // queue
+            addActionMessage(dis);
         } else {
             if ((brk != nullptr) && (!brk->_nonLocal)) {
                 if (globalDisconnect) {
@@ -3467,7 +3469,11 @@ void CoreBroker::processDisconnectCommand(ActionMessage& command)
                 // deal with the time implications of the message
                 disconnectTiming(command);
             } else if (command.dest_id == parent_broker_id) {
-                processBrokerDisconnect(command, brk);
+                if (command.source_id == global_broker_id_local) {
+                    transmit(parent_route_id, command);
+                } else {
+                    processBrokerDisconnect(command, brk);
+                }
             } else if (command.dest_id == mTimeMonitorLocalFederateId) {
                 processTimeMonitorMessage(command);
             } else {
-- 
2.43.0


From 9ef5e5da2b4208716a2044c433e3eba20cd4f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 12/78] fix: look the type of a publication up again when it
 was not known at initialization

---
 src/helics/application_api/ValueFederateManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/ValueFederateManager.cpp b/src/helics/application_api/ValueFederateManager.cpp
index 155d08f..543506a 100644
--- a/src/helics/application_api/ValueFederateManager.cpp
+++ b/src/helics/application_api/ValueFederateManager.cpp
@@ -313,7 +313,13 @@ void ValueFederateManager::startupToInitializeStateTransition()
 {
     // get the actual publication types
     auto inpHandle = inputs.lock();
-    inpHandle->apply([](auto& inp) { inp.loadSourceInformation(); });
+    inpHandle->apply([](auto& inp) {
+        inp.loadSourceInformation();
+        if (inp.getInjectionType().empty()) {
+            // the publication may not be known here yet, look again when there is data
+            inp.injectionType = DataType::HELICS_UNKNOWN;
+        }
+    });
 }
 
 void ValueFederateManager::initializeToExecuteStateTransition(iteration_time result)
-- 
2.43.0


From d49430a496064739ae643f120d45ac0a9aee6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 13/78] fix: withdraw the own init request when a lower broker
 is no longer ready for initialization

---
 src/helics/core/CoreBroker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 36cd95b..2e56eb1 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1666,7 +1666,10 @@ void CoreBroker::processInitCommand(ActionMessage& cmd)
                                 "received init not ready but already init");
                     break;
                 }
-                transmit(parent_route_id, cmd);
+                // the parent knows only this broker, the init request it has to take back came from here
+                ActionMessage noInit(cmd);
+                noInit.source_id = global_broker_id_local;
+                transmit(parent_route_id, std::move(noInit));
             }
             auto* brk = getBrokerById(GlobalBrokerId{cmd.source_id});
             if (brk != nullptr) {
-- 
2.43.0


From 3b78c4e1a30b76d8ec038ef175c8155907351b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 14/78] fix: swapping a small SmallBuffer with an allocated one
 left the other pointing into this one's storage

---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From 5913f7fc7dea3b6192b19e06fcc16d22bc3e6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 15/78] fix: resizing a LogBuffer while messages are pushed
 could overfill it or pop from an empty one

---
 src/helics/common/LogBuffer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/helics/common/LogBuffer.cpp b/src/helics/common/LogBuffer.cpp
index ac4105b..85cc94f 100644
--- a/src/helics/common/LogBuffer.cpp
+++ b/src/helics/common/LogBuffer.cpp
@@ -16,13 +16,11 @@ namespace helics {
 
 void LogBuffer::resize(std::size_t newSize)
 {
-    if (newSize < mMaxSize) {
-        auto block = mBuffer.lock();
-        while (block->size() > newSize) {
-            block->pop_front();
-        }
+    auto block = mBuffer.lock();
+    while (block->size() > newSize) {
+        block->pop_front();
     }
-
+    // the size must change while the block is held, a concurrent push relies on it
     mMaxSize = newSize;
 }
 
@@ -43,7 +41,12 @@ void LogBuffer::push(int logLevel, std::string_view header, std::string_view mes
         return;
     }
     auto block = mBuffer.lock();
-    if (block->size() == mMaxSize.load()) {
+    const std::size_t maxSize = mMaxSize.load();
+    if (maxSize == 0) {
+        // disabled while waiting for the block
+        return;
+    }
+    if (block->size() >= maxSize) {
         block->pop_front();
     }
     block->emplace_back(logLevel, header, message);
-- 
2.43.0


From 1f21d3d6f85524fb5b56af0d04f291919063e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 16/78] fix: message encoding and decoding checked too small a
 size in two places

---
 src/helics/core/ActionMessage.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 1cdf83d..dd910bf 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -193,7 +193,11 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         }
     }
 
-    if ((data == nullptr) || (buffer_size == 0) || buffer_size < action_message_base_size + ssize) {
+    std::size_t minimumSize = action_message_base_size + ssize;
+    if (messageAction == CMD_TIME_REQUEST) {
+        minimumSize += 3 * sizeof(Time::baseType);
+    }
+    if ((data == nullptr) || (buffer_size == 0) || buffer_size < minimumSize) {
         return -1;
     }
 
@@ -590,6 +594,10 @@ std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size
     message_size += static_cast<unsigned char>(bytes[2]);
     message_size <<= 8U;
     message_size += static_cast<unsigned char>(bytes[3]);
+    if (message_size < sizeof(uint32_t)) {
+        // smaller than the header it is part of
+        return 0;
+    }
     if (buffer_size < (static_cast<size_t>(message_size) + 2)) {
         return 0;
     }
-- 
2.43.0


From d5f2f435d29a9fba5ab0265bc827637024d27ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 17/78] fix: decoding a message kept an old payload and did not
 convert the byte order of the sequence id

---
 src/helics/core/ActionMessage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index dd910bf..93ed304 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -520,6 +520,8 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
     if (size > 0) {
         payload.assign(data, size);
         data += size;
+    } else {
+        payload.clear();
     }
     auto stringCount = std::to_integer<std::size_t>(*data);
     ++data;
@@ -558,6 +560,7 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&dest_handle));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&counter));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&flags));
+        swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&sequenceID));
         auto timecode = actionTime.getBaseTimeCode();
         swap_bytes<sizeof(Time::baseType)>(reinterpret_cast<std::uint8_t*>(&timecode));
         actionTime.setBaseTimeCode(timecode);
-- 
2.43.0


From c460efe8399f40081046b334aac92587097b9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 18/78] fix: a federate in iterating initialization could enter
 executing mode with unseen values of a later iteration

---
 src/helics/core/FederateState.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index da6264e..c7cd650 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -673,6 +673,10 @@ void FederateState::updateDataForExecEntry(MessageProcessingResult result, Itera
                 break;
         }
     }
+    if (result == MessageProcessingResult::ITERATING && nextValueTime() <= time_granted) {
+        // values of a later iteration are already waiting, there needs to be an iteration for them
+        timeCoord->updateValueTime(time_granted, false);
+    }
 }
 
 std::vector<GlobalHandle> FederateState::getSubscribers(InterfaceHandle handle)
-- 
2.43.0


From 8d91ee7d18cb70fbb2176bbdcb9b800d1fc69bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 19/78] fix: federates in iterating initialization could repeat
 the same exec requests to each other for ever

---
 src/helics/core/TimeCoordinator.cpp  | 12 ++++++++++++
 src/helics/core/TimeDependencies.hpp |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 3254523..af9a4f8 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -11,6 +11,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "helics_definitions.hpp"
 
 #include <algorithm>
+#include <array>
 #include <fmt/format.h>
 #include <iostream>
 #include <nlohmann/json.hpp>
@@ -1063,10 +1064,21 @@ void TimeCoordinator::sendUpdatedExecRequest(GlobalFederateId target,
     if (target.isValid()) {
         execreq.dest_id = target;
         execreq.setExtraDestData(responseSequenceCounter);
+        const auto* dep = dependencies.getDependencyInfo(target);
+        if (dep != nullptr) {
+            const std::array<std::int32_t, 4> reply{
+                {sequenceCounter, minFed.baseValue(), responseSequenceCounter, currentRestrictionLevel}};
+            if (dep->lastExecReply == reply) {
+                // the target has this request already, repeating it would only make it answer again
+                return;
+            }
+            dep->lastExecReply = reply;
+        }
         sendMessageFunction(execreq);
     } else {
         for (const auto& dep : dependencies) {
             if (dep.dependent && dep.mTimeState < TimeState::time_granted) {
+                dep.lastExecReply.fill(-1);
                 execreq.dest_id = dep.fedID;
                 execreq.setExtraDestData(dep.sequenceCounter);
                 sendMessageFunction(execreq);
diff --git a/src/helics/core/TimeDependencies.hpp b/src/helics/core/TimeDependencies.hpp
index 0b60431..dc3101c 100644
--- a/src/helics/core/TimeDependencies.hpp
+++ b/src/helics/core/TimeDependencies.hpp
@@ -9,6 +9,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "basic_CoreTypes.hpp"
 #include "nlohmann/json_fwd.hpp"
 
+#include <array>
 #include <string>
 #include <utility>
 #include <vector>
@@ -100,6 +101,8 @@ class DependencyInfo: public TimeData {
     GlobalFederateId fedID{};  //!< identifier for the dependency
     /// the sequence counter of the dependent that the last time request was sent in response to
     mutable std::int32_t answeredSequenceCounter{-1};
+    /// the last exec request that was sent to the dependent in response to one of its messages
+    mutable std::array<std::int32_t, 4> lastExecReply{{-1, -1, -1, -1}};
 
     bool cyclic{false};  //!< indicator that the dependency is cyclic and should be reset more
                          //!< completely on grant
-- 
2.43.0


From 8bc32e1be70faaa65935f67684f42ad8246f65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 20/78] fix: a message with a payload of exactly the largest
 inline size was written without its last field

---
 src/helics/core/ActionMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 93ed304..67a2101 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -269,7 +269,7 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         data += str.size();
         ssize += strsize + 4;
     }
-    if (payload.size() > maxPayloadSize) {
+    if (payload.size() >= maxPayloadSize) {
         if (buffer_size < ssize + payload.size() - maxPayloadSize + 4) {
             return -1;
         }
-- 
2.43.0


From a8af85dd1d8f19a54cf1bcc8b920dd56f1961ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 21/78] fix: re-check the entry to executing mode when a
 federate leaves during initialization

---
 src/helics/core/TimeCoordinatorProcessing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index 74b8d88..1b6b460 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -186,6 +186,12 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                         break;
                 }
                 if (state != FederateStates::EXECUTING) {
+                    if (state == FederateStates::INITIALIZING) {
+                        // this could have been the last one to wait for
+                        cmd.setAction(CMD_EXEC_CHECK);
+                        cmd.dest_id = localID;
+                        proc = MessageProcessingResult::REPROCESS_MESSAGE;
+                    }
                     break;
                 }
                 if (!timeGranted_mode) {
-- 
2.43.0


From 0051ad1f14a2d44c4bcbd57f37ce36c67413b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 22/78] fix: account for disconnects before executing mode in
 the time coordination of cores and brokers

---
 src/helics/core/CommonCore.cpp                |  2 ++
 src/helics/core/CoreBroker.cpp                | 14 ++++++++------
 src/helics/core/ForwardingTimeCoordinator.cpp |  5 ++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index d3bbf93..7c7532f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5179,6 +5179,8 @@ void CommonCore::processCommandsForCore(const ActionMessage& cmd)
             auto res = timeCoord->checkExecEntry();
             if (res == MessageProcessingResult::NEXT_STEP) {
                 enteredExecutionMode = true;
+            } else if (isDisconnectCommand(cmd)) {
+                timeCoord->updateTimeFactors();
             }
         } else {
             if (timeCoord->processTimeMessage(cmd) != TimeProcessingResult::NOT_PROCESSED) {
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 2e56eb1..a06c019 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3359,12 +3359,14 @@ void CoreBroker::disconnectTiming(ActionMessage& command)
 {
     if (hasTimeDependency) {
         if (!enteredExecutionMode) {
-            if (getBrokerState() >= BrokerState::OPERATING) {
-                if (timeCoord->processTimeMessage(command) != TimeProcessingResult::NOT_PROCESSED) {
-                    auto res = timeCoord->checkExecEntry();
-                    if (res == MessageProcessingResult::NEXT_STEP) {
-                        enteredExecutionMode = true;
-                    }
+            // the dependency is gone in any case, before initialization as well
+            if (timeCoord->processTimeMessage(command) != TimeProcessingResult::NOT_PROCESSED &&
+                getBrokerState() >= BrokerState::OPERATING) {
+                auto res = timeCoord->checkExecEntry();
+                if (res == MessageProcessingResult::NEXT_STEP) {
+                    enteredExecutionMode = true;
+                } else {
+                    timeCoord->updateTimeFactors();
                 }
             }
         } else {
diff --git a/src/helics/core/ForwardingTimeCoordinator.cpp b/src/helics/core/ForwardingTimeCoordinator.cpp
index 730498b..1ed1c10 100644
--- a/src/helics/core/ForwardingTimeCoordinator.cpp
+++ b/src/helics/core/ForwardingTimeCoordinator.cpp
@@ -163,7 +163,10 @@ TimeProcessingResult ForwardingTimeCoordinator::processTimeMessage(const ActionM
 MessageProcessingResult ForwardingTimeCoordinator::checkExecEntry(GlobalFederateId /*triggerFed*/)
 {
     auto ret = MessageProcessingResult::CONTINUE_PROCESSING;
-
+    if (disconnected) {
+        // everybody was told that this one is gone
+        return ret;
+    }
     if (!dependencies.checkIfReadyForExecEntry(false, false)) {
         bool allowed{false};
         if (downstream.mTimeState == TimeState::exec_requested_iterative) {
-- 
2.43.0


From 81b1fca00123fede5f54160f8c2714fd17c63b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 23/78] fix: let initialization proceed when the last one it
 waited for leaves

---
 src/helics/core/CommonCore.cpp | 6 ++++++
 src/helics/core/CoreBroker.cpp | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 7c7532f..4a543b3 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4901,6 +4901,12 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     if ((!checkAndProcessDisconnect()) || preOperating || alreadyTerminating) {
                         cmd.setAction(CMD_DISCONNECT_FED);
                         transmit(parent_route_id, cmd);
+                        if (cstate == BrokerState::CONNECTED &&
+                            minFederateState() != OperatingState::DISCONNECTED) {
+                            // the others need not wait for this one to initialize
+                            ActionMessage init(CMD_INIT, cmd.source_id, parent_broker_id);
+                            processInitRequest(init);
+                        }
                         if ((preOperating || alreadyTerminating ||
                              minFederateState() != OperatingState::DISCONNECTED ||
                              filterFed != nullptr || translatorFed != nullptr) &&
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index a06c019..f424728 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3388,13 +3388,17 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
         }
     }
 
+    bool readyForInit{false};
     if (brk != nullptr) {
         LOG_CONNECTIONS(parent_broker_id,
                         getIdentifier(),
                         fmt::format("got disconnect from {}({})",
                                     brk->name,
                                     command.source_id.baseValue()));
+        const bool wasReady = allInitReady();
         disconnectBroker(*brk);
+        readyForInit =
+            !wasReady && getBrokerState() < BrokerState::OPERATING && allInitReady();
     }
 
     if ((getAllConnectionState() >= ConnectionState::DISCONNECTED)) {
@@ -3461,6 +3465,11 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
                 }
             }
         }
+        if (readyForInit) {
+            // everybody else was waiting for the one that is gone
+            ActionMessage init(CMD_INIT, command.source_id, parent_broker_id);
+            processInitCommand(init);
+        }
     }
 }
 
-- 
2.43.0


From 12309afe0d4168da1310a55e232851520ccc349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 24/78] fix: propagate global errors through sub-brokers, which
 then disconnect as well

---
 src/helics/core/CoreBroker.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index f424728..90adacc 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3292,22 +3292,28 @@ void CoreBroker::processError(ActionMessage& command)
                  std::string_view(),
                  command.payload.to_string());
     if (command.source_id == global_broker_id_local) {
-        setBrokerState(BrokerState::ERRORED);
         if (command.action() == CMD_GLOBAL_ERROR) {
+            // this also arranges for the disconnect
             setErrorState(command.messageID, command.payload.to_string());
+        } else {
+            setBrokerState(BrokerState::ERRORED);
         }
         broadcast(command);
         if (!isRootc) {
-            command.setAction(CMD_LOCAL_ERROR);
+            if (command.action() != CMD_GLOBAL_ERROR) {
+                command.setAction(CMD_LOCAL_ERROR);
+            }
             transmit(parent_route_id, std::move(command));
         }
         return;
     }
 
     if (command.source_id == parent_broker_id || command.source_id == gRootBrokerID) {
-        setBrokerState(BrokerState::ERRORED);
         if (command.action() == CMD_GLOBAL_ERROR) {
+            // this also arranges for the disconnect
             setErrorState(command.messageID, command.payload.to_string());
+        } else {
+            setBrokerState(BrokerState::ERRORED);
         }
         broadcast(command);
         return;
@@ -3342,8 +3348,8 @@ void CoreBroker::processError(ActionMessage& command)
             break;
         case CMD_GLOBAL_ERROR:
             setErrorState(command.messageID, command.payload.to_string());
-            if (!(isRootc || command.dest_id == global_broker_id_local ||
-                  command.dest_id == parent_broker_id)) {
+            if (!isRootc) {
+                // the root broker tells everybody
                 transmit(parent_route_id, command);
             } else {
                 command.source_id = global_broker_id_local;
-- 
2.43.0


From 61970f3079c45d30d2ac9396caf5a4a78ee0bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 25/78] fix: a federate in an error state that finalizes leaves
 the federation

---
 src/helics/application_api/Federate.cpp |  7 ++++++-
 src/helics/core/CommonCore.cpp          | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 4a8c80a..1435bd0 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -795,8 +795,13 @@ void Federate::finalize()
             asyncCallInfo->lock()
                 ->timeRequestIterativeFuture.get();  // I don't care about the return any more
             break;
-        case Modes::FINALIZE:
         case Modes::ERROR_STATE:
+            // still in an error but no longer a member of the federation
+            if (coreObject) {
+                coreObject->finalize(fedID);
+            }
+            return;
+        case Modes::FINALIZE:
             return;
             // do nothing
         case Modes::PENDING_FINALIZE:
diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 4a543b3..b1d5e37 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -549,6 +549,10 @@ void CommonCore::finalize(LocalFederateId federateID)
         case BrokerState::TERMINATING:
         case BrokerState::TERMINATING_ERROR:
         case BrokerState::ERRORED: {
+            if (fed->getState() == FederateStates::ERRORED) {
+                // nothing is left to be done for it
+                return;
+            }
             ActionMessage bye(CMD_STOP);
             bye.source_id = fed->global_id.load();
             bye.dest_id = bye.source_id;
@@ -558,7 +562,12 @@ void CommonCore::finalize(LocalFederateId federateID)
         default: {
             ActionMessage bye(CMD_DISCONNECT);
             bye.source_id = fed->global_id.load();
-            bye.dest_id = bye.source_id;
+            // a federate with an error does not process messages anymore
+            if (fed->getState() == FederateStates::ERRORED) {
+                bye.dest_id = parent_broker_id;
+            } else {
+                bye.dest_id = bye.source_id;
+            }
             addActionMessage(bye);
         } break;
     }
-- 
2.43.0


From 61ccd20b3536cf44b27b2e91bf87793615d46d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 26/78] fix: tell the dependents of a federate with a local
 error so that they can go on

---
 src/helics/core/CommonCore.cpp                |  6 ++++++
 src/helics/core/CoreBroker.cpp                | 12 ++++++------
 src/helics/core/TimeCoordinatorProcessing.cpp |  9 ++++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index b1d5e37..1ea849f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4582,6 +4582,12 @@ void CommonCore::processLogAndErrorCommand(ActionMessage& cmd)
 
                     if (hasTimeDependency) {
                         timeCoord->processTimeMessage(cmd);
+                        if (!enteredExecutionMode &&
+                            timeCoord->checkExecEntry() == MessageProcessingResult::NEXT_STEP) {
+                            enteredExecutionMode = true;
+                        } else {
+                            timeCoord->updateTimeFactors();
+                        }
                     }
                 }
                 if (terminate_on_error) {
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 90adacc..1947932 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3338,12 +3338,12 @@ void CoreBroker::processError(ActionMessage& command)
                 processError(command);
                 return;
             }
-            if (!(isRootc || command.dest_id == global_broker_id_local ||
-                  command.dest_id == parent_broker_id)) {
-                transmit(parent_route_id, command);
-            }
-            if (hasTimeDependency) {
-                timeCoord->processTimeMessage(command);
+            if (command.dest_id != global_broker_id_local &&
+                command.dest_id != parent_broker_id) {
+                // for somebody who depends on the one with the error
+                routeMessage(command);
+            } else {
+                disconnectTiming(command);
             }
             break;
         case CMD_GLOBAL_ERROR:
diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index 1b6b460..c089a91 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -186,7 +186,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                         break;
                 }
                 if (state != FederateStates::EXECUTING) {
-                    if (state == FederateStates::INITIALIZING) {
+                    if (state == FederateStates::INITIALIZING &&
+                        proc != MessageProcessingResult::DELAY_MESSAGE) {
                         // this could have been the last one to wait for
                         cmd.setAction(CMD_EXEC_CHECK);
                         cmd.dest_id = localID;
@@ -305,6 +306,12 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                         break;
                 }
                 if (state != FederateStates::EXECUTING) {
+                    if (state == FederateStates::INITIALIZING && !returnable) {
+                        // this could have been the last one to wait for
+                        cmd.setAction(CMD_EXEC_CHECK);
+                        cmd.dest_id = localID;
+                        proc = MessageProcessingResult::REPROCESS_MESSAGE;
+                    }
                     break;
                 }
                 if (returnable) {
-- 
2.43.0


From 88e18d67e953a8a8893f8c8f723928da76aad5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 27/78] fix: a failed asynchronous time request left the
 federate in executing mode

---
 src/helics/application_api/Federate.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 1435bd0..19daf94 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -1060,7 +1060,15 @@ Time Federate::requestTimeComplete()
     auto exp = Modes::PENDING_TIME;
     if (currentMode.compare_exchange_strong(exp, Modes::EXECUTING)) {
         auto asyncInfo = asyncCallInfo->lock();
-        auto newTime = asyncInfo->timeRequestFuture.get();
+        Time newTime;
+        try {
+            newTime = asyncInfo->timeRequestFuture.get();
+        }
+        catch (const HelicsException&) {
+            // as for requestTime
+            updateFederateMode(Modes::ERROR_STATE);
+            throw;
+        }
         asyncInfo.unlock();  // remove the lock;
         postTimeRequestOperations(newTime, false);
         return newTime;
-- 
2.43.0


From 978ad4c5e7a574d31757c1c89f64349c0fc82b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 28/78] fix: sub-brokers ignored the ping of the root broker
 and were cut off after the timeout

---
 src/helics/core/ActionMessageDefintions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessageDefintions.hpp b/src/helics/core/ActionMessageDefintions.hpp
index 682ddd0..3b106f0 100644
--- a/src/helics/core/ActionMessageDefintions.hpp
+++ b/src/helics/core/ActionMessageDefintions.hpp
@@ -234,7 +234,7 @@ across different compilers*/
 #define CMD_PING action_message_def::action_t::cmd_ping
 #define CMD_PING_PRIORITY action_message_def::action_t::cmd_ping_priority
 
-#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_setup
+#define CMD_BROKER_PING action_message_def::action_t::cmd_broker_ping
 #define CMD_PING_REPLY action_message_def::action_t::cmd_ping_reply
 #define CMD_BROKER_SETUP action_message_def::action_t::cmd_broker_setup
 #define CMD_BROKER_LOCATION action_message_def::action_t::cmd_broker_location
-- 
2.43.0


From d990ad162837ebe644622166a67a7d22a2112c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 29/78] fix: the receive buffer of a TCP connection request was
 gone when a late answer came

---
 src/helics/network/tcp/TcpComms.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/helics/network/tcp/TcpComms.cpp b/src/helics/network/tcp/TcpComms.cpp
index 5b9420f..b1a7408 100644
--- a/src/helics/network/tcp/TcpComms.cpp
+++ b/src/helics/network/tcp/TcpComms.cpp
@@ -327,16 +327,17 @@ bool TcpComms::establishBrokerConnection(
                 logError(std::string("error in initial send to broker ") + error.what());
                 return terminate(ConnectionStatus::ERRORED);
             }
-            std::vector<char> receivedData(512);
+            // the receive operation can outlive this attempt, so it shares the buffer
+            auto receivedData = std::make_shared<std::vector<char>>(512);
             brokerConnection->async_receive(
-                receivedData.data(),
+                receivedData->data(),
                 128,
-                [this, &receivedData](const std::error_code& error, size_t bytes) {
+                [this, receivedData](const std::error_code& error, size_t bytes) {
                     if (!error) {
-                        txReceive(receivedData.data(), bytes, std::string());
+                        txReceive(receivedData->data(), bytes, std::string());
                     } else {
                         if (error != asio::error::operation_aborted) {
-                            txReceive(receivedData.data(), bytes, error.message());
+                            txReceive(receivedData->data(), bytes, error.message());
                         }
                     }
                 });
-- 
2.43.0


From 86bb04664b874f282ccf9dceb8363a632c6c8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 30/78] fix: the root broker waited for a ping of cores that
 had left their sub-broker

---
 src/helics/core/TimeoutMonitor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/TimeoutMonitor.cpp b/src/helics/core/TimeoutMonitor.cpp
index 770c717..5ee54c5 100644
--- a/src/helics/core/TimeoutMonitor.cpp
+++ b/src/helics/core/TimeoutMonitor.cpp
@@ -178,6 +178,10 @@ void TimeoutMonitor::pingSub(CoreBroker* brk)
     auto now = std::chrono::steady_clock::now();
     bool activePing = false;
     for (const auto& brkr : brk->mBrokers) {
+        if (brkr._nonLocal) {
+            // its own broker pings it and knows when it has disconnected
+            continue;
+        }
         size_t cindex = connections.size();
         for (size_t ii = 0; ii < cindex; ++ii) {
             if (connections[ii].connection == brkr.global_id) {
-- 
2.43.0


From 678aae3266e32ab592e5adc976e0ce02a5fb33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 31/78] fix: connections were no longer monitored after a core
 had left with a ping outstanding

---
 src/helics/core/TimeoutMonitor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helics/core/TimeoutMonitor.cpp b/src/helics/core/TimeoutMonitor.cpp
index 5ee54c5..83c85b5 100644
--- a/src/helics/core/TimeoutMonitor.cpp
+++ b/src/helics/core/TimeoutMonitor.cpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "CoreBroker.hpp"
 #include "loggingHelper.hpp"
 
+#include <algorithm>
 #include <string>
 #include <utility>
 
@@ -114,6 +115,17 @@ void TimeoutMonitor::tick(CoreBroker* brk)
 
     for (auto& conn : connections) {
         if (conn.waitingForPingReply) {
+            const bool departed = std::any_of(brk->mBrokers.begin(),
+                                              brk->mBrokers.end(),
+                                              [&conn](const auto& brkr) {
+                                                  return conn.connection == brkr.global_id &&
+                                                      brkr.state >= ConnectionState::DISCONNECTED;
+                                              });
+            if (departed) {
+                // no reply is coming, and none is needed
+                conn.waitingForPingReply = false;
+                continue;
+            }
             waiting = true;
             if (now - conn.lastPing > timeout) {
                 ActionMessage cerror(CMD_CONNECTION_ERROR);
-- 
2.43.0


From a77702a8f79535aff663d62929005b9b1d2d7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 32/78] fix: a broker that lost the connection with its parent
 never reported itself as disconnected

---
 src/helics/core/TimeoutMonitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/TimeoutMonitor.cpp b/src/helics/core/TimeoutMonitor.cpp
index 83c85b5..328da19 100644
--- a/src/helics/core/TimeoutMonitor.cpp
+++ b/src/helics/core/TimeoutMonitor.cpp
@@ -103,7 +103,7 @@ void TimeoutMonitor::tick(CoreBroker* brk)
                               "broker lost connection with parent");
             brk->sendErrorToImmediateBrokers(-5);
             brk->sendDisconnect(CMD_GLOBAL_DISCONNECT);
-            brk->brokerState = BrokerBase::BrokerState::ERRORED;
+            brk->setBrokerState(BrokerBase::BrokerState::ERRORED);
             brk->addActionMessage(CMD_STOP);
         } else {  // ping again
             ActionMessage png(CMD_PING_PRIORITY);
-- 
2.43.0


From 2121a8b887a24302ccbe380451b4323663bf36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 33/78] fix: a lost connection below a sub-broker was not
 noticed when the sub-broker itself was pinged

---
 src/helics/core/TimeoutMonitor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/TimeoutMonitor.cpp b/src/helics/core/TimeoutMonitor.cpp
index 328da19..04aed3b 100644
--- a/src/helics/core/TimeoutMonitor.cpp
+++ b/src/helics/core/TimeoutMonitor.cpp
@@ -212,8 +212,11 @@ void TimeoutMonitor::pingSub(CoreBroker* brk)
                 continue;
             }
             connections[cindex].activeConnection = true;
-            connections[cindex].waitingForPingReply = true;
-            connections[cindex].lastPing = now;
+            if (!connections[cindex].waitingForPingReply) {
+                // otherwise the time is counted from the ping that was not answered
+                connections[cindex].waitingForPingReply = true;
+                connections[cindex].lastPing = now;
+            }
             // send the ping
             ActionMessage png(brkr._core ? CMD_PING : CMD_BROKER_PING);
             png.source_id = brk->global_broker_id_local;
-- 
2.43.0


From 68490b0911b92a7b97d099eda8fc4e5a6b2c289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 34/78] fix: the root broker ignored the report of a sub-broker
 about a lost connection

---
 src/helics/core/CoreBroker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 1947932..23d774e 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1163,7 +1163,8 @@ void CoreBroker::processCommand(ActionMessage&& command)
         case CMD_CONNECTION_ERROR:
             // if anyone else as has terminated assume they finalized and the connection was
             // lost
-            if (command.dest_id == global_broker_id_local) {
+            if (command.dest_id == global_broker_id_local ||
+                command.dest_id == parent_broker_id) {
                 bool partDisconnected{false};
                 bool ignore{false};
                 for (const auto& brk : mBrokers) {
-- 
2.43.0


From 9ee3b8c43eafbf53c2cac20d8d7aad85ab9bb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 35/78] fix: a broker in the error state ended without
 reporting that it had disconnected

---
 src/helics/core/CoreBroker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 23d774e..61f1268 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2591,7 +2591,10 @@ void CoreBroker::processDisconnect(bool skipUnregister)
 {
     auto cBrokerState = getBrokerState();
     if (cBrokerState >= BrokerState::TERMINATING) {
-        return;
+        // the error state can be entered before the disconnect has been processed
+        if (cBrokerState != BrokerState::ERRORED || disconnection.isTriggered()) {
+            return;
+        }
     }
     if (cBrokerState > BrokerState::CONFIGURED) {
         LOG_CONNECTIONS(parent_broker_id, getIdentifier(), "||disconnecting");
-- 
2.43.0


From 4e8458030b13e4491c50eb3f782a1dd971ab664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 36/78] fix: pings between some members kept a broker from
 noticing the loss of others

---
 src/helics/core/BrokerBase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index a7b52a3..9c3aad4 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -939,9 +939,14 @@ void BrokerBase::queueProcessingLoop()
         if (command.action() == CMD_IGNORE) {
             continue;
         }
+        // the pings of some do not tell that the others are still there
+        const bool pingTraffic =
+            command.action() == CMD_PING_PRIORITY || command.action() == CMD_PING_REPLY;
         auto ret = commandProcessor(command);
         if (ret == CMD_IGNORE) {
-            ++messagesSinceLastTick;
+            if (!pingTraffic) {
+                ++messagesSinceLastTick;
+            }
             continue;
         }
         switch (ret) {
-- 
2.43.0


From fc90c00060507e7dc937efa70b703671d054dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 37/78] fix: a lost core was taken for one that had left
 although its federates were still needed

---
 src/helics/core/CoreBroker.cpp | 20 ++++++++++++++++++--
 src/helics/core/CoreBroker.hpp |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 61f1268..3188b12 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1181,8 +1181,14 @@ void CoreBroker::processCommand(ActionMessage&& command)
                 if (ignore) {
                     break;
                 }
-                if (partDisconnected) {  // we are going to assume it disconnected just assume
-                                         // broker even though it may be a core, there
+                // the others still depend on federates which have not left yet, so losing those is
+                // always an error for the root to deal with, only the direct parent knows about
+                // them
+                const auto* lost = getBrokerById(GlobalBrokerId{command.source_id});
+                if ((partDisconnected || !isRootc) && lost != nullptr && !lost->_nonLocal &&
+                    !hasActiveFederates(lost->global_id)) {
+                    // we are going to assume it disconnected just assume
+                    // broker even though it may be a core, there
                     // probably isn't any difference for this purpose
                     LOG_CONNECTIONS(global_broker_id_local,
                                     getIdentifier(),
@@ -3582,6 +3588,16 @@ void CoreBroker::markAsDisconnected(GlobalBrokerId brkid)
     }
 }
 
+bool CoreBroker::hasActiveFederates(GlobalBrokerId brkid) const
+{
+    for (const auto& fed : mFederates) {
+        if (fed.parent == brkid && fed.state < ConnectionState::ERROR_STATE) {
+            return true;
+        }
+    }
+    return false;
+}
+
 void CoreBroker::disconnectBroker(BasicBrokerInfo& brk)
 {
     markAsDisconnected(brk.global_id);
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index 2d10dbb..6b3c2f3 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -369,6 +369,8 @@ class CoreBroker: public Broker, public BrokerBase {
     void disconnectBroker(BasicBrokerInfo& brk);
     /** mark this broker and all other that have this as a parent as disconnected*/
     void markAsDisconnected(GlobalBrokerId brkid);
+    /** check if any federate reached through a direct child has not left yet*/
+    bool hasActiveFederates(GlobalBrokerId brkid) const;
     /** check to make sure there are no in-flight queries that need to be resolved*/
     void checkInFlightQueries(GlobalBrokerId brkid);
     /** run a check for a named interface*/
-- 
2.43.0


From 84378d0fa04981d7a8862fc01b5f805326a58312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 38/78] fix: timeouts were not checked while other messages
 kept coming in

---
 src/helics/core/BrokerBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index 9c3aad4..643d8ec 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -988,6 +988,7 @@ void BrokerBase::queueProcessingLoop()
                     processCommand(std::move(command));
                 } else if (forwardTick) {
                     command.messageID = forwardingReasons;
+                    processCommand(std::move(command));
                 }
 #endif
                 messagesSinceLastTick = 0;
-- 
2.43.0


From 7f060083a224dc7790a7c90175739d6dd4fcb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 39/78] fix: asynchronous queries used the strings of the
 caller after they were gone

---
 src/helics/application_api/Federate.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 19daf94..a071c54 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -1871,9 +1871,12 @@ QueryId Federate::queryAsync(std::string_view target,
     if (singleThreadFederate) {
         throw(helics::InvalidFunctionCall("No Async calls are allowed in single thread federates"));
     }
-    auto queryFut = std::async(std::launch::async, [this, target, queryStr, mode]() {
-        return coreObject->query(target, queryStr, mode);
-    });
+    // the strings the caller gave may be gone by the time the query is made
+    auto queryFut = std::async(std::launch::async,
+                               [this,
+                                target = std::string(target),
+                                queryStr = std::string(queryStr),
+                                mode]() { return coreObject->query(target, queryStr, mode); });
     auto asyncInfo = asyncCallInfo->lock();
     int cnt = asyncInfo->queryCounter++;
 
@@ -1886,8 +1889,10 @@ QueryId Federate::queryAsync(std::string_view queryStr, HelicsSequencingModes mo
     if (singleThreadFederate) {
         throw(helics::InvalidFunctionCall("No Async calls are allowed in single thread federates"));
     }
-    auto queryFut =
-        std::async(std::launch::async, [this, queryStr, mode]() { return query(queryStr, mode); });
+    auto queryFut = std::async(std::launch::async,
+                               [this, queryStr = std::string(queryStr), mode]() {
+                                   return query(queryStr, mode);
+                               });
     auto asyncInfo = asyncCallInfo->lock();
     int cnt = asyncInfo->queryCounter++;
 
-- 
2.43.0


From d155f87a35953ad6aa8e554a78566ec0eaf66bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 40/78] fix: a query for the tags of a federate ended the
 thread of its core

---
 src/helics/core/queryHelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/queryHelpers.cpp b/src/helics/core/queryHelpers.cpp
index bc8ae45..0bfba2e 100644
--- a/src/helics/core/queryHelpers.cpp
+++ b/src/helics/core/queryHelpers.cpp
@@ -37,7 +37,7 @@ void addFederateTags(nlohmann::json& v, const FederateState* fed)
         v["tags"] = nlohmann::json::array();
 
         for (size_t ii = 0; ii < fed->tagCount(); ++ii) {
-            nlohmann::json tagBlock = nlohmann::json::array();
+            nlohmann::json tagBlock = nlohmann::json::object();
             const auto& tg = fed->getTagByIndex(ii);
             tagBlock["name"] = tg.first;
             tagBlock["value"] = tg.second;
-- 
2.43.0


From 026b59b6b1b808ef10253dd878fc7fea685905bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 41/78] fix: a query for subscriptions released the lock of the
 federate twice

---
 src/helics/core/FederateState.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index c7cd650..4e30c69 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2730,7 +2730,6 @@ std::string FederateState::processQueryActual(std::string_view query) const
             }
         }
         ipts.unlock();
-        unlock();
         auto str = subs.str();
         if (str.back() == ';') {
             str.pop_back();
-- 
2.43.0


From 303f1949e309e5cb3124d5d6353de99ff75436a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 42/78] fix: a query sent to a core whose registration was
 still under way crashed it

---
 src/helics/core/CoreBroker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 3188b12..85a2780 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -4070,6 +4070,10 @@ void CoreBroker::initializeMapBuilder(std::string_view request,
     bool hasCores = false;
     bool hasBrokers = false;
     for (const auto& broker : mBrokers) {
+        if (!broker.global_id.isValid()) {
+            // the registration is still under way and it could not be addressed
+            continue;
+        }
         if (broker.parent == global_broker_id_local) {
             switch (broker.state) {
                 case ConnectionState::CONNECTED:
-- 
2.43.0


From de1b2aedb788bbc7df3aefd6215b41e861e361b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 43/78] fix: answers to queries were reused after further
 members had joined

---
 src/helics/core/CommonCore.cpp | 2 +-
 src/helics/core/CoreBroker.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 1ea849f..b801bd8 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5369,7 +5369,7 @@ int CommonCore::generateMapObjectCounter() const
 {
     int result = static_cast<int>(getBrokerState());
     for (const auto& fed : loopFederates) {
-        result += static_cast<int>(fed.state);
+        result += static_cast<int>(fed.state) + 1;
     }
     result += static_cast<int>(loopHandles.size());
     return result;
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 85a2780..4862ae1 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -930,12 +930,13 @@ void CoreBroker::generateTimeBarrier(ActionMessage& message)
 
 int CoreBroker::generateMapObjectCounter() const
 {
+    // members that just connected count for nothing by their state so include them separately
     int result = static_cast<int>(getBrokerState());
     for (const auto& brk : mBrokers) {
-        result += static_cast<int>(brk.state);
+        result += static_cast<int>(brk.state) + 1;
     }
     for (const auto& fed : mFederates) {
-        result += static_cast<int>(fed.state);
+        result += static_cast<int>(fed.state) + 1;
     }
     result += static_cast<int>(handles.size());
     return result;
-- 
2.43.0


From ffbdb17e941e8306e6a1fb34fd204dc8fa7837ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 44/78] fix: a query for the global status ended the broker
 when a federate had left

---
 src/helics/core/CoreBroker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4862ae1..f97b938 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3996,6 +3996,10 @@ std::string CoreBroker::generateGlobalStatus(fileops::JsonMapBuilder& builder)
     }
     for (auto& core : builder.getJValue()["cores"]) {
         for (auto& fed : core["federates"]) {
+            // a federate that has left answers with its state only
+            if (!fed.contains("granted_time") || !fed["granted_time"].is_number()) {
+                continue;
+            }
             auto granted = fed["granted_time"].get<double>();
             if (granted < minTime) {
                 minTime = granted;
-- 
2.43.0


From 5bdeda7b087f899d5f0dfdf3dd806df86e33a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 45/78] fix: a query between federates of one core waited
 forever if the other one left

---
 src/helics/core/CommonCore.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index b801bd8..98687a0 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5163,6 +5163,14 @@ void CommonCore::processQueryCommand(ActionMessage& cmd)
                     repStr = federateQuery(fedptr, cmd.payload.to_string(), force_ordered);
                     if (repStr == "#wait") {
                         if (fedptr != nullptr) {
+                            if (cmd.source_id == gDirectCoreId) {
+                                // the federate could leave without ever answering
+                                if (queryTimeouts.empty()) {
+                                    setTickForwarding(TickForwardingReasons::QUERY_TIMEOUT, true);
+                                }
+                                queryTimeouts.emplace_back(cmd.messageID,
+                                                           std::chrono::steady_clock::now());
+                            }
                             cmd.dest_id = fedptr->global_id;
                             fedptr->addAction(std::move(cmd));
                             break;
-- 
2.43.0


From 521e9d290bed3d0bd0a92fd1f76c29c5e2312697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 46/78] fix: a query for a structure sent to a core by its name
 crashed it

---
 src/helics/core/CommonCore.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 98687a0..48a0f91 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5158,6 +5158,13 @@ void CommonCore::processQueryCommand(ActionMessage& cmd)
                 if (target == getIdentifier()) {
                     queryResp.source_id = global_broker_id_local;
                     repStr = coreQuery(cmd.payload.to_string(), force_ordered);
+                    if (repStr == "#wait") {
+                        // the answer is generated once the federates have responded
+                        std::get<1>(
+                            mapBuilders[commonCoreMapIndex().at(cmd.payload.to_string()).first])
+                            .push_back(queryResp);
+                        break;
+                    }
                 } else {
                     auto* fedptr = getFederateCore(target);
                     repStr = federateQuery(fedptr, cmd.payload.to_string(), force_ordered);
-- 
2.43.0


From f181359038ba9b575909d650d29beaf317fbc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 47/78] fix: only the last of several federates of a core
 asking the same got an answer

---
 src/helics/core/CommonCore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 48a0f91..35b3173 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4321,7 +4321,8 @@ void CommonCore::processQueryResponse(const ActionMessage& message)
                 str = "{\"status\":true}";
             }
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
@@ -5401,14 +5402,16 @@ void CommonCore::checkInFlightQueriesForDisconnect()
         if (builder.clearComponents()) {
             auto str = builder.generate();
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
                     routeMessage(std::move(requesters[ii]));
                 }
             }
-            if (requesters.back().dest_id == global_broker_id_local) {
+            if (requesters.back().dest_id == global_broker_id_local ||
+                requesters.back().dest_id == gDirectCoreId) {
                 activeQueries.setDelayedValue(requesters.back().messageID, std::move(str));
             } else {
                 requesters.back().payload = std::move(str);
-- 
2.43.0


From 05c04ec5d71012e31e8f25b7eafbe2c461f5a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 48/78] fix: the answer to a query of a core that had left went
 back and forth between brokers forever

---
 src/helics/core/CoreBroker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index f97b938..b78e466 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -4329,6 +4329,11 @@ void CoreBroker::processQueryCommand(ActionMessage& cmd)
             if (cmd.dest_id == global_broker_id_local) {
                 processQueryResponse(cmd);
             } else {
+                const auto* brk = getBrokerById(GlobalBrokerId(cmd.dest_id));
+                if (brk != nullptr && brk->state == ConnectionState::DISCONNECTED) {
+                    // its route is gone, the reply would go back and forth between the brokers
+                    break;
+                }
                 transmit(getRoute(cmd.dest_id), cmd);
             }
             break;
-- 
2.43.0


From d1dde4d31e70d8f2d437849f717ba97ff1e5ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 49/78] fix: answers put together while members joined were
 reused for later queries

---
 src/helics/core/CommonCore.cpp | 8 ++------
 src/helics/core/CoreBroker.cpp | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 35b3173..1c72066 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -2818,6 +2818,8 @@ void CommonCore::initializeMapBuilder(std::string_view request,
     std::get<2>(mapBuilders[index]) = reuse;
     auto& builder = std::get<0>(mapBuilders[index]);
     builder.reset();
+    // anything that changes while the answers are collected might be missing in them
+    builder.setCounterCode(generateMapObjectCounter());
     nlohmann::json& base = builder.getJValue();
     addBaseInformation(base, true);
     ActionMessage queryReq(force_ordering ? CMD_QUERY_ORDERED : CMD_QUERY);
@@ -3031,10 +3033,6 @@ std::string CommonCore::coreQuery(std::string_view queryStr, bool force_ordering
 
         initializeMapBuilder(queryStr, index, maploc->second.second, force_ordering);
         if (std::get<0>(mapBuilders[index]).isCompleted()) {
-            if (maploc->second.second == QueryReuse::ENABLED) {
-                auto center = generateMapObjectCounter();
-                std::get<0>(mapBuilders[index]).setCounterCode(center);
-            }
             return std::get<0>(mapBuilders[index]).generate();
         }
         return "#wait";
@@ -4340,8 +4338,6 @@ void CommonCore::processQueryResponse(const ActionMessage& message)
             requesters.clear();
             if (std::get<2>(mapBuilders[message.counter]) == QueryReuse::DISABLED) {
                 builder.reset();
-            } else {
-                builder.setCounterCode(generateMapObjectCounter());
             }
         }
     }
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index b78e466..42b7501 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3931,10 +3931,6 @@ std::string CoreBroker::generateQueryAnswer(std::string_view request, bool force
 
         initializeMapBuilder(request, index, mapping->second.second, force_ordering);
         if (std::get<0>(mapBuilders[index]).isCompleted()) {
-            if (mapping->second.second == QueryReuse::ENABLED) {
-                auto center = generateMapObjectCounter();
-                std::get<0>(mapBuilders[index]).setCounterCode(center);
-            }
             if (index == GLOBAL_STATUS) {
                 return generateGlobalStatus(std::get<0>(mapBuilders[index]));
             }
@@ -4062,6 +4058,8 @@ void CoreBroker::initializeMapBuilder(std::string_view request,
     std::get<2>(mapBuilders[index]) = reuse;
     auto& builder = std::get<0>(mapBuilders[index]);
     builder.reset();
+    // anything that changes while the answers are collected might be missing in them
+    builder.setCounterCode(generateMapObjectCounter());
     nlohmann::json& base = builder.getJValue();
     addBaseInformation(base, !isRootc);
     base["brokers"] = nlohmann::json::array();
@@ -4558,8 +4556,6 @@ void CoreBroker::processQueryResponse(const ActionMessage& message)
             requesters.clear();
             if (std::get<2>(mapBuilders[message.counter]) == QueryReuse::DISABLED) {
                 builder.reset();
-            } else {
-                builder.setCounterCode(generateMapObjectCounter());
             }
         }
     }
-- 
2.43.0


From 26f43b88f0cd9186babe6ed9e6c53f4bf5dffd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 50/78] fix: clearing a time barrier by its identifier cleared
 the default one instead

---
 src/helics/core/CoreBroker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 42b7501..20957ff 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -911,6 +911,7 @@ void CoreBroker::generateTimeBarrier(ActionMessage& message)
     if (checkActionFlag(message, cancel_flag)) {
         ActionMessage cancelBarrier(CMD_TIME_BARRIER_CLEAR);
         cancelBarrier.source_id = global_broker_id_local;
+        cancelBarrier.messageID = message.messageID;
         if (cancelBarrier.messageID == 0) {
             cancelBarrier.messageID = global_broker_id_local.baseValue();
         }
-- 
2.43.0


From 66051e53268fefd18f1cfc6e4268efa03dd0f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 51/78] fix: a "log" command without text ended the core or
 broker that received it

---
 src/helics/core/BrokerBase.cpp    | 3 ++-
 src/helics/core/FederateState.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index 643d8ec..5c79310 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -695,9 +695,10 @@ std::pair<bool, std::vector<std::string_view>>
         command.setString(sourceStringLoc, identifier);
         addActionMessage(command);
     } else if (res[0] == "log") {
+        const auto text = command.payload.to_string();
         LOG_SUMMARY(global_broker_id_local,
                     command.getString(sourceStringLoc),
-                    command.payload.to_string().substr(4));
+                    (text.size() > 4) ? text.substr(4) : std::string_view{});
     } else if (res[0] == "logbuffer") {
         if (res.size() > 1) {
             if (res[1] == "stop") {
diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 4e30c69..72c553c 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2647,9 +2647,10 @@ void FederateState::sendCommand(ActionMessage& command)
     } else if (res[0] == "timeout_monitor") {
         setProperty(defs::Properties::GRANT_TIMEOUT, command.actionTime);
     } else if (res[0] == "log") {
+        const auto text = command.payload.to_string();
         logMessage(HELICS_LOG_LEVEL_SUMMARY,
                    command.getString(sourceStringLoc),
-                   command.payload.to_string().substr(4));
+                   (text.size() > 4) ? text.substr(4) : std::string_view{});
     } else if ((res[0] == "set") && (res.size() > 2 && res[1] == "barrier")) {
         ActionMessage barrier(CMD_TIME_BARRIER);
         barrier.dest_id = global_id;
-- 
2.43.0


From f76ae50baaefb6e9cd0083a5836cdcd9a5ef41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 52/78] fix: waiting for a command answered only the first of
 several "notify" commands

---
 src/helics/core/FederateState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 72c553c..2595d55 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2692,7 +2692,7 @@ std::pair<std::string, std::string> FederateState::getCommand()
 std::pair<std::string, std::string> FederateState::waitCommand()
 {
     auto val = commandQueue.pop();
-    if (val.first == "notify") {
+    while (val.first == "notify") {
         if (mParent != nullptr) {
             mParent->sendCommand(val.second,
                                  "notify_response",
-- 
2.43.0


From 32d184316dc835f51ae758249c2b6a0e9ebeb0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 53/78] fix: commands that contain a # reached the federate cut
 off

---
 src/helics/core/BrokerBase.cpp    |  2 +-
 src/helics/core/FederateState.cpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index 5c79310..8e5bef3 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -665,7 +665,7 @@ std::pair<bool, std::vector<std::string_view>>
     auto cmd = command.payload.to_string();
     auto commentLoc = cmd.find('#');
     if (commentLoc != std::string_view::npos) {
-        cmd = cmd.substr(0, commentLoc - 1);
+        cmd = cmd.substr(0, commentLoc);
     }
     gmlc::utilities::string_viewOps::trimString(cmd);
     auto res = gmlc::utilities::string_viewOps::splitlineQuotes(
diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 2595d55..afdbdd0 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2559,7 +2559,7 @@ void FederateState::sendCommand(ActionMessage& command)
     auto cmd = command.payload.to_string();
     auto commentLoc = cmd.find('#');
     if (commentLoc != std::string_view::npos) {
-        cmd = cmd.substr(0, commentLoc - 1);
+        cmd = cmd.substr(0, commentLoc);
     }
     gmlc::utilities::string_viewOps::trimString(cmd);
     auto res = gmlc::utilities::string_viewOps::splitlineQuotes(
@@ -2568,6 +2568,10 @@ void FederateState::sendCommand(ActionMessage& command)
         gmlc::utilities::string_viewOps::default_quote_chars,
         gmlc::utilities::string_viewOps::delimiter_compression::on);
     if (res.empty()) {
+        if (!command.payload.empty()) {
+            // not one for HELICS
+            commandQueue.emplace(command.payload.to_string(), command.getString(sourceStringLoc));
+        }
         return;
     }
 
@@ -2670,7 +2674,9 @@ void FederateState::sendCommand(ActionMessage& command)
         }
         queue.push(barrier);
     } else {
-        commandQueue.emplace(cmd, command.getString(sourceStringLoc));
+        // the text for the user is delivered as it was sent
+        commandQueue.emplace((cmd == "notify") ? cmd : command.payload.to_string(),
+                             command.getString(sourceStringLoc));
     }
 }
 
-- 
2.43.0


From db0d417b5918fe53d34563b67ffa39744efb29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 54/78] fix: federates that joined later got only the last time
 barrier, under another identifier

---
 src/helics/core/CoreBroker.cpp | 10 +++++-----
 src/helics/core/CoreBroker.hpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 20957ff..deb9ffb 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -685,10 +685,10 @@ void CoreBroker::fedRegistration(ActionMessage&& command)
             setActionFlag(fedEnableProfiling, indicator_flag);
             transmit(route_id, fedEnableProfiling);
         }
-        if (mNextTimeBarrier < Time::maxVal()) {
+        for (const auto& barrier : mTimeBarriers) {
             ActionMessage timeBarrier(CMD_TIME_BARRIER, global_broker_id_local, global_fedid);
-            timeBarrier.actionTime = mNextTimeBarrier;
-            timeBarrier.messageID = global_broker_id_local.baseValue();
+            timeBarrier.actionTime = barrier.second;
+            timeBarrier.messageID = barrier.first;
             transmit(route_id, timeBarrier);
         }
     }
@@ -915,7 +915,7 @@ void CoreBroker::generateTimeBarrier(ActionMessage& message)
         if (cancelBarrier.messageID == 0) {
             cancelBarrier.messageID = global_broker_id_local.baseValue();
         }
-        mNextTimeBarrier = Time::maxVal();
+        mTimeBarriers.erase(cancelBarrier.messageID);
         broadcast(cancelBarrier);
         return;
     }
@@ -924,7 +924,7 @@ void CoreBroker::generateTimeBarrier(ActionMessage& message)
     if (message.messageID == 0) {
         message.messageID = global_broker_id_local.baseValue();
     }
-    mNextTimeBarrier = message.actionTime;
+    mTimeBarriers[message.messageID] = message.actionTime;
     // time should already be set
     broadcast(message);
 }
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index 6b3c2f3..f210ffa 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -157,7 +157,7 @@ class CoreBroker: public Broker, public BrokerBase {
     Time mTimeMonitorLastLogTime{Time::minVal()};  //!< the time of the last timing log message
     Time mTimeMonitorCurrentTime{Time::minVal()};  //!< the last time from the timing federate
     std::atomic<double> simTime{mInvalidSimulationTime};  //!< loaded simTime for logging
-    Time mNextTimeBarrier{Time::maxVal()};  //!< the last known time barrier
+    std::map<std::int32_t, Time> mTimeBarriers;  //!< the time barriers in place by identifier
   private:
     /** function that processes all the messages
     @param command -- the message to process
-- 
2.43.0


From 1932200485616dfc8651d8d853bb49e4722f0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 55/78] fix: a federate told to terminate could ask for another
 time after it had announced its departure

---
 src/helics/core/FederateState.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index afdbdd0..81fd653 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -1514,6 +1514,10 @@ MessageProcessingResult FederateState::processActionMessage(ActionMessage& cmd)
     if (cmd.action() == CMD_TIME_REQUEST) {
         if ((cmd.source_id == global_id.load()) &&
             checkActionFlag(cmd, indicator_flag)) {  // this sets up a time request
+            if (state == FederateStates::TERMINATING || state == FederateStates::FINISHED) {
+                // the others were told that this one left
+                return MessageProcessingResult::CONTINUE_PROCESSING;
+            }
             requestingMode.store(true);
             IterationRequest iterate = IterationRequest::NO_ITERATIONS;
             if (checkActionFlag(cmd, iteration_requested_flag)) {
-- 
2.43.0


From 3bd504deceb411b8df92cb6a117e3973aad56e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 56/78] fix: federates waiting for their release when the core
 was told to stop waited forever

---
 src/helics/core/CommonCore.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 1c72066..a63a4b3 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4894,6 +4894,16 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     translatorThread.store(std::thread::id{});
                 }
             }
+            for (auto fed : loopFederates) {
+                // nothing more comes for those that still wait to be released
+                const auto fedState = fed->getState();
+                if (fedState != FederateStates::FINISHED && fedState != FederateStates::ERRORED) {
+                    ActionMessage halt(CMD_STOP);
+                    halt.source_id = global_broker_id_local;
+                    halt.dest_id = fed->global_id.load();
+                    fed->addAction(halt);
+                }
+            }
             activeQueries.fulfillAllPromises("#disconnected");
             break;
         case CMD_DISCONNECT:
-- 
2.43.0


From c664d178c19aa0261f1fc40a040dd1090f4c861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 57/78] fix: a core told to disconnect did not announce the
 departure of its federates to those that depend on them

---
 src/helics/core/CommonCore.cpp | 21 +++++++++++++++++++++
 src/helics/core/CommonCore.hpp |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index a63a4b3..f488823 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3566,6 +3566,10 @@ void CommonCore::processCommand(ActionMessage&& command)
             [[fallthrough]];
         case CMD_TIME_REQUEST:
             if (isLocal(command.source_id)) {
+                if (getBrokerState() >= BrokerState::TERMINATING) {
+                    // the others already know that it left
+                    break;
+                }
                 if (hasTimeBlock(command.source_id)) {
                     delayedTimingMessages[command.source_id.baseValue()].push_back(command);
                     break;
@@ -4793,6 +4797,9 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     BrokerState::TERMINATING) {  // only send a disconnect message
                                                  // if we haven't done so already
                     setBrokerState(BrokerState::TERMINATING);
+                    if (cmd.action() == CMD_USER_DISCONNECT) {
+                        disconnectFromDependents();
+                    }
                     sendDisconnect();
                 }
             } else if (getBrokerState() ==
@@ -5432,6 +5439,20 @@ void CommonCore::checkInFlightQueriesForDisconnect()
     }
 }
 
+void CommonCore::disconnectFromDependents()
+{
+    for (auto fed : loopFederates) {
+        const auto fedState = fed->getState();
+        if (fedState == FederateStates::INITIALIZING || fedState == FederateStates::EXECUTING) {
+            ActionMessage bye(CMD_DISCONNECT);
+            bye.source_id = fed->global_id.load();
+            for (const auto& dependent : fed->getDependents()) {
+                routeMessage(bye, dependent);
+            }
+        }
+    }
+}
+
 void CommonCore::sendDisconnect(action_message_def::action_t disconnectType)
 {
     LOG_CONNECTIONS(global_broker_id_local, identifier, "sending disconnect");
diff --git a/src/helics/core/CommonCore.hpp b/src/helics/core/CommonCore.hpp
index a290a08..5800f41 100644
--- a/src/helics/core/CommonCore.hpp
+++ b/src/helics/core/CommonCore.hpp
@@ -574,6 +574,8 @@ class CommonCore: public Core, public BrokerBase {
     bool checkAndProcessDisconnect();
     /** send a disconnect message to time dependencies and child federates*/
     void sendDisconnect(action_message_def::action_t disconnectType = CMD_STOP);
+    /** tell those that depend on the federates of the core that they are gone*/
+    void disconnectFromDependents();
     /** broadcast a message to all federates*/
     void broadcastToFederates(ActionMessage& cmd);
     /** generate a counter for when to reset object*/
-- 
2.43.0


From e692d8ff7707396058da8124f015cd8587fa64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 58/78] fix: a destination filter that drops a message made its
 core dereference a null message

---
 src/helics/core/FilterFederate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 44783b9..e5af0a6 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -437,6 +437,11 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     auto tempMessage = createMessageFromCommand(std::move(command));
                     auto odest = tempMessage->dest;
                     auto nmessage = ffunc->destFilter->filterOp->process(std::move(tempMessage));
+                    if (!nmessage) {
+                        // the filter dropped the message
+                        command = CMD_IGNORE;
+                        return false;
+                    }
                     if (odest == nmessage->dest) {
                         command = std::move(nmessage);
                     } else {
-- 
2.43.0


From 8dcd2c44934d87573aa34e399a403f989e6f8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 59/78] fix: a destination filter was refused when a cloning
 filter was registered on the endpoint before

---
 src/helics/core/FilterFederate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index e5af0a6..9ba8298 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -797,7 +797,7 @@ void FilterFederate::processFilterInfo(ActionMessage& command)
                 mHandles->getInterfaceHandle(command.dest_handle, InterfaceType::ENDPOINT);
             if (endhandle != nullptr) {
                 setActionFlag(*endhandle, has_dest_filter_flag);
-                if ((!checkActionFlag(command, clone_flag)) && (filterC->hasDestFilters)) {
+                if ((!checkActionFlag(command, clone_flag)) && (filterC->destFilter != nullptr)) {
                     // duplicate non cloning destination filters are not allowed
                     ActionMessage err(CMD_ERROR);
                     err.dest_id = command.source_id;
-- 
2.43.0


From 994d9984fe3fa8e864f2da5b1e8ea9f12fc87dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 60/78] fix: a filter used its operation after the filter
 object was destroyed

---
 src/helics/application_api/Filters.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/Filters.cpp b/src/helics/application_api/Filters.cpp
index e085207..dfdf30b 100644
--- a/src/helics/application_api/Filters.cpp
+++ b/src/helics/application_api/Filters.cpp
@@ -124,7 +124,11 @@ void Filter::setOperator(std::shared_ptr<FilterOperator> filterOp)
 void Filter::setFilterOperations(std::shared_ptr<FilterOperations> filterOps)
 {
     filtOp = std::move(filterOps);
-    mCore->setFilterOperator(handle, (filtOp) ? filtOp->getOperator() : nullptr);
+    // the operator refers to the operations object, which must stay as long as the core can use it
+    mCore->setFilterOperator(handle,
+                             (filtOp) ? std::shared_ptr<FilterOperator>(
+                                            filtOp, filtOp->getOperator().get()) :
+                                        nullptr);
 }
 
 void Filter::set(std::string_view property, double val)
-- 
2.43.0


From ef9dc60928603f244c7c8bc91f3efc3193114105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 61/78] fix: a message from another core that a destination
 filter sent elsewhere arrived at its old destination

---
 src/helics/core/FilterFederate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 9ba8298..c37de0f 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -447,6 +447,8 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     } else {
                         // handle destination reroute filters
                         command = std::move(nmessage);
+                        command.dest_id = parent_broker_id;
+                        command.dest_handle = InterfaceHandle{};
                         mDeliverMessage(command);
                         return false;
                     }
-- 
2.43.0


From f292eadac3b0e27c8e3a179ff5013c5027de831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 62/78] fix: results of remote filters that came back in
 another order than requested blocked the time of the filters forever

---
 src/helics/core/FilterFederate.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index c37de0f..5b076ff 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -16,6 +16,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "helics_definitions.hpp"
 #include "queryHelpers.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 #include <string>
@@ -416,7 +417,7 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                                                              // processing destination filter
                     // first block the federate time advancement until the return is
                     // received
-                    auto mid = ++messageCounter;
+                    auto mid = messageCounter++;
                     auto fed_id = handle->getFederateId();
                     generateDestProcessMarker(handle->getFederateId(), mid, command.actionTime);
 
@@ -521,12 +522,13 @@ void FilterFederate::clearTimeReturn(int32_t id)
         return;
     }
     bool recheckTime = false;
-    if (timeBlockProcesses.front().first == id) {
-        if (timeBlockProcesses.front().second == minReturnTime) {
-            recheckTime = true;
-        }
-        timeBlockProcesses.pop_front();
-    } else {
+    // the results do not have to come back in the order of the requests
+    auto process = std::find_if(timeBlockProcesses.begin(),
+                                timeBlockProcesses.end(),
+                                [id](const auto& tBP) { return tBP.first == id; });
+    if (process != timeBlockProcesses.end()) {
+        recheckTime = (process->second == minReturnTime);
+        timeBlockProcesses.erase(process);
     }
     if (recheckTime) {
         minReturnTime = cBigTime;
-- 
2.43.0


From bef96ac5dd247886f7df4d59585fe2610e2bc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 63/78] fix: the time of the filters stayed blocked after a
 remote filter had returned its result

---
 src/helics/core/FilterFederate.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 5b076ff..ce38d40 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -537,7 +537,17 @@ void FilterFederate::clearTimeReturn(int32_t id)
                 minReturnTime = tBP.second;
             }
         }
-        mCoord.updateMessageTime(minReturnTime, current_state == FederateStates::EXECUTING);
+        if (current_state == FederateStates::EXECUTING) {
+            // updating the message time can only move it earlier
+            mCoord.timeRequest(cBigTime,
+                               IterationRequest::NO_ITERATIONS,
+                               cBigTime,
+                               minReturnTime);
+            ActionMessage check(CMD_TIME_CHECK);
+            check.setSource(GlobalHandle{mFedID, InterfaceHandle()});
+            check.dest_id = mFedID;
+            mQueueMessage(check);
+        }
     }
 }
 
-- 
2.43.0


From 7a55e98cb8ee13efa6398ef9b1896032f3f58316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 64/78] fix: a filter on another core could not return its
 result when filters before it had replaced the message

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index ce38d40..f545ba6 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -381,6 +381,7 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
         size_t ii = 0;
         for (auto& filt : filtFunc->sourceFilters) {
             if (checkActionFlag(*filt, disconnected_flag)) {
+                ++ii;
                 continue;
             }
             auto press = executeFilter(command, filt);
@@ -389,6 +390,9 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
                     return command;
                 }
                 command.counter = static_cast<uint16_t>(ii);
+                // filters that ran before may have replaced the message, the source is needed to
+                // return the result
+                command.setSource(handle->handle);
                 if (ii < filtFunc->sourceFilters.size() - 1) {
                     command.setAction(CMD_SEND_FOR_FILTER_AND_RETURN);
                     command.sequenceID = messageCounter++;
-- 
2.43.0


From 35b10451e2cfbb051357b2133b662ae9b5a6a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 65/78] fix: a filter announced an earlier time again when the
 time of its dependencies was undefined for a moment

The request of a core may carry an event time before its own next time; the minimum over the dependencies is
then undefined and the next time of the filters fell back to the first possible time, which their core and its
broker answered with an endless exchange of requests.
---
 src/helics/core/TimeCoordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index af9a4f8..fc3be5f 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -577,6 +577,11 @@ bool TimeCoordinator::updateTimeFactors()
     time_minminDe = total.minDe;
     const Time prev_next = time_next;
     updateNextPossibleEventTime();
+    if (nonGranting && time_minminDe < timeZero && time_next < prev_next) {
+        // the time of the dependencies is undefined for now, that does not take back what was
+        // established before
+        time_next = prev_next;
+    }
 
     //    printf("%d UPDATE next=%f, minminDE=%f, Tdemin=%f\n", source_id,
     //    static_cast<double>(time_next),
-- 
2.43.0


From ace41c3cd3d86502cfe0a15f789c88815b2c9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:02 +0000
Subject: [PATCH 66/78] fix: filters linked to endpoints by a core or a broker
 were not used by the endpoint

---
 src/helics/core/CommonCore.cpp | 1 +
 src/helics/core/CoreBroker.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index f488823..a165571 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4506,6 +4506,7 @@ void CommonCore::processLinkingCommand(ActionMessage& cmd)
                 cmd.name(cmd.getString(targetStringLoc));
                 cmd.setAction(CMD_ADD_NAMED_ENDPOINT);
                 cmd.setSource(filt->handle);
+                cmd.counter = static_cast<uint16_t>(InterfaceType::FILTER);
                 if (checkActionFlag(*filt, clone_flag)) {
                     setActionFlag(cmd, clone_flag);
                 }
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index deb9ffb..6fe4917 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2355,6 +2355,7 @@ void CoreBroker::linkInterfaces(ActionMessage& command)
                 command.payload = command.getString(targetStringLoc);
                 command.setAction(CMD_ADD_NAMED_ENDPOINT);
                 command.setSource(filt->handle);
+                command.counter = static_cast<uint16_t>(InterfaceType::FILTER);
                 if (checkActionFlag(*filt, clone_flag)) {
                     setActionFlag(command, clone_flag);
                 }
@@ -3258,6 +3259,7 @@ void CoreBroker::findAndNotifyFilterTargets(BasicHandleInfo& handleInfo, const s
         link.setSource(handleInfo.handle);
         link.flags = handleInfo.flags;
         setActionFlag(link, destination_target);
+        link.counter = static_cast<uint16_t>(InterfaceType::FILTER);
         if (checkActionFlag(handleInfo, clone_flag)) {
             setActionFlag(link, clone_flag);
         }
@@ -3270,6 +3272,7 @@ void CoreBroker::findAndNotifyFilterTargets(BasicHandleInfo& handleInfo, const s
         link.name(target);
         link.flags = handleInfo.flags;
         link.setSource(handleInfo.handle);
+        link.counter = static_cast<uint16_t>(InterfaceType::FILTER);
         if (checkActionFlag(handleInfo, clone_flag)) {
             setActionFlag(link, clone_flag);
         }
-- 
2.43.0


From 254855f1139a394671a5be7cc10bc8b5554ac2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 67/78] fix: a sub-broker with only targeted endpoints below it
 waited for times its cores never sent

A targeted endpoint does not make its core depend on the broker, but the sub-broker above
made itself a dependency of its parent for it: the parent then waited for exec requests
that never came.
---
 src/helics/core/CoreBroker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 6fe4917..0c6612b 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2202,7 +2202,8 @@ void CoreBroker::addEndpoint(ActionMessage& message)
 
     if (!isRootc) {
         transmit(parent_route_id, message);
-        if (!globalTime && !asyncTime) {
+        // a targeted endpoint only depends on the endpoints it is linked with
+        if (!globalTime && !asyncTime && !checkActionFlag(message, targeted_flag)) {
             // the time dependency flag cannot be used here, a core adds itself as a dependency before
             // the endpoint registration gets here
             if (timeCoord->addDependency(higher_broker_id)) {
-- 
2.43.0


From 59df0a0e282b05b8b317cd7dd79e6348444c6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 68/78] fix: a sub-broker with filters but no endpoints below
 it was left out of the timing

The sub-broker passes the time of the cores with filters up, but it never told its parent
about the dependency: endpoints elsewhere were granted times while their messages were
still in the remote filter.
---
 src/helics/core/CoreBroker.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 0c6612b..942f044 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2237,6 +2237,20 @@ void CoreBroker::addFilter(ActionMessage& message)
 
     if (!isRootc) {
         transmit(parent_route_id, message);
+        // the core of the filter depends on this broker for its timing, like the core of an endpoint
+        if (!globalTime && !asyncTime) {
+            if (timeCoord->addDependency(higher_broker_id)) {
+                hasTimeDependency = true;
+                ActionMessage add(CMD_ADD_INTERDEPENDENCY,
+                                  global_broker_id_local,
+                                  higher_broker_id);
+                setActionFlag(add, child_flag);
+                transmit(parent_route_id, add);
+
+                timeCoord->addDependent(higher_broker_id);
+                timeCoord->setAsParent(higher_broker_id);
+            }
+        }
     } else {
         findAndNotifyFilterTargets(filt, filt.key);
     }
-- 
2.43.0


From 2945244616bc67c1aff85ce3ca41cd321b35420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 69/78] fix: a federate could wait forever for an event time it
 had sent to itself

The federate of a core without other timing depends on itself. While its other dependencies
were passed only its own message was left, with a minimal dependent time computed before:
nothing changed that any more.
---
 src/helics/core/TimeDependencies.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index c7ec5bd..ef50235 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -787,7 +787,12 @@ static void generateMinTimeImplementation(TimeData& mTime,
         return;
     }
 
-    if (dep.connection != ConnectionType::SELF &&
+    if (dep.connection == ConnectionType::SELF && dep.mTimeState != TimeState::time_granted) {
+        // while it waits a federate does nothing that affects itself before its own next event
+        if (dep.Te >= dep.next && dep.Te < mTime.minDe) {
+            mTime.minDe = dep.Te;
+        }
+    } else if (dep.connection != ConnectionType::SELF &&
         (sequenceCode == 0 || dep.responseSequenceCounter == sequenceCode ||
          dep.timingVersion == 0 || !dep.dependent)) {
         if (dep.minDe >= dep.next) {
-- 
2.43.0


From ac8cfbba3e5ef27eac33509156cbd73220cc8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 70/78] fix: with a minimum change set, a first value near zero
 was never published

---
 src/helics/application_api/Publications.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/Publications.hpp b/src/helics/application_api/Publications.hpp
index db5a64f..ebfac86 100644
--- a/src/helics/application_api/Publications.hpp
+++ b/src/helics/application_api/Publications.hpp
@@ -36,7 +36,7 @@ class HELICS_CXX_EXPORT Publication: public Interface {
   private:
     size_t customTypeHash{
         0};  //!< a hash code for the custom type = 0; //!< store a hash code for a custom type
-    mutable defV prevValue;  //!< the previous value of the publication
+    mutable defV prevValue{invalidDouble};  //!< the previous value of the publication
     std::string pubUnits;  //!< the defined units of the publication
     std::shared_ptr<units::precise_unit>
         pubUnitType;  //!< a unit representation of the publication unit Type;
-- 
2.43.0


From 85aaa3739456c2e7a81f71f792fedbc5fe46757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 71/78] fix: with a minimum time gap, the first value of a
 publication was held back

---
 src/helics/core/PublicationInfo.cpp | 2 +-
 src/helics/core/PublicationInfo.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 59958a0..6204adc 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -20,7 +20,7 @@ bool PublicationInfo::CheckSetValue(const char* dataToCheck,
                                     Time currentTime,
                                     bool forceChangeCheck)
 {
-    if (minTimeGap > timeZero) {
+    if (minTimeGap > timeZero && lastPublishTime > Time::minVal()) {
         if (currentTime - lastPublishTime < minTimeGap) {
             return false;
         }
diff --git a/src/helics/core/PublicationInfo.hpp b/src/helics/core/PublicationInfo.hpp
index db8fc13..8731c24 100644
--- a/src/helics/core/PublicationInfo.hpp
+++ b/src/helics/core/PublicationInfo.hpp
@@ -40,7 +40,7 @@ class PublicationInfo {
     const std::string type;  //!< the type of the publication data
     const std::string units;  //!< the units of the publication data
     SmallBuffer data;  //!< the most recent publication data
-    Time lastPublishTime{timeZero};  //!< the time of the last publication
+    Time lastPublishTime{Time::minVal()};  //!< the time of the last publication (if any)
     bool has_update{false};  //!< indicator that the publication has updates
     bool only_update_on_change{false};
     bool required{false};  //!< indicator that it is required to be output someplace
-- 
2.43.0


From ea84ab31b54c825e08d83077f79f3e633d46e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 72/78] fix: the boolean multi-input operations took a floating
 point zero as true

---
 src/helics/application_api/Inputs.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/helics/application_api/Inputs.cpp b/src/helics/application_api/Inputs.cpp
index ee2b46a..bfae111 100644
--- a/src/helics/application_api/Inputs.cpp
+++ b/src/helics/application_api/Inputs.cpp
@@ -474,9 +474,11 @@ bool Input::vectorDataProcess(const std::vector<std::shared_ptr<const SmallBuffe
             type = (targetType == DataType::HELICS_UNKNOWN) ? DataType::HELICS_DOUBLE : targetType;
             break;
     }
-    // convert everything to a uniform type
-    for (auto& ival : res) {
-        valueConvert(ival, type);
+    // convert everything to a uniform type, the boolean operations evaluate each value as it is
+    if (type != DataType::HELICS_BOOL) {
+        for (auto& ival : res) {
+            valueConvert(ival, type);
+        }
     }
     defV result;
     switch (inputVectorOp) {
-- 
2.43.0


From 58e88c2aee6e89ed001f99067f15c183d1d3e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 73/78] fix: a duplicate interface name found by a sub-broker
 was never refused

---
 src/helics/core/CoreBroker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 942f044..e56f536 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2108,7 +2108,8 @@ bool CoreBroker::checkInterfaceCreation(ActionMessage& message, InterfaceType ty
 
     // detect duplicate InterfaceName;
     if (existingName) {
-        ActionMessage eret(CMD_LOCAL_ERROR, global_broker_id_local, message.source_id);
+        // a federate only takes such an error from its core or from the root broker
+        ActionMessage eret(CMD_LOCAL_ERROR, gRootBrokerID, message.source_id);
         eret.dest_handle = message.source_handle;
         eret.messageID = defs::Errors::REGISTRATION_FAILURE;
         eret.payload =
-- 
2.43.0


From f693499ebdf6880582d5d8fbdde75568b21c40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 74/78] fix: an error meant for one federate took down the
 sub-broker above it

---
 src/helics/core/CoreBroker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index e56f536..5e77765 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3340,6 +3340,12 @@ void CoreBroker::processError(ActionMessage& command)
     }
 
     if (command.source_id == parent_broker_id || command.source_id == gRootBrokerID) {
+        if (command.action() != CMD_GLOBAL_ERROR && command.dest_id != global_broker_id_local &&
+            command.dest_id != parent_broker_id) {
+            // an error of somebody below this broker
+            routeMessage(command);
+            return;
+        }
         if (command.action() == CMD_GLOBAL_ERROR) {
             // this also arranges for the disconnect
             setErrorState(command.messageID, command.payload.to_string());
-- 
2.43.0


From 8f388141b881cf0dd3d11bf1ceeba3ac5918e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:59 +0000
Subject: [PATCH 75/78] fix: a forced grant meant for an earlier real-time
 request ended the next one

---
 src/helics/core/FederateState.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 81fd653..c20bd76 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -730,6 +730,7 @@ iteration_time FederateState::requestTime(Time nextTime, IterationRequest iterat
                 ActionMessage tforce(CMD_FORCE_TIME_GRANT);
                 tforce.source_id = global_id.load();
                 tforce.actionTime = nextTime;
+                tforce.setExtraData(static_cast<std::int32_t>(mGrantCount));
                 if (realTimeTimerIndex < 0) {
                     realTimeTimerIndex =
                         mTimer->addTimer(current_clock_time + current_lead, std::move(tforce));
@@ -742,6 +743,7 @@ iteration_time FederateState::requestTime(Time nextTime, IterationRequest iterat
                 ActionMessage tforce(CMD_FORCE_TIME_GRANT);
                 tforce.source_id = global_id.load();
                 tforce.actionTime = nextTime;
+                tforce.setExtraData(static_cast<std::int32_t>(mGrantCount));
                 addAction(tforce);
             }
         } else if (grantTimeOutPeriod > timeZero) {
@@ -1511,6 +1513,11 @@ MessageProcessingResult FederateState::processActionMessage(ActionMessage& cmd)
 {
     LOG_TRACE(fmt::format("processing command {}", prettyPrintString(cmd)));
 
+    if (cmd.action() == CMD_FORCE_TIME_GRANT &&
+        static_cast<std::int32_t>(mGrantCount) != cmd.getExtraData()) {
+        // it was meant for a previous request which was granted in the meantime
+        return MessageProcessingResult::CONTINUE_PROCESSING;
+    }
     if (cmd.action() == CMD_TIME_REQUEST) {
         if ((cmd.source_id == global_id.load()) &&
             checkActionFlag(cmd, indicator_flag)) {  // this sets up a time request
-- 
2.43.0


From 8637c069770d9017b5c6c5d56a04dbc9ae84b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:59 +0000
Subject: [PATCH 76/78] fix: leaving before initialization with a grant timeout
 crashed

---
 src/helics/core/FederateState.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index c20bd76..7f29d87 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -995,7 +995,8 @@ void FederateState::finalize()
     }
     auto ret = MessageProcessingResult::NEXT_STEP;
 #ifndef HELICS_DISABLE_ASIO
-    if (grantTimeOutPeriod > timeZero) {
+    // the timer only exists once the federate was initialized
+    if (grantTimeOutPeriod > timeZero && mTimer) {
         ActionMessage grantCheck(CMD_GRANT_TIMEOUT_CHECK);
         grantCheck.setExtraData(static_cast<std::int32_t>(mGrantCount));
         grantCheck.counter = 0;
@@ -1018,7 +1019,7 @@ void FederateState::finalize()
     }
 #ifndef HELICS_DISABLE_ASIO
     ++mGrantCount;
-    if (grantTimeOutPeriod > timeZero) {
+    if (grantTimeOutPeriod > timeZero && mTimer) {
         mTimer->cancelTimer(grantTimeoutTimeIndex);
     }
 #endif
-- 
2.43.0


From 677d5f27005e116758fac08c73085203c1baeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 77/78] fix: C interface refused global publications of type
 char and json

---
 src/helics/shared_api_library/ValueFederateExport.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/helics/shared_api_library/ValueFederateExport.cpp b/src/helics/shared_api_library/ValueFederateExport.cpp
index 356e23d..1c04376 100644
--- a/src/helics/shared_api_library/ValueFederateExport.cpp
+++ b/src/helics/shared_api_library/ValueFederateExport.cpp
@@ -221,12 +221,14 @@ HelicsPublication
     if (!fedObj) {
         return nullptr;
     }
-    if ((type < 0) || (type > HELICS_DATA_TYPE_TIME)) {
+    if ((type < HELICS_DATA_TYPE_STRING) || (type > HELICS_DATA_TYPE_CHAR)) {
         if (type == HELICS_DATA_TYPE_RAW) {
             return helicsFederateRegisterGlobalTypePublication(fed, key, "raw", units, err);
         }
-        assignError(err, HELICS_ERROR_INVALID_ARGUMENT, unknownTypeCode);
-        return nullptr;
+        if (type != HELICS_DATA_TYPE_JSON) {
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, unknownTypeCode);
+            return nullptr;
+        }
     }
 
     try {
-- 
2.43.0


From efe857d52f776cfff9bcd02c94870417e015559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:38 +0000
Subject: [PATCH 78/78] fix: typed reads after an update was read as bytes gave
 an older value

---
 src/helics/application_api/Inputs.cpp | 8 +++++---
 src/helics/application_api/Inputs.hpp | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/Inputs.cpp b/src/helics/application_api/Inputs.cpp
index bfae111..0bfbeaa 100644
--- a/src/helics/application_api/Inputs.cpp
+++ b/src/helics/application_api/Inputs.cpp
@@ -661,6 +661,7 @@ void Input::addPublication(std::string_view target)
 
 data_view Input::getBytes()
 {
+    bytesOnly = bytesOnly || hasUpdate || fed->isUpdated(*this);
     hasUpdate = false;
     return fed->getBytes(*this);
 }
@@ -802,9 +803,10 @@ void integerExtractAndConvert(defV& store,
 
 data_view Input::checkAndGetFedUpdate()
 {
-    return ((fed != nullptr) && (fed->isUpdated(*this) || allowDirectFederateUpdate())) ?
-        (fed->getBytes(*this)) :
-        data_view{};
+    const bool retrieve =
+        (fed != nullptr) && (fed->isUpdated(*this) || allowDirectFederateUpdate());
+    bytesOnly = false;
+    return retrieve ? fed->getBytes(*this) : data_view{};
 }
 
 void Input::forceCoreDataUpdate()
diff --git a/src/helics/application_api/Inputs.hpp b/src/helics/application_api/Inputs.hpp
index 1c70ae7..7411087 100644
--- a/src/helics/application_api/Inputs.hpp
+++ b/src/helics/application_api/Inputs.hpp
@@ -47,6 +47,7 @@ class HELICS_CXX_EXPORT Input: public Interface {
         DataType::HELICS_UNKNOWN};  //!< the type of data coming from the publication
     bool changeDetectionEnabled{false};  //!< the change detection is enabled
     bool hasUpdate{false};  //!< the value has been updated
+    bool bytesOnly{false};  //!< the last update was retrieved as bytes and is not in lastValue yet
     bool disableAssign{false};  //!< disable assignment for the object
     bool useThreshold{false};  //!< flag to indicate use a threshold for binary output
     bool multiUnits{false};  //!< flag indicating there are multiple Input Units
@@ -413,7 +414,7 @@ class HELICS_CXX_EXPORT Input: public Interface {
     /** check if updates from the federate are allowed*/
     bool allowDirectFederateUpdate() const
     {
-        return hasUpdate && !changeDetectionEnabled &&
+        return (hasUpdate || bytesOnly) && !changeDetectionEnabled &&
             inputVectorOp == MultiInputHandlingMethod::NO_OP;
     }
     data_view checkAndGetFedUpdate();
-- 
2.43.0

