From 0a75a2e8553f686708d3ec87491332b7e81562a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 01/72] fix: guest must not become connected when the host
 refused it

A DotsMsgConnectResponse with accepted=false was treated like an accepted
one, so that a refused guest became early_subscribe/connected.
---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..d396d13 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -338,6 +338,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "connection request was refused by host" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From 3875048013151f42153b920c01f6927481c51246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 02/72] fix: report the closed state of a connection only once

An error on an already closed connection (e.g. a failing pending write)
invoked the transition handler a second time.
---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index d396d13..d7782d2 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -306,6 +306,11 @@ namespace dots
 
     void Connection::handleClose(std::exception_ptr ePtr)
     {
+        if (m_connectionState == DotsConnectionState::closed)
+        {
+            return;
+        }
+
         m_receiveHandler = std::nullopt;
         expectSystemType<DotsMsgError>(property_set_t::None, nullptr);
         setConnectionState(DotsConnectionState::closed, ePtr);
-- 
2.43.0


From b0389faa061b1e12a3e5dee8c4cf319009c0ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 03/72] fix: destroying a connection that was never started

The destructor invoked the transition handler, which is only set by
asyncReceive().
---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index d7782d2..3ceed06 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -478,6 +478,11 @@ namespace dots
             LOG_ERROR_S("error while handling transition for connection " << peerDescription() << " -> " << e.what());
         }
 
+        if (m_transitionHandler == std::nullopt)
+        {
+            return;
+        }
+
         try
         {
             (*m_transitionHandler)(*this, e);
-- 
2.43.0


From 01425ed629ac9b68dea09def1c5ed97736244a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 04/72] fix: defer removal of handlers until no dispatch is
 running

A handler removed while dispatches were nested was erased although an outer
dispatch was still iterating over or executing it, and a handler that had been
removed by a nested dispatch was called again.
---
 lib/include/dots/Dispatcher.h | 20 ++++++++++--
 lib/src/Dispatcher.cpp        | 57 ++++++++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 86c61fa..6e64d8f 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #include <map>
+#include <set>
 #include <unordered_map>
 #include <functional>
 #include <dots/type/AnyStruct.h>
@@ -332,6 +333,19 @@ namespace dots
 
     private:
 
+        struct DispatchScope
+        {
+            DispatchScope(Dispatcher& dispatcher);
+            DispatchScope(const DispatchScope& other) = delete;
+            DispatchScope(DispatchScope&& other) = delete;
+            ~DispatchScope();
+
+            DispatchScope& operator = (const DispatchScope& rhs) = delete;
+            DispatchScope& operator = (DispatchScope&& rhs) = delete;
+
+            Dispatcher& dispatcher;
+        };
+
         using transmission_handlers_t = std::map<id_t, transmission_handler_t, std::greater<>>;
         using transmission_handler_pool_t = std::unordered_map<const type::StructDescriptor*, transmission_handlers_t>;
 
@@ -347,8 +361,10 @@ namespace dots
         template <typename Handlers, typename Dispatchable>
         void dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable);
 
-        std::optional<id_t> m_currentlyDispatchingId;
-        std::vector<id_t> m_removeIds;
+        void eraseRemovedHandlers();
+
+        size_t m_dispatchDepth = 0;
+        std::set<id_t> m_removeIds;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
         event_handler_pool_t m_eventHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..1d8f01c 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Dispatcher.h>
+#include <utility>
+#include <vector>
 
 namespace dots
 {
@@ -108,11 +110,13 @@ namespace dots
         {
             auto& handlers = itHandlers->second;
 
-            if (auto itHandler = handlers.find(id); itHandler != handlers.end())
+            if (auto itHandler = handlers.find(id); itHandler != handlers.end() && m_removeIds.count(id) == 0)
             {
-                if (id == m_currentlyDispatchingId)
+                // note: handlers can not be erased while any of them might still
+                // be running or be iterated over, including nested dispatches
+                if (m_dispatchDepth > 0)
                 {
-                    m_removeIds.emplace_back(id);
+                    m_removeIds.emplace(id);
                 }
                 else
                 {
@@ -184,26 +188,63 @@ namespace dots
     template <typename Handlers, typename Dispatchable>
     void Dispatcher::dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable)
     {
+        DispatchScope dispatchScope{ *this };
+
         for (const auto& [id, handler] : handlers)
         {
+            if (m_removeIds.count(id) != 0)
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(dispatchable);
             }
             catch (...)
             {
                 m_errorHandler(descriptor, std::current_exception());
             }
+        }
+    }
 
-            m_currentlyDispatchingId = std::nullopt;
+    Dispatcher::DispatchScope::DispatchScope(Dispatcher& dispatcher) :
+        dispatcher{ dispatcher }
+    {
+        ++dispatcher.m_dispatchDepth;
+    }
+
+    Dispatcher::DispatchScope::~DispatchScope()
+    {
+        if (--dispatcher.m_dispatchDepth == 0)
+        {
+            dispatcher.eraseRemovedHandlers();
         }
+    }
 
-        for (id_t id : m_removeIds)
+    void Dispatcher::eraseRemovedHandlers()
+    {
+        if (m_removeIds.empty())
         {
-            handlers.erase(id);
+            return;
         }
 
-        m_removeIds.clear();
+        // note: the removed handlers are destroyed last, because their
+        // destruction might in turn change the registered handlers
+        std::vector<transmission_handlers_t::node_type> removedTransmissionHandlers;
+        std::vector<event_handlers_t::node_type> removedEventHandlers;
+
+        for (id_t id : std::exchange(m_removeIds, {}))
+        {
+            for (auto& handlers : m_transmissionHandlerPool)
+            {
+                removedTransmissionHandlers.emplace_back(handlers.second.extract(id));
+            }
+
+            for (auto& handlers : m_eventHandlerPool)
+            {
+                removedEventHandlers.emplace_back(handlers.second.extract(id));
+            }
+        }
     }
 }
-- 
2.43.0


From 42bf195701eb69be56f6922cbdcc3fca5b6e1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 05/72] fix: replay of the cache to a new event handler while
 the cache changes

The container was iterated over while the handler that is being added could
publish or remove instances, and a handler whose replay failed stayed
registered although its id was never returned.
---
 lib/src/Dispatcher.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 1d8f01c..4f4321c 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -66,6 +66,8 @@ namespace dots
 
         if (!container.empty())
         {
+            DispatchScope dispatchScope{ *this };
+
             DotsHeader header{
                 .typeName = descriptor.name(),
                 .fromCache = static_cast<uint32_t>(container.size()),
@@ -73,11 +75,35 @@ namespace dots
                 .isFromMyself = false
             };
 
+            // note: the container might be changed by the handler
+            std::vector<type::AnyStruct> keys;
+            keys.reserve(container.size());
+
             for (const auto& [instance, cloneInfo] : container)
             {
-                header.attributes = instance->_validProperties();
-                --*header.fromCache;
-                handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                (void)cloneInfo;
+                keys.emplace_back(descriptor)->_copy(instance, descriptor.keyProperties());
+            }
+
+            try
+            {
+                for (const type::AnyStruct& key : keys)
+                {
+                    --*header.fromCache;
+
+                    if (const auto* clone = container.findClone(key); clone != nullptr)
+                    {
+                        const auto& [instance, cloneInfo] = *clone;
+                        header.attributes = instance->_validProperties();
+                        handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                    }
+                }
+            }
+            catch (...)
+            {
+                // note: the caller will never know the id of the handler
+                m_removeIds.emplace(id);
+                throw;
             }
         }
 
-- 
2.43.0


From 1125872a47c217e8217dbbe80d98a6373252112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 06/72] fix: keep removed instances alive until no dispatch
 refers to them

A handler that removes the instance it is being notified about destroyed the
instance the event of the outer dispatch still refers to.
---
 lib/include/dots/Dispatcher.h | 2 ++
 lib/src/Dispatcher.cpp        | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 6e64d8f..1b1582d 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <list>
 #include <map>
 #include <set>
 #include <unordered_map>
@@ -365,6 +366,7 @@ namespace dots
 
         size_t m_dispatchDepth = 0;
         std::set<id_t> m_removeIds;
+        std::list<Container<>::node_t> m_removedInstances;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
         event_handler_pool_t m_eventHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 4f4321c..66c837b 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -184,7 +184,11 @@ namespace dots
             {
                 if (Container<>::node_t removed = container.remove(header, instance); !removed.empty())
                 {
-                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });
+                    // note: the removed instance might still be referenced
+                    // by the event of an outer dispatch
+                    DispatchScope dispatchScope{ *this };
+                    const Container<>::node_t& removed_ = *m_removedInstances.emplace(m_removedInstances.end(), std::move(removed));
+                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed_.key(), removed_.mapped() });
                 }
             }
             else
@@ -244,6 +248,7 @@ namespace dots
     {
         if (--dispatcher.m_dispatchDepth == 0)
         {
+            dispatcher.m_removedInstances.clear();
             dispatcher.eraseRemovedHandlers();
         }
     }
-- 
2.43.0


From d96c8f218cd49c2d61f3f0acefe72c15a1c08709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 07/72] fix: publish of the host stores and dispatches exactly
 the included properties

A new instance was stored and dispatched with all of its valid properties, while
guests only received the included ones.
---
 lib/src/HostTransceiver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..daa2848 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -69,7 +69,10 @@ namespace dots
             .isFromMyself = true
         };
 
-        io::Transmission transmission{ std::move(header), instance };
+        type::AnyStruct publishedInstance{ instance._descriptor() };
+        publishedInstance->_copy(instance, *includedProperties);
+
+        io::Transmission transmission{ std::move(header), std::move(publishedInstance) };
         dispatcher().dispatch(transmission);
         transmit(transmission);
     }
-- 
2.43.0


From 6e9d33f48fb50867ab1d167603ba18d89c27f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 08/72] fix: closing several guests whose channels fail while
 transmitting

Closing one of the failed connections might transmit the removal of its objects
to another failed one, which is thereby closed and was then accessed after being
destroyed.
---
 lib/src/HostTransceiver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index daa2848..731edb2 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -89,7 +89,9 @@ namespace dots
 
     void HostTransceiver::transmit(const io::Transmission& transmission)
     {
-        using dirty_connection_t = std::pair<Connection*, std::exception_ptr>;
+        // note: dirty connections are kept alive, because handling the error
+        // of one of them might also close others
+        using dirty_connection_t = std::pair<connection_ptr_t, std::exception_ptr>;
         std::vector<dirty_connection_t> dirtyConnections;
 
         for (Connection* destinationConnection : m_groups[*transmission.header().typeName])
@@ -102,7 +104,7 @@ namespace dots
                 }
                 catch (...)
                 {
-                    dirtyConnections.emplace_back(destinationConnection, std::current_exception());
+                    dirtyConnections.emplace_back(m_guestConnections.find(destinationConnection)->second, std::current_exception());
                 }
             }
         }
-- 
2.43.0


From 2cd4919c67efa9789f8ad3118eaf22d70ae4f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 09/72] fix: removal of instances while further instances get
 removed

The instances to be removed for a closed guest or a clear cache request were
referenced although handlers or failing guests might remove them meanwhile.
---
 lib/src/HostTransceiver.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 731edb2..4338496 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -194,7 +194,9 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
+                // note: the instances might be changed or removed while the
+                // removal of others is being published
+                std::vector<type::AnyStruct> cleanupInstances;
 
                 for (const auto& [descriptor, container] : pool())
                 {
@@ -204,15 +206,18 @@ namespace dots
                         {
                             if (connection.peerId() == cloneInfo.lastUpdateFrom)
                             {
-                                cleanupInstances.emplace_back(&*instance);
+                                cleanupInstances.emplace_back(instance);
                             }
                         }
                     }
                 }
 
-                for (const type::Struct* instance : cleanupInstances)
+                for (const type::AnyStruct& instance : cleanupInstances)
                 {
-                    remove(*instance);
+                    if (const auto* clone = pool().get(instance->_descriptor()).findClone(instance); clone != nullptr && clone->second.lastUpdateFrom == connection.peerId())
+                    {
+                        remove(instance);
+                    }
                 }
 
                 m_guestConnections.erase(&connection);
@@ -302,22 +307,29 @@ namespace dots
         clearCache._assertHasProperties(DotsClearCache::typeNames_p);
         const vector_t<string_t>& typeNames = *clearCache.typeNames;
 
+        // note: the containers might be changed while the removal of their
+        // instances is being published
+        std::vector<type::AnyStruct> removeInstances;
+
         for (auto& [descriptor, container] : pool())
         {
+            (void)descriptor;
+
             if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
             {
-                std::vector<const type::Struct*> removeInstances;
-
                 for (const auto& [instance, cloneInformation] : container)
                 {
                     (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
+                    removeInstances.emplace_back(instance);
                 }
+            }
+        }
 
-                for (const type::Struct* instance : removeInstances)
-                {
-                    remove(*instance);
-                }
+        for (const type::AnyStruct& instance : removeInstances)
+        {
+            if (pool().get(instance->_descriptor()).find(instance) != nullptr)
+            {
+                remove(instance);
             }
         }
     }
-- 
2.43.0


From db668e19ba7bc59caa35bb54b29f0cc6fc8f5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 10/72] fix: a guest that can not be greeted must not end
 listening

---
 lib/src/HostTransceiver.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 4338496..2f5b308 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -121,12 +121,21 @@ namespace dots
     bool HostTransceiver::handleListenAccept(io::Listener&/* listener*/, io::channel_ptr_t channel)
     {
         auto connection = std::make_shared<Connection>(std::move(channel), true);
-        connection->asyncReceive(registry(), m_authManager.get(), selfName(),
-            { &HostTransceiver::handleTransmission, this },
-            { &HostTransceiver::handleTransition, this }
-        );
         m_guestConnections.emplace(connection.get(), connection);
 
+        try
+        {
+            connection->asyncReceive(registry(), m_authManager.get(), selfName(),
+                { &HostTransceiver::handleTransmission, this },
+                { &HostTransceiver::handleTransition, this }
+            );
+        }
+        catch (...)
+        {
+            // note: a guest that can not be greeted must not affect the listener
+            connection->handleError(std::current_exception());
+        }
+
         return true;
     }
 
-- 
2.43.0


From 064c0a95dc7952836f19c0b72ccd80b7d47e6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 11/72] fix: guest must not publish before its connection is
 established

---
 lib/src/GuestTransceiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 60c3690..16ae5a3 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -81,7 +81,7 @@ namespace dots
             *includedProperties ^= instance._properties();
         }
 
-        if (m_hostConnection == nullptr)
+        if (m_hostConnection == nullptr || (m_hostConnection->state() != DotsConnectionState::early_subscribe && m_hostConnection->state() != DotsConnectionState::connected))
         {
             throw std::runtime_error{ "attempt to publish on closed connection" };
         }
-- 
2.43.0


From 2128d88304ac6b1e3240abd674dda4e39f0fae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 12/72] fix: guest joins its groups again on a new connection

---
 lib/include/dots/GuestTransceiver.h |  2 ++
 lib/src/GuestTransceiver.cpp        | 45 +++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 8324d57..34eba6a 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -259,6 +259,7 @@ namespace dots
 
         void joinGroup(std::string_view name) override;
         void leaveGroup(std::string_view name) override;
+        void rejoinGroups(Connection& connection);
 
         bool handleTransmission(Connection& connection, io::Transmission transmission);
         void handleTransitionImpl(Connection& connection, std::exception_ptr ePtr) noexcept override;
@@ -267,5 +268,6 @@ namespace dots
         type::DescriptorMap m_preloadPublishTypes;
         type::DescriptorMap m_preloadSubscribeTypes;
         std::set<std::string> m_joinedGroups;
+        std::set<std::string> m_lostGroups;
     };
 }
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 16ae5a3..382afc2 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -98,13 +98,20 @@ namespace dots
 
     void GuestTransceiver::joinGroup(std::string_view name)
     {
-        if (m_joinedGroups.count(std::string(name)) == 0)
+        if (auto [it, emplaced] = m_joinedGroups.emplace(name); emplaced)
         {
-            publish(DotsMember{
-                .groupName = name,
-                .event = DotsMemberEvent::join
-            });
-            m_joinedGroups.insert(std::string(name));
+            try
+            {
+                publish(DotsMember{
+                    .groupName = name,
+                    .event = DotsMemberEvent::join
+                });
+            }
+            catch (...)
+            {
+                m_joinedGroups.erase(it);
+                throw;
+            }
         }
     }
 
@@ -120,6 +127,23 @@ namespace dots
         }
     }
 
+    void GuestTransceiver::rejoinGroups(Connection& connection)
+    {
+        // note: the host does not know about groups that have been joined via
+        // previous connections
+        for (const std::string& name : std::exchange(m_lostGroups, {}))
+        {
+            if (connection.closed())
+            {
+                m_lostGroups.emplace(name);
+            }
+            else
+            {
+                joinGroup(name);
+            }
+        }
+    }
+
     bool GuestTransceiver::handleTransmission(Connection&/* connection*/, io::Transmission transmission)
     {
         dispatcher().dispatch(transmission);
@@ -146,9 +170,18 @@ namespace dots
 
                 m_preloadPublishTypes.clear();
                 m_preloadSubscribeTypes.clear();
+
+                rejoinGroups(connection);
+            }
+            else if (connection.state() == DotsConnectionState::connected)
+            {
+                rejoinGroups(connection);
             }
             else if (connection.state() == DotsConnectionState::closed)
             {
+                m_lostGroups.merge(m_joinedGroups);
+                m_joinedGroups.clear();
+
                 if (m_hostConnection != nullptr)
                 {
                     m_hostConnection = nullptr;
-- 
2.43.0


From 6a2690b0a6c0d4e92aa9a7bdf1de965a00d4b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 13/72] fix: closing of a guest's connection during one of its
 transitions

---
 lib/src/GuestTransceiver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 382afc2..3d54522 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/GuestTransceiver.h>
+#include <dots/asio.h>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -182,16 +183,18 @@ namespace dots
                 m_lostGroups.merge(m_joinedGroups);
                 m_joinedGroups.clear();
 
+                // note: the connection must outlive the transition, because it
+                // might be caused by the connection itself
                 if (m_hostConnection != nullptr)
                 {
-                    m_hostConnection = nullptr;
+                    asio::post(ioContext(), [hostConnection = std::shared_ptr<Connection>{ std::move(m_hostConnection) }]{});
                 }
             }
         }
         catch (const std::exception& e)
         {
             LOG_ERROR_S("error while handling transition for connection " << connection.peerDescription() << " -> " << e.what());
-            m_hostConnection = nullptr;
+            connection.handleError(std::current_exception());
         }
     }
 }
-- 
2.43.0


From 40bf2aa570fd1977b33ebabea582e2be6e893e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 14/72] fix: authentication manager that is set while rules
 already exist

---
 lib/include/dots/io/auth/LegacyAuthManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/auth/LegacyAuthManager.h b/lib/include/dots/io/auth/LegacyAuthManager.h
index e722a7e..01a21d3 100644
--- a/lib/include/dots/io/auth/LegacyAuthManager.h
+++ b/lib/include/dots/io/auth/LegacyAuthManager.h
@@ -41,9 +41,9 @@ namespace dots::io
         void handleDotsAuthentication(const Event<DotsAuthentication>& e);
         void handleDotsAuthenticationPolicy(const Event<DotsAuthenticationPolicy>& e);
 
-        Subscription m_dotsAuthenticationSubscription;
-        Subscription m_dotsAuthenticationPolicySubscription;
         rules_t m_rules;
         std::optional<bool> m_defaultAcceptPolicy;
+        Subscription m_dotsAuthenticationSubscription;
+        Subscription m_dotsAuthenticationPolicySubscription;
     };
 }
-- 
2.43.0


From f498f791f89560150f06b5e3af8f5745b26f5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 15/72] fix: digest strings that are too long must not be
 written past the digest

---
 lib/src/io/auth/Digest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/io/auth/Digest.cpp b/lib/src/io/auth/Digest.cpp
index dbb2f68..e26fd37 100644
--- a/lib/src/io/auth/Digest.cpp
+++ b/lib/src/io/auth/Digest.cpp
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/auth/Digest.h>
 #include <PicoSHA2/picosha2.h>
+#include <stdexcept>
 #include <boost/algorithm/hex.hpp>
 
 namespace dots::io
@@ -18,6 +19,12 @@ namespace dots::io
         Digest([&]
         {
             value_t value = {};
+
+            if (stringValue.size() > 2 * value.size())
+            {
+                throw std::invalid_argument{ "digest string is too long" };
+            }
+
             boost::algorithm::unhex(stringValue, value.begin());
 
             return value;
-- 
2.43.0


From e6937802b78d369db99d611247a2dc9425e65726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 16/72] fix: skipping unknown CBOR strings, arrays and maps
 with a size of more than one byte

---
 lib/include/dots/serialization/formats/CborReader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..0186497 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -218,6 +218,7 @@ namespace dots::serialization
                 }
                 else
                 {
+                    assertInputAvailable(numBytes);
                     value = 0;
 
                     for (int16_t i = numBytes - 1; i >= 0; --i)
@@ -226,8 +227,6 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
                 return value;
             };
 
-- 
2.43.0


From f344de5bd6c0eff7e5b05edf580e10c21c29043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 17/72] fix: reading a signed integer from exhausted CBOR input

---
 lib/include/dots/serialization/formats/CborReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 0186497..87c1481 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -66,6 +66,7 @@ namespace dots::serialization
         void read(T& value)
         {
             using unsigned_t = std::make_unsigned_t<T>;
+            assertInputAvailable(1);
 
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
-- 
2.43.0


From 798272ae31280ba02f2eba578e4c2ee4e00739b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 18/72] fix: reading a floating point number from CBOR input
 that holds a simple value

---
 lib/include/dots/serialization/formats/CborReader.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 87c1481..4c32c24 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -165,10 +165,14 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
-                else/* if (numBytes == sizeof(float))*/
+                else if (numBytes == sizeof(float))
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else
+                {
+                    throwException("encountered unexpected simple value when deserializing floating point number", additionalInformation);
+                }
             }
         }
 
-- 
2.43.0


From e3ce2f75cd9350afd9370b15aa7d001873703770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 19/72] fix: reading a CBOR integer outside of the range of a
 signed type

---
 lib/include/dots/serialization/formats/CborReader.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 4c32c24..b7d172b 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -71,11 +71,13 @@ namespace dots::serialization
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
+                assertSignedRange<T>(unsignedValue);
                 value = -1 - reinterpret_cast<const T&>(unsignedValue);
             }
             else
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::UnsignedInt);
+                assertSignedRange<T>(unsignedValue);
                 value = reinterpret_cast<const T&>(unsignedValue);
             }
         }
@@ -288,6 +290,15 @@ namespace dots::serialization
             }
         }
 
+        template <typename T>
+        void assertSignedRange(std::make_unsigned_t<T> unsignedValue) const
+        {
+            if (unsignedValue > static_cast<std::make_unsigned_t<T>>(std::numeric_limits<T>::max()))
+            {
+                throwException("encountered integer exceeds value range", std::to_string(unsignedValue));
+            }
+        }
+
         uint8_t readByte()
         {
             return *inputData()++;
-- 
2.43.0


From 74564786959e23d98b0f9753a2c8b562e550dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 20/72] fix: skipping tagged CBOR items

---
 lib/include/dots/serialization/formats/CborReader.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index b7d172b..d178d79 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -272,6 +272,11 @@ namespace dots::serialization
                     }
                 }
             }
+            else/* if (any_of(cbor_t::MajorType::Tag))*/
+            {
+                read_size();
+                skip();
+            }
         }
 
     private:
-- 
2.43.0


From 17443c7a2bf0ce1a2f62a43f506b138340750396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 21/72] fix: allocation of CBOR arrays whose size exceeds the
 input

---
 lib/include/dots/serialization/formats/CborReader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d178d79..8d232ee 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -19,7 +19,10 @@ namespace dots::serialization
 
         size_t readArraySize()
         {
-            return readHead<size_t>(cbor_t::MajorType::Array);
+            size_t size = readHead<size_t>(cbor_t::MajorType::Array);
+            assertInputAvailable(size); // every element has at least one byte
+
+            return size;
         }
 
         void readArrayBegin()
-- 
2.43.0


From 1c9f2e5cc68b2ceccdd351a6b552b98ab9692f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 22/72] fix: out of bounds access of the CBOR input when
 reporting an error

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 503ac16ae9b73f4d4dd4ec61cd22091ba83de288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 23/72] fix: move assignment of a static struct with a property
 set

StaticStruct::_assign(Derived&&, PropertySet) called a member function that
no property has, so that it could not be used at all.
---
 lib/include/dots/type/StaticStruct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/type/StaticStruct.h b/lib/include/dots/type/StaticStruct.h
index db15854..8fab9e9 100644
--- a/lib/include/dots/type/StaticStruct.h
+++ b/lib/include/dots/type/StaticStruct.h
@@ -120,7 +120,7 @@ namespace dots::type
                     }
                     else
                     {
-                        propertyThis.destroy();
+                        propertyThis = dots::invalid;
                     }
                 };
                 (void)assign;
-- 
2.43.0


From 641b27d7b0cac50862ce571a49d9462807bbe65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 24/72] fix: moving a sub-struct into an unset property

StructDescriptor::construct(Typeless&, Typeless&&) passed the source on as
an lvalue, for which the generic copy construction of Struct was chosen, so
that the content of the new value (including its set of valid properties)
stayed uninitialized, e.g. after an untyped swap.
---
 lib/src/type/StructDescriptor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/StructDescriptor.cpp b/lib/src/type/StructDescriptor.cpp
index 4db3bfe..90ba2b1 100644
--- a/lib/src/type/StructDescriptor.cpp
+++ b/lib/src/type/StructDescriptor.cpp
@@ -68,7 +68,7 @@ namespace dots::type
 
     Typeless& StructDescriptor::construct(Typeless& value, Typeless&& other) const
     {
-        return Typeless::From(construct(value.to<Struct>(), other.to<Struct>()));
+        return Typeless::From(construct(value.to<Struct>(), std::move(other.to<Struct>())));
     }
 
     Struct& StructDescriptor::construct(Struct& instance, Struct&& other) const
-- 
2.43.0


From 6c8fcfd1cb8e749767088d20e94c46b40a0a5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 25/72] fix: leak of the replaced instance when an AnyStruct is
 move assigned

The defaulted move assignment deletes the previous instance through its
untyped base and without destructing its properties.
---
 lib/include/dots/type/AnyStruct.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/AnyStruct.h b/lib/include/dots/type/AnyStruct.h
index cd5ce80..e27eece 100644
--- a/lib/include/dots/type/AnyStruct.h
+++ b/lib/include/dots/type/AnyStruct.h
@@ -37,7 +37,13 @@ namespace dots::type
             return *this = rhs.get();
         }
 
-        AnyStruct& operator = (AnyStruct&& rhs) = default;
+        AnyStruct& operator = (AnyStruct&& rhs) noexcept
+        {
+            AnyStruct other{ std::move(rhs) };
+            _instance.swap(other._instance);
+
+            return *this;
+        }
 
         AnyStruct& operator = (const Struct& rhs)
         {
-- 
2.43.0


From f73c508423ca17adee16c2a18dac157d06c46cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 26/72] fix: unsubscribing after a transceiver has been moved

---
 lib/include/dots/Transceiver.h |  6 +++---
 lib/src/Transceiver.cpp        | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 2151e9e..e221713 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -236,7 +236,7 @@ namespace dots
                 joinGroup(T::_Descriptor().name());
                 Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
 
-                return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id](Transceiver& this_){ this_.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
             else
             {
@@ -587,9 +587,9 @@ namespace dots
     {
         return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (this_.lock())
+            if (auto thisPtr = this_.lock(); thisPtr != nullptr)
             {
-                unsubscribeHandler();
+                unsubscribeHandler(**thisPtr);
             }
         } };
     }
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 10f2ca6..17ae384 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -122,7 +122,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& this_){ this_.m_dispatcher.removeTransmissionHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -135,7 +135,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& this_){ this_.m_dispatcher.removeEventHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
@@ -153,15 +153,15 @@ namespace dots
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
         m_registry.forEach(handler_);
 
-        return makeSubscription([&, id(id)]
+        return makeSubscription([id(id)](Transceiver& this_)
         {
-            if (id == m_currentlyDispatchingId)
+            if (id == this_.m_currentlyDispatchingId)
             {
-                m_removeIds.emplace_back(id);
+                this_.m_removeIds.emplace_back(id);
             }
             else
             {
-                m_newTypeHandlers.extract(id);
+                this_.m_newTypeHandlers.extract(id);
             }
         });
     }
-- 
2.43.0


From 7eb32076cd8055cc522173638a1a6d161077ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 27/72] fix: subscribing, unsubscribing and registering of
 types from inside new type handlers

---
 lib/include/dots/Transceiver.h |  3 +-
 lib/src/Transceiver.cpp        | 69 ++++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index e221713..c5e81f0 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -568,10 +568,11 @@ namespace dots
         Subscription makeSubscription(UnsubscribeHandler&& unsubscribeHandler);
 
         void handleNewType(const type::Descriptor<>& descriptor) noexcept;
+        void removeNewTypeHandler(id_t id);
         void handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept;
 
         id_t m_nextId;
-        std::optional<id_t> m_currentlyDispatchingId;
+        size_t m_newTypeDispatchDepth;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         type::Registry m_registry;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 17ae384..6fb03f4 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Transceiver.h>
+#include <algorithm>
+#include <utility>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -12,6 +14,7 @@ namespace dots
                              type::Registry::StaticTypePolicy staticTypePolicy/* = StaticTypePolicy::All*/,
                              std::optional<transition_handler_t> transitionHandler/* = std::nullopt*/) :
         m_nextId(0),
+        m_newTypeDispatchDepth(0),
         m_this(std::make_shared<Transceiver*>(this)),
         m_registry{ [this_{ m_this }](const type::Descriptor<>& descriptor){ (*this_)->handleNewType(descriptor); }, staticTypePolicy },
         m_dispatcher{ [this_{ m_this }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr){ (*this_)->handleDispatchError(descriptor, ePtr); } },
@@ -24,7 +27,7 @@ namespace dots
 
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
-        m_currentlyDispatchingId{ other.m_currentlyDispatchingId },
+        m_newTypeDispatchDepth{ other.m_newTypeDispatchDepth },
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -40,7 +43,7 @@ namespace dots
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
         m_nextId = rhs.m_nextId;
-        m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
+        m_newTypeDispatchDepth = rhs.m_newTypeDispatchDepth;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_registry = std::move(rhs.m_registry);
@@ -151,19 +154,30 @@ namespace dots
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry.forEach(handler_);
 
-        return makeSubscription([id(id)](Transceiver& this_)
+        // note: the registry might be changed by the handler
+        std::vector<std::shared_ptr<const type::Descriptor<>>> descriptors;
+
+        m_registry.forEach([&](const type::Descriptor<>& descriptor)
         {
-            if (id == this_.m_currentlyDispatchingId)
-            {
-                this_.m_removeIds.emplace_back(id);
-            }
-            else
+            descriptors.emplace_back(descriptor.shared_from_this());
+        });
+
+        try
+        {
+            for (const auto& descriptor : descriptors)
             {
-                this_.m_newTypeHandlers.extract(id);
+                handler_(*descriptor);
             }
-        });
+        }
+        catch (...)
+        {
+            // note: the caller will never be able to unsubscribe the handler
+            removeNewTypeHandler(id);
+            throw;
+        }
+
+        return makeSubscription([id(id)](Transceiver& this_){ this_.removeNewTypeHandler(id); });
     }
 
     void Transceiver::remove(const type::Struct& instance)
@@ -173,27 +187,50 @@ namespace dots
 
     void Transceiver::handleNewType(const type::Descriptor<>& descriptor) noexcept
     {
+        ++m_newTypeDispatchDepth;
+
         for (const auto& [id, handler] : m_newTypeHandlers)
         {
+            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(descriptor);
             }
             catch (const std::exception& e)
             {
                 LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
             }
+            catch (...)
+            {
+                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> <unknown>");
+            }
+        }
 
-            m_currentlyDispatchingId = std::nullopt;
+        if (--m_newTypeDispatchDepth == 0)
+        {
+            for (id_t id : std::exchange(m_removeIds, {}))
+            {
+                m_newTypeHandlers.extract(id);
+            }
         }
+    }
 
-        for (id_t id : m_removeIds)
+    void Transceiver::removeNewTypeHandler(id_t id)
+    {
+        // note: handlers can not be erased while any of them might still be
+        // running or be iterated over, including nested registrations
+        if (m_newTypeDispatchDepth > 0)
+        {
+            m_removeIds.emplace_back(id);
+        }
+        else
         {
             m_newTypeHandlers.extract(id);
         }
-
-        m_removeIds.clear();
     }
 
     void Transceiver::handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept
-- 
2.43.0


From 07bf6c737a53f5a554c40d96f7806cd3e1d3e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 28/72] fix: types must not become known before their
 dependencies

---
 lib/src/type/Registry.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/type/Registry.cpp b/lib/src/type/Registry.cpp
index 0a39494..91f7b8f 100644
--- a/lib/src/type/Registry.cpp
+++ b/lib/src/type/Registry.cpp
@@ -219,8 +219,6 @@ namespace dots::type
             }
         }
 
-        m_types.emplace(descriptor);
-
         if (auto vectorDescriptor = descriptor.as<VectorDescriptor>(); vectorDescriptor != nullptr)
         {
             registerType(vectorDescriptor->valueDescriptor(), false);
@@ -237,6 +235,13 @@ namespace dots::type
             }
         }
 
+        // note: the type must not become known before its dependencies, and it
+        // might have been registered by a handler of one of them
+        if (auto [descriptor_, emplaced] = m_types.tryEmplace(descriptor); !emplaced)
+        {
+            return *descriptor_;
+        }
+
         if (m_newTypeHandler != std::nullopt)
         {
             (*m_newTypeHandler)(descriptor);
-- 
2.43.0


From 15acadd72e5c3040641fb81ac909624d17def8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 29/72] fix: descriptor map contains the types it contains

---
 lib/src/type/DescriptorMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index b0c44d5..26a9de7 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -71,7 +71,7 @@ namespace dots::type
 
     bool DescriptorMap::contains(std::string_view name) const
     {
-        return find(name) == nullptr;
+        return find(name) != nullptr;
     }
 
     std::pair<Descriptor<>*, bool> DescriptorMap::tryEmplace(Descriptor<>& descriptor)
-- 
2.43.0


From f85fbe88f69928e73427efe35283269a49cfd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 30/72] fix: removed containers must not be found by name

---
 lib/src/ContainerPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..802b8e3 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -127,6 +127,11 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
+        {
+            m_nameCache.erase(it);
+        }
+
         return node;
     }
 
-- 
2.43.0


From ba7019b4cdff3987084a6bd754721c4085068dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 31/72] fix: destruction of handlers that own subscriptions
 along with their transceiver

The unsubscribing of a subscription that is owned by a handler of the same
transceiver accessed members that were already destroyed or replaced.
---
 lib/include/dots/Transceiver.h |  4 ++--
 lib/src/Transceiver.cpp        | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index c5e81f0..f62171e 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -58,7 +58,7 @@ namespace dots
         );
         Transceiver(const Transceiver& other) = delete;
         Transceiver(Transceiver&& other) noexcept;
-        virtual ~Transceiver() = default;
+        virtual ~Transceiver();
 
         Transceiver& operator = (const Transceiver& rhs) = delete;
         Transceiver& operator = (Transceiver&& rhs) noexcept;
@@ -588,7 +588,7 @@ namespace dots
     {
         return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (auto thisPtr = this_.lock(); thisPtr != nullptr)
+            if (auto thisPtr = this_.lock(); thisPtr != nullptr && *thisPtr != nullptr)
             {
                 unsubscribeHandler(**thisPtr);
             }
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 6fb03f4..49a0f44 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -40,8 +40,23 @@ namespace dots
         *m_this = this;
     }
 
+    Transceiver::~Transceiver()
+    {
+        // note: handlers might own subscriptions that are destroyed with them
+        if (m_this != nullptr)
+        {
+            *m_this = nullptr;
+        }
+    }
+
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
+        // note: handlers might own subscriptions that are destroyed with them
+        if (m_this != nullptr)
+        {
+            *m_this = nullptr;
+        }
+
         m_nextId = rhs.m_nextId;
         m_newTypeDispatchDepth = rhs.m_newTypeDispatchDepth;
         m_removeIds = std::move(rhs.m_removeIds);
-- 
2.43.0


From 4e267618223d79e569d3e0b61d5be941417fe13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 32/72] fix: unsubscribing after the handlers of a transceiver
 have been cleared

Destroying a subscription whose handler has already been removed by clear()
terminated the process.
---
 lib/include/dots/Dispatcher.h | 1 +
 lib/src/Dispatcher.cpp        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 1b1582d..894506a 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -373,5 +373,6 @@ namespace dots
         id_t m_nextId;
         error_handler_t m_errorHandler;
         bool m_clearingHandlers = false;
+        id_t m_firstUnclearedId = 0;
     };
 }
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 66c837b..07d7337 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -24,6 +24,7 @@ namespace dots
         m_transmissionHandlerPool.clear();
         m_eventHandlerPool.clear();
         m_clearingHandlers = false;
+        m_firstUnclearedId = m_nextId;
     }
 
     const ContainerPool& Dispatcher::pool() const
@@ -131,7 +132,9 @@ namespace dots
     template <typename HandlerPool>
     void Dispatcher::removeHandler(HandlerPool& handlerPool, const type::StructDescriptor& descriptor, id_t id)
     {
-        if (m_clearingHandlers) return;
+        // note: handlers that have been cleared are no longer known, but might
+        // still be removed by the owners of their subscriptions
+        if (m_clearingHandlers || id < m_firstUnclearedId) return;
         if (auto itHandlers = handlerPool.find(&descriptor); itHandlers != handlerPool.end())
         {
             auto& handlers = itHandlers->second;
-- 
2.43.0


From a3155c7209c70423f2812edded3bfca418735cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 33/72] fix: move assigning over a transceiver whose handlers
 own subscriptions of the assigned one

The handlers of the assigned transceiver have to be destroyed before its
dispatcher and registry are taken over.
---
 lib/src/Transceiver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 49a0f44..b74211d 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -57,6 +57,9 @@ namespace dots
             *m_this = nullptr;
         }
 
+        m_newTypeHandlers.clear();
+        m_dispatcher.clear();
+
         m_nextId = rhs.m_nextId;
         m_newTypeDispatchDepth = rhs.m_newTypeDispatchDepth;
         m_removeIds = std::move(rhs.m_removeIds);
-- 
2.43.0


From 1b225f8634071ddb148b1140066de2e29dbbaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 34/72] fix: WebSocket channel must transmit the included
 properties only

---
 lib/src/io/channels/WebSocketChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 733056b..fa88abb 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -94,7 +94,7 @@ namespace dots::io
     {
         m_serializer.writer().writeArrayBegin();
         m_serializer.serialize(header);
-        m_serializer.serialize(instance);
+        m_serializer.serialize(instance, *header.attributes);
         m_serializer.writer().writeArrayEnd();
 
         m_stream.write(asio::buffer(m_serializer.output()));
-- 
2.43.0


From 395ab18b90592ed21bd858601462c67ea02efd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 35/72] fix: description of a struct type without properties
 crashed the receiver

---
 lib/src/io/DescriptorConverter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 1687fd0..0607816 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -109,7 +109,9 @@ namespace dots::io
             alignment = std::max(last->valueDescriptor().alignment(), alignment);
         }
 
-        size_t size = type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
+        size_t size = last == nullptr ?
+            type::PropertyOffset::First(alignment, sizeof(type::PropertyArea)) :
+            type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
 
         return m_registry.get().registerType<type::Descriptor<type::DynamicStruct>>(*structData.name, flags, propertyDescriptors, sizeof(type::DynamicStruct) + size);
     }
-- 
2.43.0


From 94b6ae6d12695cc2fed3cdc7cc6b8349d631102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 36/72] fix: dynamic vectors of static struct types allocated
 too little memory for their elements

---
 lib/src/io/DescriptorConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 0607816..8b1f8d3 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -83,7 +83,7 @@ namespace dots::io
                     if (auto* dynStructDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicStruct>>(); dynStructDescriptor == nullptr)
                     {
                         const auto& staticStructDescriptor = valueTypeDescriptor->to<type::StructDescriptor>();
-                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), staticStructDescriptor.size());
+                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), sizeof(type::DynamicStruct) + staticStructDescriptor.size() - staticStructDescriptor.areaOffset());
                         descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicStruct>>>(*dynStructDescriptor_, false);
                     }
                     else
-- 
2.43.0


From 121557f8495bb8e7606492bb3ae7fa4ea54aa538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 37/72] fix: describe the type of forwarded transmissions on
 the channel

---
 lib/src/io/Channel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index b582bef..d3d1e56 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -81,6 +81,7 @@ namespace dots::io
     void Channel::transmit(const Transmission& transmission)
     {
         assert(m_initialized);
+        exportDependencies(transmission.instance()->_descriptor());
         exportDependencies(transmission.instance());
         transmitImpl(transmission);
     }
-- 
2.43.0


From 33cb57e21e3ee974c60fac71d6c1e7c004159857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 38/72] fix: describe a type only once on a channel when it is
 used via different descriptors

---
 lib/include/dots/io/Channel.h | 1 +
 lib/src/io/Channel.cpp        | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/lib/include/dots/io/Channel.h b/lib/include/dots/io/Channel.h
index c733967..e5791fb 100644
--- a/lib/include/dots/io/Channel.h
+++ b/lib/include/dots/io/Channel.h
@@ -69,6 +69,7 @@ namespace dots::io
         void exportDependencies(const type::Struct& instance);
 
         std::set<std::string> m_sharedTypeNames;
+        std::set<std::string> m_exportedTypeNames;
         std::unordered_set<const type::Descriptor<>*> m_sharedTypeDescriptors;
         bool m_asyncReceiving;
         bool m_initialized;
diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index d3d1e56..77d85ae 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -191,6 +191,13 @@ namespace dots::io
         {
             m_sharedTypeDescriptors.emplace(&descriptor);
 
+            // note: a type might be used via different descriptors, for example
+            // when it is known both statically and dynamically
+            if (bool isExportedType = !m_exportedTypeNames.emplace(descriptor.name()).second; isExportedType || m_sharedTypeNames.count(descriptor.name()) != 0)
+            {
+                return;
+            }
+
             if (const auto* vectorDescriptor = descriptor.as<type::VectorDescriptor>(); vectorDescriptor != nullptr)
             {
                 exportDependencies(vectorDescriptor->valueDescriptor());
-- 
2.43.0


From 0ce32693387e954d57bf22a470e0eb30f3f7a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 39/72] fix: a destroyed application was stopped by its
 cancelled signal handler

---
 lib/src/Application.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a477bef..f61bce1 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -45,7 +45,14 @@ namespace dots
         if (handleExitSignals)
         {
             m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals->signalSet.async_wait([this](boost::system::error_code error, int/* signalNumber*/)
+            {
+                // note: the wait is aborted when the application is destroyed
+                if (!error)
+                {
+                    exit();
+                }
+            });
         }
 
         for (;;)
@@ -86,7 +93,14 @@ namespace dots
         if (handleExitSignals)
         {
             m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            m_signals->signalSet.async_wait([this](boost::system::error_code error, int/* signalNumber*/)
+            {
+                // note: the wait is aborted when the application is destroyed
+                if (!error)
+                {
+                    exit();
+                }
+            });
         }
     }
 
-- 
2.43.0


From 51117565a3c0b3567156983d7224836be5039260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 40/72] fix: do not connect to an endpoint that could not be
 resolved

When resolving fails there is no endpoint, which was dereferenced nevertheless
after the error had been reported.
---
 lib/src/io/channels/TcpChannel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 2079e98..9d52044 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -44,6 +44,7 @@ namespace dots::io::details
             if (error)
             {
                 onConnect(error);
+                return;
             }
 
             stream().async_connect(*endpoint, [this, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
-- 
2.43.0


From d342c616cfbc181c48c88f9047ddc1a8a7960e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 41/72] fix: keep the payload cache alive as long as channels
 use it

Channels kept using the cache of the listener that accepted them after the
listener had been destroyed.
---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 12 ++++++------
 lib/include/dots/io/channels/TcpChannel.h         |  2 +-
 lib/include/dots/io/channels/TcpListener.h        |  2 +-
 lib/include/dots/io/channels/UdsChannel.h         |  2 +-
 lib/include/dots/io/channels/UdsListener.h        |  2 +-
 lib/src/io/channels/TcpChannel.cpp                |  4 ++--
 lib/src/io/channels/TcpListener.cpp               |  4 ++--
 lib/src/io/channels/UdsChannel.cpp                |  4 ++--
 lib/src/io/channels/UdsListener.cpp               |  4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 087397a..5d1b995 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -117,17 +117,17 @@ namespace dots::io
          *
          * @param stream The stream object to use.
          *
-         * @param payloadCache The payload cache to use. May be nullptr to
-         * disable the payload cache (see
+         * @param payloadCache The payload cache to use, which may be shared
+         * with other channels. May be nullptr to disable the payload cache (see
          * AsyncStreamChannel::serializeTransmission(Transmission::id_t, const
          * DotsHeader&, const type::Struct&)).
          */
-        AsyncStreamChannel(key_t key, stream_t&& stream, payload_cache_t* payloadCache) :
+        AsyncStreamChannel(key_t key, stream_t&& stream, std::shared_ptr<payload_cache_t> payloadCache) :
             Channel(key),
             m_asyncWriting(false),
             m_readDispatching(false),
             m_stream{ std::move(stream) },
-            m_payloadCache(payloadCache)
+            m_payloadCache(std::move(payloadCache))
         {
             /* do nothing */
         }
@@ -634,7 +634,7 @@ namespace dots::io
          * @brief Serialize a transmission into the current write buffer.
          *
          * If a payload cache was provided in
-         * AsyncStreamChannel(key_t, stream_t&&, payload_cache_t*),
+         * AsyncStreamChannel(key_t, stream_t&&, std::shared_ptr<payload_cache_t>),
          * the function will attempt to retrieve the payload from the cache
          * based on the id of the given transmission.
          *
@@ -676,6 +676,6 @@ namespace dots::io
         bool m_asyncWriting;
         bool m_readDispatching;
         stream_t m_stream;
-        payload_cache_t* m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 }
diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 3b544c0..65f39ab 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -47,7 +47,7 @@ namespace dots::io::details
          * @param key
          * @param socket
          */
-        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, payload_cache_t* payloadCache);
+        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericTcpChannel(const GenericTcpChannel& other) = delete;
         GenericTcpChannel(GenericTcpChannel&& other) = delete;
         ~GenericTcpChannel() override = default;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 44449eb..74d6b14 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -35,7 +35,7 @@ namespace dots::io::details
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericTcpListener<v1::TcpChannel>;
diff --git a/lib/include/dots/io/channels/UdsChannel.h b/lib/include/dots/io/channels/UdsChannel.h
index aae7614..5191932 100644
--- a/lib/include/dots/io/channels/UdsChannel.h
+++ b/lib/include/dots/io/channels/UdsChannel.h
@@ -16,7 +16,7 @@ namespace dots::io::posix::details
 
         GenericUdsChannel(key_t key, asio::io_context& ioContext, const Endpoint& endpoint);
         GenericUdsChannel(key_t key, asio::io_context& ioContext, std::string_view path);
-        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, payload_cache_t* payloadCache);
+        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericUdsChannel(const GenericUdsChannel& other) = delete;
         GenericUdsChannel(GenericUdsChannel&& other) = delete;
         virtual ~GenericUdsChannel() noexcept = default;
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index abe8f6c..d307ac9 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -34,7 +34,7 @@ namespace dots::io::posix::details
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
         asio::local::stream_protocol::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericUdsListener<v1::UdsChannel>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 9d52044..aa2d54f 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -64,8 +64,8 @@ namespace dots::io::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache),
+    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache)),
         m_resolver( stream().get_executor())
     {
         if (stream().is_open())
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b3850d3..b434989 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -17,7 +17,7 @@ namespace dots::io::details
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
         {
@@ -75,7 +75,7 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
diff --git a/lib/src/io/channels/UdsChannel.cpp b/lib/src/io/channels/UdsChannel.cpp
index f5eebeb..26c0c23 100644
--- a/lib/src/io/channels/UdsChannel.cpp
+++ b/lib/src/io/channels/UdsChannel.cpp
@@ -32,8 +32,8 @@ namespace dots::io::posix::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache)
+    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache))
     {
         IgnorePipeSignals();
 
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index a052332..416a010 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -18,7 +18,7 @@ namespace dots::io::posix::details
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, UdsChannel::buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, UdsChannel::buffer_t{}) }
     {
         try
         {
@@ -77,7 +77,7 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
-- 
2.43.0


From 7e4a1de1f4f944b6b6efdaa04de0ea3caf0fbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 42/72] fix: keep listening when a client is gone before it is
 accepted

A client that reset its connection before it was accepted made the listener
report an error, upon which hosts stop listening, and use itself after having
been destroyed by the error handler. Likewise, a completed accept could still
be processed after the listener had been destroyed.
---
 lib/include/dots/io/Listener.h             | 10 +++++
 lib/include/dots/io/channels/TcpListener.h |  1 -
 lib/include/dots/io/channels/UdsListener.h |  1 -
 lib/src/io/channels/TcpListener.cpp        | 46 ++++++++++++----------
 lib/src/io/channels/UdsListener.cpp        | 42 +++++++++++---------
 5 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 32fddc6..536e57f 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -26,6 +26,15 @@ namespace dots::io
     protected:
 
         virtual void asyncAcceptImpl() = 0;
+
+        /*!
+         * @brief Get a handle that expires when the listener is destroyed.
+         *
+         * This is intended to be used in completion handlers, which might
+         * still be invoked after the listener has been destroyed.
+         */
+        std::weak_ptr<const void> lifetime() const { return m_lifetime; }
+
         void processAccept(channel_ptr_t channel);
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
@@ -33,6 +42,7 @@ namespace dots::io
 
     private:
 
+        std::shared_ptr<const void> m_lifetime = std::make_shared<char>();
         bool m_asyncAcceptActive = false;
         std::optional<accept_handler_t> m_acceptHandler;
         std::optional<error_handler_t> m_errorHandler;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 74d6b14..118c232 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -34,7 +34,6 @@ namespace dots::io::details
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
         std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index d307ac9..ac6825d 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -33,7 +33,6 @@ namespace dots::io::posix::details
 
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
-        asio::local::stream_protocol::socket m_socket;
         std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b434989..06319c0 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/TcpListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::details
 {
@@ -16,7 +17,6 @@ namespace dots::io::details
         m_address{ std::move(address) },
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
@@ -46,9 +46,10 @@ namespace dots::io::details
     template <typename TChannel>
     void GenericTcpListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        // note: the handler might still be invoked after the listener has been destroyed
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -59,37 +60,42 @@ namespace dots::io::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
-                m_socket.non_blocking(true);
-                m_socket.set_option(asio::ip::tcp::no_delay(true));
-                m_socket.set_option(asio::ip::tcp::socket::keep_alive(true));
+                socket.non_blocking(true);
+                socket.set_option(asio::ip::tcp::no_delay(true));
+                socket.set_option(asio::ip::tcp::socket::keep_alive(true));
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
+                channel = make_channel<TChannel>(std::move(socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure TCP socket -> " } + e.what());
+                // note: a client that can not be served (e.g. because it is already gone) must not affect the listener
+                LOG_ERROR_S("failed to configure TCP socket -> " << e.what());
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close TCP socket -> " } + e.what());
-                }
+                asyncAcceptImpl();
+
+                return;
+            }
+
+            try
+            {
+                processAccept(std::move(channel));
+            }
+            catch (const std::exception& e)
+            {
+                processError(std::string{ "failed to accept TCP channel -> " } + e.what());
             }
         });
     }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 416a010..0ca8e34 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/asio.h>
 #if defined(BOOST_ASIO_HAS_LOCAL_SOCKETS)
 #include <dots/io/channels/UdsListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::posix::details
 {
@@ -17,7 +18,6 @@ namespace dots::io::posix::details
     GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, std::string_view path, std::optional<int> backlog/* = std::nullopt*/) :
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ std::make_shared<payload_cache_t>(0, UdsChannel::buffer_t{}) }
     {
         try
@@ -50,9 +50,10 @@ namespace dots::io::posix::details
     template <typename TChannel>
     void GenericUdsListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        // note: the handler might still be invoked after the listener has been destroyed
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::local::stream_protocol::socket socket)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -63,35 +64,40 @@ namespace dots::io::posix::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
-                m_socket.non_blocking(true);
+                socket.non_blocking(true);
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
-                // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
+                channel = make_channel<TChannel>(std::move(socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure UDS socket -> " } + e.what());
+                // note: a client that can not be served (e.g. because it is already gone) must not affect the listener
+                LOG_ERROR_S("failed to configure UDS socket -> " << e.what());
 
-                    m_socket.shutdown(asio::local::stream_protocol::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close UDS socket -> " } + e.what());
-                }
+                asyncAcceptImpl();
+
+                return;
+            }
+
+            try
+            {
+                processAccept(std::move(channel));
+            }
+            catch (const std::exception& e)
+            {
+                processError(std::string{ "failed to accept UDS channel -> " } + e.what());
             }
         });
     }
-- 
2.43.0


From bfce14c5d53343d10c413cce71f2ed1ef0be1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 43/72] fix: do not accept local channels that do not exist any
 more

Both the channel and the listener can be destroyed before a posted accept is
processed.
---
 lib/include/dots/io/channels/LocalChannel.h | 9 +++++++++
 lib/src/io/channels/LocalListener.cpp       | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index e672e9b..6ec1c7e 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -21,6 +21,14 @@ namespace dots::io
 
         void link(LocalChannel& other);
 
+        /*!
+         * @brief Get a handle that expires when the channel is destroyed.
+         *
+         * Other than weak_from_this(), this can already be used while the
+         * channel is being constructed.
+         */
+        std::weak_ptr<const void> lifetime() const { return m_lifetime; }
+
     protected:
 
         void asyncReceiveImpl() override;
@@ -30,5 +38,6 @@ namespace dots::io
 
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::weak_ptr<LocalChannel> m_peer;
+        std::shared_ptr<const void> m_lifetime = std::make_shared<char>();
     };
 }
diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index 0558e73..624fb6c 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -12,8 +12,14 @@ namespace dots::io
 
     void LocalListener::accept(LocalChannel& peer)
     {
-        asio::post(m_ioContext.get(), [&]
+        asio::post(m_ioContext.get(), [this, &peer, lifetime{ lifetime() }, peerLifetime{ peer.lifetime() }]
         {
+            // note: both the listener and the peer might already have been destroyed
+            if (lifetime.expired() || peerLifetime.expired())
+            {
+                return;
+            }
+
             auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
             peer.link(*channel);
             channel->link(peer);
-- 
2.43.0


From b0cb1e40fa05d8629682e8aad630d2e6adedbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 44/72] fix: perform WebSocket handshakes asynchronously

A client that did not send its handshake blocked the whole event loop, and one
that sent a bad handshake or vanished made the listener report an error, upon
which hosts stop listening, and use itself after having been destroyed.
---
 lib/include/dots/io/Listener.h                |   1 +
 .../dots/io/channels/WebSocketListener.h      |  11 +-
 lib/src/io/channels/WebSocketListener.cpp     | 123 +++++++++++++-----
 3 files changed, 101 insertions(+), 34 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 536e57f..bb12847 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -35,6 +35,7 @@ namespace dots::io
          */
         std::weak_ptr<const void> lifetime() const { return m_lifetime; }
 
+        bool asyncAcceptActive() const { return m_asyncAcceptActive; }
         void processAccept(channel_ptr_t channel);
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 2baa38c..64b2426 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -1,9 +1,11 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <set>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
 #include <dots/io/Listener.h>
+#include <dots/io/channels/WebSocketChannel.h>
 
 namespace dots::io
 {
@@ -13,7 +15,7 @@ namespace dots::io
         WebSocketListener(asio::io_context& ioContext, std::string address, std::string port, std::optional<int> backlog = std::nullopt);
         WebSocketListener(const WebSocketListener& other) = delete;
         WebSocketListener(WebSocketListener&& other) = delete;
-        ~WebSocketListener() override = default;
+        ~WebSocketListener() override;
 
         WebSocketListener& operator = (const WebSocketListener& rhs) = delete;
         WebSocketListener& operator = (WebSocketListener&& rhs) = delete;
@@ -24,9 +26,14 @@ namespace dots::io
 
     private:
 
+        using ws_stream_t = WebSocketChannel::ws_stream_t;
+
+        void asyncHandshake(asio::ip::tcp::socket socket);
+
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
+        bool m_asyncAccepting = false;
+        std::set<std::shared_ptr<ws_stream_t>> m_handshakes;
     };
 }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 8f54ba3..86174d3 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -2,7 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/WebSocketListener.h>
 #include <algorithm>
-#include <dots/io/channels/WebSocketChannel.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -15,8 +15,7 @@ namespace dots::io
     WebSocketListener::WebSocketListener(asio::io_context& ioContext, std::string address, std::string port, std::optional<int> backlog/* = std::nullopt*/) :
         m_address{ std::move(address) },
         m_port{ std::move(port) },
-        m_acceptor{ ioContext },
-        m_socket{ ioContext }
+        m_acceptor{ ioContext }
     {
         try
         {
@@ -42,51 +41,111 @@ namespace dots::io
         }
     }
 
+    WebSocketListener::~WebSocketListener()
+    {
+        for (const auto& stream : m_handshakes)
+        {
+            stream->next_layer().close();
+        }
+    }
+
     void WebSocketListener::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        if (m_asyncAccepting)
         {
-            try
+            return;
+        }
+
+        m_asyncAccepting = true;
+
+        // note: the handler might still be invoked after the listener has been destroyed
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
+        {
+            if (lifetime.expired() || !m_acceptor.is_open())
             {
-                if (error == asio::error::operation_aborted || !m_acceptor.is_open())
-                {
-                    return;
-                }
+                return;
+            }
 
-                if (error)
-                {
-                    processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-                    return;
-                }
+            m_asyncAccepting = false;
 
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
+            if (error && error != asio::error::operation_aborted)
+            {
+                processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
+                return;
+            }
 
-                stream.set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
-                stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
-                {
-                    res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
-                    res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
-                }));
+            if (!error)
+            {
+                asyncHandshake(std::move(socket));
+            }
+
+            if (asyncAcceptActive())
+            {
+                asyncAcceptImpl();
+            }
+        });
+    }
+
+    void WebSocketListener::asyncHandshake(asio::ip::tcp::socket socket)
+    {
+        auto stream = std::make_shared<ws_stream_t>(std::move(socket));
+
+        stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
+        stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+        {
+            res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
+            res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
+        }));
+
+        m_handshakes.emplace(stream);
+
+        stream->async_accept([this, stream, lifetime{ lifetime() }](const boost::system::error_code& error)
+        {
+            if (lifetime.expired())
+            {
+                return;
+            }
+
+            m_handshakes.erase(stream);
+
+            // note: a client that can not be served (e.g. because it is already gone) must not affect the listener
+            if (error)
+            {
+                LOG_ERROR_S("failed to accept WebSocket stream -> " << error.message());
+                return;
+            }
+
+            if (!asyncAcceptActive())
+            {
+                LOG_ERROR_S("dropped WebSocket stream because no more channels are accepted");
+                return;
+            }
 
-                stream.accept();
+            channel_ptr_t channel;
 
-                processAccept(make_channel<WebSocketChannel>(std::move(stream)));
+            try
+            {
+                channel = make_channel<WebSocketChannel>(std::move(*stream));
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure WebSocket stream -> " } + e.what());
+                LOG_ERROR_S("failed to configure WebSocket stream -> " << e.what());
+                return;
+            }
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
+            try
+            {
+                processAccept(std::move(channel));
+
+                if (!lifetime.expired() && !asyncAcceptActive())
                 {
-                    processError(std::string{ "failed to shutdown and close WebSocket stream -> " } + e.what());
+                    m_acceptor.cancel();
                 }
             }
+            catch (const std::exception& e)
+            {
+                processError(std::string{ "failed to accept WebSocket channel -> " } + e.what());
+            }
         });
     }
 }
-- 
2.43.0


From 5bf5d33f5431d7f349744dbd5205f779c8dbb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 45/72] fix: skip unknown values without recursion and never
 loop on truncated ones

---
 .../dots/serialization/formats/CborReader.h   | 40 +++++----
 .../dots/serialization/formats/TextReader.h   | 88 ++++++++++---------
 2 files changed, 70 insertions(+), 58 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 8d232ee..382e717 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -182,6 +182,18 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            // nested items are counted instead of visited recursively because their depth is determined by the input
+            for (size_t remaining = 1; remaining > 0; --remaining)
+            {
+                remaining += skipItem();
+                assertInputAvailable(remaining - 1);
+            }
+        }
+
+    private:
+
+        size_t skipItem()
         {
             assertInputAvailable(1);
             uint8_t initialByte = readByte();
@@ -244,46 +256,38 @@ namespace dots::serialization
             {
                 size_t numBytes = get_num_bytes();
                 consume(numBytes);
+
+                return 0;
             }
             else if (any_of(cbor_t::MajorType::ByteString, cbor_t::MajorType::TextString))
             {
                 size_t size = read_size();
                 consume(size);
+
+                return 0;
             }
             else if (any_of(cbor_t::MajorType::Array))
             {
                 size_t size = read_size();
+                assertInputAvailable(size);
 
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                    }
-                }
+                return size;
             }
             else if (any_of(cbor_t::MajorType::Map))
             {
                 size_t size = read_size();
+                assertInputAvailable(size);
 
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                        skip();
-                    }
-                }
+                return 2 * size;
             }
             else/* if (any_of(cbor_t::MajorType::Tag))*/
             {
                 read_size();
-                skip();
+
+                return 1;
             }
         }
 
-    private:
-
         void throwInvalidSize(const std::string& msg, std::size_t expected, std::size_t size) const;
         void throwUnexpectedHeadException(uint8_t expectedHead, uint8_t head) const;
         void throwUnexpectedMajorTypeException(uint8_t expectedMajorType, uint8_t majorType) const;
diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 12a7d80..3d1bf1b 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -281,57 +281,26 @@ namespace dots::serialization
 
         void skip()
         {
-            consumeWhitespace();
+            const size_t level = m_nesting.size();
 
-            while (inputAvailable())
+            do
             {
-                if (tools::starts_with(input(), format_t::StringDelimiter))
-                {
-                    readEscapedString();
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ArrayBegin))
+                if (m_nesting.size() > level)
                 {
-                    readArrayBegin();
-
-                    while (!tryReadArrayEnd())
+                    if (m_nesting.top().first == State::Array ? tryReadArrayEnd() : tryReadObjectEnd())
                     {
-                        skip();
+                        continue;
                     }
 
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ObjectBegin))
-                {
-                    readObjectBegin();
-
-                    while (!tryReadObjectEnd())
+                    if (m_nesting.top().first == State::Object)
                     {
                         readObjectMemberName();
-                        skip();
                     }
-
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ArrayElementSeparator))
-                {
-                    consumeToken(format_t::ArrayElementSeparator);
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ObjectMemberValueEnd))
-                {
-                    consumeToken(format_t::ObjectMemberValueEnd);
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ArrayEnd) || tools::starts_with(input(), format_t::ObjectEnd))
-                {
-                    break;
-                }
-                else
-                {
-                    inputAdvance(1);
                 }
+
+                skipScalarOrBegin();
             }
+            while (m_nesting.size() > level);
         }
 
     private:
@@ -492,6 +461,45 @@ namespace dots::serialization
             }
         }
 
+        void skipScalarOrBegin()
+        {
+            consumeWhitespace();
+            const value_t* scalarBegin = inputData();
+
+            while (inputAvailable())
+            {
+                if (tools::starts_with(input(), format_t::StringDelimiter))
+                {
+                    readEscapedString();
+                    return;
+                }
+                else if (tools::starts_with(input(), format_t::ArrayBegin))
+                {
+                    readArrayBegin();
+                    return;
+                }
+                else if (tools::starts_with(input(), format_t::ObjectBegin))
+                {
+                    readObjectBegin();
+                    return;
+                }
+                else if (tools::starts_with(input(), format_t::ArrayElementSeparator) || tools::starts_with(input(), format_t::ObjectMemberValueEnd) ||
+                         tools::starts_with(input(), format_t::ArrayEnd) || tools::starts_with(input(), format_t::ObjectEnd))
+                {
+                    break;
+                }
+
+                inputAdvance(1);
+            }
+
+            if (inputData() == scalarBegin || (!inputAvailable() && !m_nesting.empty()))
+            {
+                throw makeTokenError("<value>");
+            }
+
+            finalizeRead();
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
-- 
2.43.0


From 580c01c22f870eca2dc495e7f7ba1891cec44cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 46/72] fix: do not read text beyond its end

---
 .../dots/serialization/formats/TextReader.h      | 16 ++++++++++++----
 lib/src/type/Chrono.cpp                          |  8 ++++----
 lib/src/type/EnumDescriptor.cpp                  |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 3d1bf1b..02134c5 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -1,6 +1,10 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <algorithm>
+#include <cctype>
+#include <charconv>
+#include <cstdlib>
 #include <string>
 #include <vector>
 #include <stack>
@@ -429,23 +433,27 @@ namespace dots::serialization
             }
             else
             {
+                // note that the input is not required to be null-terminated
+                consumeWhitespace();
+                auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return std::isalnum(static_cast<unsigned char>(c)) || c == '+' || c == '-' || c == '.'; });
+                const std::string token{ input().begin(), it };
                 char* end;
 
                 if constexpr (std::is_same_v<T, float>)
                 {
-                    value = std::strtof(input().data(), &end);
+                    value = std::strtof(token.data(), &end);
                 }
                 else/* if constexpr (std::is_same_v<T, double>)*/
                 {
-                    value = std::strtod(input().data(), &end);
+                    value = std::strtod(token.data(), &end);
                 }
 
-                if (end == input().data())
+                if (end == token.data())
                 {
                     throw makeTokenError("<floating point value>");
                 }
 
-                inputAdvance(static_cast<size_t>(end - input().data()));
+                inputAdvance(static_cast<size_t>(end - token.data()));
             }
 
             if constexpr (format_t::FloatFormat == TextFormat::FloatFormat::WithSizeSuffix && std::is_same_v<T, float>)
diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fdc8b30..aca9248 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -86,7 +86,7 @@ namespace dots::type
         // it is pretty slow and should be overhauled at a later point
         std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
         std::smatch match;
-        std::string input = value.data();
+        std::string input{ value };
 
         if (!std::regex_match(input, match, regex) || match.size() <= 1)
         {
@@ -221,7 +221,7 @@ namespace dots::type
     {
         if (fmt.empty())
         {
-            std::istringstream iss{ value.data() };
+            std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
@@ -236,13 +236,13 @@ namespace dots::type
             }
             else
             {
-                std::istringstream iss{ value.data() };
+                std::istringstream iss{ std::string{ value } };
                 iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 sys_time_t sysTimePoint;
 
                 if (fmt == ISO8601DateTime)
                 {
-                    if (value.back() == 'Z')
+                    if (!value.empty() && value.back() == 'Z')
                     {
                         fmt = "%FT%TZ";
                     }
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 18f5086..81df0de 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -134,7 +134,7 @@ namespace dots::type
 
         if (it == m_enumerators.end())
         {
-            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + name.data() };
+            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + std::string{ name } };
         }
 
         return *it;
-- 
2.43.0


From 0a0436a15cd7876550ce52a0e1e5b10023745c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 47/72] fix: preserve floating point values in text forms

---
 .../serialization/formats/RapidJsonReader.h   |  2 +-
 .../dots/serialization/formats/TextWriter.h   | 24 ++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index c9af5fe..2eefa45 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -61,7 +61,7 @@ namespace dots::serialization
         void setInput(std::string_view input)
         {
             document_t document;
-            document.Parse(input.data(), input.size());
+            document.Parse<rapidjson::kParseFullPrecisionFlag>(input.data(), input.size());
             setInput(std::move(document));
         }
 
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 72781a6..55706e6 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -1,6 +1,11 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <charconv>
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include <string>
 #include <stack>
 #include <dots/serialization/formats/Writer.h>
@@ -191,9 +196,22 @@ namespace dots::serialization
                 }
                 else
                 {
-                    std::ostringstream oss;
-                    oss << std::setprecision(std::numeric_limits<T>::digits10 + 1) << value;
-                    append(oss.str());
+                    std::string str;
+
+                    // use the least precision that preserves the value
+                    for (int precision = std::numeric_limits<T>::digits10 + 1; precision <= std::numeric_limits<T>::max_digits10; ++precision)
+                    {
+                        std::ostringstream oss;
+                        oss << std::setprecision(precision) << value;
+                        str = oss.str();
+
+                        if (static_cast<T>(std::strtold(str.data(), nullptr)) == value)
+                        {
+                            break;
+                        }
+                    }
+
+                    append(str);
                 }
             }
 
-- 
2.43.0


From c2c25a720e3e8ba1920b23ebbf09e4eca983e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 48/72] fix: escape control characters as JSON requires and
 read unicode escapes

---
 .../dots/serialization/formats/TextFormat.h   |  1 +
 .../dots/serialization/formats/TextReader.h   | 62 +++++++++++++++++++
 .../dots/serialization/formats/TextWriter.h   | 11 +++-
 3 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/TextFormat.h b/lib/include/dots/serialization/formats/TextFormat.h
index 01060c1..236c373 100644
--- a/lib/include/dots/serialization/formats/TextFormat.h
+++ b/lib/include/dots/serialization/formats/TextFormat.h
@@ -24,6 +24,7 @@ namespace dots::serialization
 
         static constexpr std::string_view StringDelimiter = "\"";
         static constexpr std::string_view StringEscape = "\\";
+        static constexpr std::string_view StringUnicodeEscape = "\\u";
 
         enum struct ObjectFormat : uint8_t
         {
diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 02134c5..d6d6b3f 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -175,6 +175,10 @@ namespace dots::serialization
                         finalizeRead();
                         return token;
                     }
+                    else if (tryConsumeToken(format_t::StringUnicodeEscape))
+                    {
+                        appendUtf8(token, readUnicodeCodePoint());
+                    }
                     else if (tools::starts_with(input(), format_t::StringEscape))
                     {
                         auto it = std::find_if(format_t::StringEscapeMapping.begin(), format_t::StringEscapeMapping.end(), [this](const auto& escapeMapping)
@@ -508,6 +512,64 @@ namespace dots::serialization
             finalizeRead();
         }
 
+        uint32_t readUnicodeCodeUnit()
+        {
+            uint32_t codeUnit = 0;
+            const char* codeUnitEnd = input().data() + std::min<size_t>(inputAvailable(), 4);
+            auto [last, ec] = std::from_chars(input().data(), codeUnitEnd, codeUnit, 16);
+
+            if (ec != std::errc{} || last - input().data() != 4)
+            {
+                throw makeTokenError("<unicode-escape-sequence>");
+            }
+
+            inputAdvance(4);
+
+            return codeUnit;
+        }
+
+        uint32_t readUnicodeCodePoint()
+        {
+            uint32_t codePoint = readUnicodeCodeUnit();
+
+            if (codePoint >= 0xD800 && codePoint < 0xE000)
+            {
+                consumeToken(format_t::StringUnicodeEscape);
+                uint32_t lowSurrogate = readUnicodeCodeUnit();
+
+                if (codePoint >= 0xDC00 || lowSurrogate < 0xDC00 || lowSurrogate >= 0xE000)
+                {
+                    throw makeTokenError("<unicode-surrogate-pair>");
+                }
+
+                codePoint = 0x10000 + ((codePoint - 0xD800) << 10) + (lowSurrogate - 0xDC00);
+            }
+
+            return codePoint;
+        }
+
+        static void appendUtf8(std::string& str, uint32_t codePoint)
+        {
+            auto continuation = [codePoint](int shift){ return static_cast<char>(0x80 | ((codePoint >> shift) & 0x3F)); };
+
+            if (codePoint < 0x80)
+            {
+                str += static_cast<char>(codePoint);
+            }
+            else if (codePoint < 0x800)
+            {
+                str += { static_cast<char>(0xC0 | (codePoint >> 6)), continuation(0) };
+            }
+            else if (codePoint < 0x10000)
+            {
+                str += { static_cast<char>(0xE0 | (codePoint >> 12)), continuation(6), continuation(0) };
+            }
+            else
+            {
+                str += { static_cast<char>(0xF0 | (codePoint >> 18)), continuation(12), continuation(6), continuation(0) };
+            }
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 55706e6..b8bcc1d 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -294,7 +294,16 @@ namespace dots::serialization
 
                         if (it == format_t::StringEscapeMapping.end())
                         {
-                            append(strRemaining.substr(0, 1));
+                            if (auto c = static_cast<unsigned char>(strRemaining.front()); c < 0x20)
+                            {
+                                constexpr std::string_view HexDigits = "0123456789abcdef";
+                                append("\\u00", HexDigits.substr(c >> 4, 1), HexDigits.substr(c & 0xF, 1));
+                            }
+                            else
+                            {
+                                append(strRemaining.substr(0, 1));
+                            }
+
                             strRemaining.remove_prefix(1);
                         }
                         else
-- 
2.43.0


From 44c79cbbb0d3ab5e2ff3a1e4ee83cbe52f78c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 49/72] fix: accept characters beyond ASCII and whitespace
 before colons in text

---
 lib/include/dots/serialization/formats/TextReader.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index d6d6b3f..c2a55fa 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -115,7 +115,12 @@ namespace dots::serialization
 
             if constexpr (!format_t::ObjectMemberNameEnd.empty())
             {
-                consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd);
+                consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd.substr(0, 1));
+
+                for (size_t i = 1; i < format_t::ObjectMemberNameEnd.size(); ++i)
+                {
+                    consumeTokenAfterWhitespace(format_t::ObjectMemberNameEnd.substr(i, 1));
+                }
             }
 
             consumeTokenAfterWhitespace(format_t::ObjectMemberValueBegin);
@@ -256,7 +261,7 @@ namespace dots::serialization
                 return identifierSymbols;
             }();
 
-            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<size_t>(c)]; });
+            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<unsigned char>(c)]; });
             size_t identifierSize = it == input().end() ? input().size() : std::distance(input().begin(), it);
             std::string_view identifier = input().substr(0, identifierSize);
             inputAdvance(identifierSize);
@@ -589,7 +594,7 @@ namespace dots::serialization
 
         void consumeWhitespace()
         {
-            while (!input().empty() && input().front() < '!')
+            while (!input().empty() && static_cast<unsigned char>(input().front()) < '!')
             {
                 inputAdvance(1);
             }
-- 
2.43.0


From 8333addea42927708e4d09325a666eb989e381f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 50/72] fix: reading a vector replaces its elements

---
 lib/include/dots/serialization/RapidJsonSerializer.h | 1 +
 lib/include/dots/serialization/TextSerializer.h      | 1 +
 lib/include/dots/type/VectorDescriptor.h             | 7 ++++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 63a14d5..1b832f2 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -458,6 +458,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             m_reader.readArrayBegin();
+            descriptor.resize(vector, 0);
 
             while (!m_reader.tryReadArrayEnd())
             {
diff --git a/lib/include/dots/serialization/TextSerializer.h b/lib/include/dots/serialization/TextSerializer.h
index b829dbd..5e07930 100644
--- a/lib/include/dots/serialization/TextSerializer.h
+++ b/lib/include/dots/serialization/TextSerializer.h
@@ -251,6 +251,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             reader().readArrayBegin();
+            descriptor.resize(vector, 0);
 
             while (!reader().tryReadArrayEnd())
             {
diff --git a/lib/include/dots/type/VectorDescriptor.h b/lib/include/dots/type/VectorDescriptor.h
index b6f5968..231c964 100644
--- a/lib/include/dots/type/VectorDescriptor.h
+++ b/lib/include/dots/type/VectorDescriptor.h
@@ -167,7 +167,12 @@ namespace dots::type
                 std::aligned_storage_t<sizeof(T), alignof(T)> rawStorage;
                 T& storage = reinterpret_cast<T&>(rawStorage);
 
-                for (size_t i = 0; i < size; ++i)
+                while (vector.size() > size)
+                {
+                    vector.pop_back();
+                }
+
+                while (vector.size() < size)
                 {
                     valueDescriptor.construct(storage);
                     vector.emplace_back(std::move(storage));
-- 
2.43.0


From 26bc73cce2b54a617cf7b77002c8164888bf9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 51/72] fix: check the range of JSON integers and keep NUL
 characters of strings

---
 .../serialization/formats/RapidJsonReader.h   | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 2eefa45..8c8cb2d 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -1,7 +1,14 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <algorithm>
+#include <limits>
+#include <map>
+#include <optional>
 #include <stack>
+#include <stdexcept>
+#include <string>
+#include <string_view>
 #include <rapidjson/document.h>
 
 namespace dots::serialization
@@ -254,25 +261,13 @@ namespace dots::serialization
 
             if constexpr (std::is_signed_v<T>)
             {
-                if constexpr (sizeof(T) <= sizeof(int))
-                {
-                    value = static_cast<T>(m_input->GetInt());
-                }
-                else/* if (sizeof(T) == sizeof(int64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetInt64());
-                }
+                assertIntegerRange(m_input->IsInt64() && m_input->GetInt64() >= std::numeric_limits<T>::min() && m_input->GetInt64() <= std::numeric_limits<T>::max());
+                value = static_cast<T>(m_input->GetInt64());
             }
             else/* if constexpr (std::is_unsigned_v<T>)*/
             {
-                if constexpr (sizeof(T) <= sizeof(unsigned))
-                {
-                    value = static_cast<T>(m_input->GetUint());
-                }
-                else/* if (sizeof(T) == sizeof(uint64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetUint64());
-                }
+                assertIntegerRange(m_input->IsUint64() && m_input->GetUint64() <= std::numeric_limits<T>::max());
+                value = static_cast<T>(m_input->GetUint64());
             }
         }
 
@@ -294,13 +289,13 @@ namespace dots::serialization
         void read(std::string& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = { m_input->GetString(), m_input->GetStringLength() };
         }
 
         void read(std::string_view& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = { m_input->GetString(), m_input->GetStringLength() };
         }
 
         void finalizeRead()
@@ -315,6 +310,14 @@ namespace dots::serialization
             }
         }
 
+        void assertIntegerRange(bool inRange) const
+        {
+            if (!inRange)
+            {
+                throw std::runtime_error{ "encountered JSON number that is not an integer or exceeds value range" };
+            }
+        }
+
         template <size_t N>
         void assertType(std::array<rapidjson::Type, N> expectedTypes)
         {
-- 
2.43.0


From 50a7506cc45d952f79ae45e9e0f3d52b81bdf742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 52/72] fix: deserialize struct values given by their
 descriptor

---
 .../dots/serialization/RapidJsonSerializer.h  | 20 +++++++++++++++++-
 lib/include/dots/serialization/Serializer.h   | 21 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 1b832f2..b10cef8 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -170,7 +170,25 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
         void deserialize(T& value, const type::Descriptor<T>& descriptor)
         {
-            visit(value, descriptor);
+            if constexpr (std::is_base_of_v<type::Struct, T>)
+            {
+                visit(value, property_set_t{ property_set_t::All });
+            }
+            else if constexpr (std::is_same_v<T, type::Typeless>)
+            {
+                if (descriptor.type() == type::Type::Struct)
+                {
+                    visit(value.template to<type::Struct>(), property_set_t{ property_set_t::All });
+                }
+                else
+                {
+                    visit(value, descriptor);
+                }
+            }
+            else
+            {
+                visit(value, descriptor);
+            }
         }
 
         template <typename T, std::enable_if_t<!std::is_const_v<T> && !std::is_base_of_v<type::Struct, T>, int> = 0>
diff --git a/lib/include/dots/serialization/Serializer.h b/lib/include/dots/serialization/Serializer.h
index bc0ce74..71e3cce 100644
--- a/lib/include/dots/serialization/Serializer.h
+++ b/lib/include/dots/serialization/Serializer.h
@@ -138,7 +138,26 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<!std::is_const_v<T>, int> = 0>
         size_t deserialize(T& value, const type::Descriptor<T>& descriptor)
         {
-            visit(value, descriptor);
+            if constexpr (std::is_base_of_v<type::Struct, T>)
+            {
+                visit(value, property_set_t{ property_set_t::All });
+            }
+            else if constexpr (std::is_same_v<T, type::Typeless>)
+            {
+                if (descriptor.type() == type::Type::Struct)
+                {
+                    visit(value.template to<type::Struct>(), property_set_t{ property_set_t::All });
+                }
+                else
+                {
+                    visit(value, descriptor);
+                }
+            }
+            else
+            {
+                visit(value, descriptor);
+            }
+
             return lastDeserializeSize();
         }
 
-- 
2.43.0


From 31a093e145611227b984960e7aa8eafccb7e3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 53/72] fix: string form of vectors of structs over several
 lines

---
 lib/include/dots/serialization/formats/TextWriter.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index b8bcc1d..a168dba 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -52,16 +52,11 @@ namespace dots::serialization
         {
             if constexpr (format_t::ObjectFormat == TextFormat::ObjectFormat::WithTypeName)
             {
-                if (m_options.style == TextOptions::SingleLine)
+                if (m_options.style >= TextOptions::MultiLine || (m_options.style == TextOptions::SingleLine && m_nesting.empty()))
                 {
-                    if (m_nesting.empty())
-                    {
-                        writeString(objectTypeName);
-                    }
-                }
-                else if (m_options.style >= TextOptions::MultiLine)
-                {
-                    writeString(objectTypeName);
+                    writeString(objectTypeName, format_t::ObjectBegin);
+                    m_nesting.emplace(State::Object, true);
+                    return;
                 }
             }
             else
-- 
2.43.0


From 48a2c9cddb5eb602343a29227f3c31f329204041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 54/72] fix: delimit IPv6 hosts in URIs

---
 lib/src/tools/Uri.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 0ce875c..9b576c3 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -6,6 +6,12 @@
 
 namespace dots::tools
 {
+    static std::string delimit_host(const std::string& host)
+    {
+        bool isIpv6 = host.find_first_of(':') != std::string::npos;
+        return isIpv6 ? '[' + host + ']' : host;
+    }
+
     Uri::Uri(std::string uriStr) :
         m_uriStr{ std::move(uriStr) }
     {
@@ -13,7 +19,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& host, const std::string& port) :
-        Uri(scheme + "://" + host + ":" + port)
+        Uri(scheme + "://" + delimit_host(host) + ":" + port)
     {
         /* do nothing */
     }
@@ -117,8 +123,8 @@ namespace dots::tools
             std::string userAtHost;
             userAtHost += userName;
             userAtHost += '@';
-            userAtHost += m_host;
-            replace(m_host, userAtHost);
+            userAtHost += m_hostDelimited;
+            replace(m_hostDelimited, userAtHost);
         }
         else
         {
@@ -167,24 +173,13 @@ namespace dots::tools
 
     void Uri::setHost(const std::string& host)
     {
-        std::string_view hostView = host;
-        std::string hostDelimited;
-
-        if (bool isIpv6 = host.find_first_of(':') != std::string_view::npos; isIpv6)
-        {
-            hostDelimited += '[';
-            hostDelimited += host;
-            hostDelimited += ']';
-            hostView = hostDelimited;
-        }
-
         if (m_authority.empty())
         {
-            setAuthority(hostView.data());
+            setAuthority(delimit_host(host));
         }
         else
         {
-            replace(m_hostDelimited, hostView);
+            replace(m_hostDelimited, delimit_host(host));
         }
     }
 
@@ -203,10 +198,10 @@ namespace dots::tools
             }
 
             std::string hostAndPort;
-            hostAndPort += m_host;
+            hostAndPort += m_hostDelimited;
             hostAndPort += ':';
             hostAndPort += port;
-            replace(m_host, hostAndPort);
+            replace(m_hostDelimited, hostAndPort);
         }
         else
         {
-- 
2.43.0


From 36e70e37540a5ee69f175a8ad2dad3de2e2b5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 55/72] fix: set the authority of URIs without one

---
 lib/src/tools/Uri.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 9b576c3..da353b4 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -98,7 +98,8 @@ namespace dots::tools
             schemeAndAuthority += "://";
             schemeAndAuthority += authority;
             schemeAndAuthority += m_path;
-            replace(m_scheme, schemeAndAuthority);
+            m_uriStr = std::move(schemeAndAuthority);
+            parse();
         }
         else
         {
@@ -272,6 +273,7 @@ namespace dots::tools
     {
         try
         {
+            m_authority = {};
             m_userName = {};
             m_userPassword = {};
             m_hostDelimited = {};
-- 
2.43.0


From bc79ef166304f8f708bd5ad5da9441faf39638b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 56/72] fix: removing parts of a URI leaves no separator behind

---
 lib/src/tools/Uri.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index da353b4..e38e75c 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -147,6 +147,11 @@ namespace dots::tools
                 throw std::runtime_error{ "cannot set user password on URI without a user name" };
             }
 
+            if (userPassword.empty())
+            {
+                return;
+            }
+
             std::string userNameAndPassword;
             userNameAndPassword += m_userName;
             userNameAndPassword += ':';
@@ -198,6 +203,11 @@ namespace dots::tools
                 throw std::runtime_error{ "cannot set port on URI without a host" };
             }
 
+            if (port.empty())
+            {
+                return;
+            }
+
             std::string hostAndPort;
             hostAndPort += m_hostDelimited;
             hostAndPort += ':';
-- 
2.43.0


From fe6efbd3a8e5a78ccd62c47498fdda529f83acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:16 +0000
Subject: [PATCH 57/72] fix: an authentication policy without value is no
 policy

---
 lib/src/io/auth/LegacyAuthManager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/src/io/auth/LegacyAuthManager.cpp b/lib/src/io/auth/LegacyAuthManager.cpp
index a985e01..c3d2178 100644
--- a/lib/src/io/auth/LegacyAuthManager.cpp
+++ b/lib/src/io/auth/LegacyAuthManager.cpp
@@ -207,10 +207,7 @@ namespace dots::io
         }
         else
         {
-            if (policy.accept.isValid())
-            {
-                m_defaultAcceptPolicy = *policy.accept;
-            }
+            m_defaultAcceptPolicy = policy.accept.isValid() ? std::make_optional(*policy.accept) : std::nullopt;
         }
     }
 }
-- 
2.43.0


From 9ad6ff04bee925b7a60428bcf1464f69b802c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 58/72] fix: let applications use a guest transceiver of their
 own

---
 lib/src/Application.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index f61bce1..401ca9d 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,7 +23,7 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
-        if (m_guestTransceiverStorage == std::nullopt || &*m_guestTransceiverStorage == &global_transceiver())
+        if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
             transceiver = &global_transceiver_create(GuestTransceiver(
-- 
2.43.0


From 57623a2ddce192c4385b464152fdc8a312ca4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:14 +0000
Subject: [PATCH 59/72] fix: refuse access to the connection of a closed guest
 transceiver

---
 lib/src/GuestTransceiver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 3d54522..2e4e6ac 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -33,6 +33,11 @@ namespace dots
 
     const Connection& GuestTransceiver::connection() const
     {
+        if (m_hostConnection == nullptr)
+        {
+            throw std::runtime_error{ "attempt to get connection that was not opened or is already closed" };
+        }
+
         return *m_hostConnection;
     }
 
-- 
2.43.0


From ad12ae0bc5bab0993ecb09054f603b33fd824e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 60/72] fix: end the construction of an application that can
 not connect any more

---
 lib/src/Application.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 401ca9d..96c2758 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -55,6 +55,11 @@ namespace dots
             });
         }
 
+        if (ioContext().stopped())
+        {
+            ioContext().restart();
+        }
+
         for (;;)
         {
             if (m_guestConnectionError != nullptr)
@@ -62,10 +67,15 @@ namespace dots
                 std::rethrow_exception(m_guestConnectionError);
             }
 
-            if (transceiver->connected())
+            // note: this throws if the connection has been closed
+            if (transceiver->connection().connected())
             {
                 break;
             }
+            else if (ioContext().stopped())
+            {
+                throw std::runtime_error{ "application exited before the connection was established" };
+            }
             else
             {
                 ioContext().run_one();
-- 
2.43.0


From 4d562b5c7b64921114611766d579c30f5f217c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:05 +0000
Subject: [PATCH 61/72] fix: do not use the destroyed transceiver at the end of
 an application

---
 lib/src/Application.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 96c2758..2ca2d82 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -122,7 +122,8 @@ namespace dots
 
     Application::~Application()
     {
-        ioContext().stop();
+        asio::io_context& ioContext = m_transceiver->ioContext();
+        ioContext.stop();
 
         if (m_hostTransceiverStorage != std::nullopt)
         {
@@ -137,8 +138,8 @@ namespace dots
             global_transceiver_destroy();
         }
 
-        ioContext().restart();
-        ioContext().poll();
+        ioContext.restart();
+        ioContext.poll();
     }
 
     const Transceiver& Application::transceiver() const
-- 
2.43.0


From 8bfba60379a7f4f4f9e07cb5b829d3fd42c60a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 62/72] fix: destroy the transceiver of an application that
 fails to connect

---
 lib/include/dots/Application.h |  2 ++
 lib/src/Application.cpp        | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index e75a624..b675df7 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -254,6 +254,8 @@ namespace dots
         const asio::io_context& ioContext() const;
         asio::io_context& ioContext();
 
+        void destroyTransceiver();
+
         void handleGuestTransceiverTransition(const Connection& connection, std::exception_ptr ePtr);
 
         void parseGuestTransceiverArgs(int argc, char* argv[]);
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 2ca2d82..7569946 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,6 +23,10 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
+        // note: the transceiver must not outlive a failed construction
+        auto destroyOnFailure = [](Application* app){ app->destroyTransceiver(); };
+        std::unique_ptr<Application, decltype(destroyOnFailure)> guard{ this, destroyOnFailure };
+
         if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
@@ -32,16 +36,16 @@ namespace dots
                 type::Registry::StaticTypePolicy::All,
                 transition_handler_t{ &Application::handleGuestTransceiverTransition, this }
             ));
+            m_transceiver = transceiver;
             transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
         }
         else
         {
             transceiver = &*m_guestTransceiverStorage;
+            m_transceiver = transceiver;
             transceiver->open(*m_openEndpoint);
         }
 
-        m_transceiver = transceiver;
-
         if (handleExitSignals)
         {
             m_signals = std::make_unique<signal_set_storage>(ioContext());
@@ -83,6 +87,7 @@ namespace dots
         }
 
         transceiver->publish(DotsClient{ .id = transceiver->connection().selfId(), .running = true });
+        (void)guard.release();
     }
 
     Application::Application(const std::string& name, std::optional<GuestTransceiver> guestTransceiver/* = std::nullopt*/, bool handleExitSignals/* = true*/) :
@@ -122,6 +127,16 @@ namespace dots
 
     Application::~Application()
     {
+        destroyTransceiver();
+    }
+
+    void Application::destroyTransceiver()
+    {
+        if (m_transceiver == nullptr)
+        {
+            return;
+        }
+
         asio::io_context& ioContext = m_transceiver->ioContext();
         ioContext.stop();
 
-- 
2.43.0


From 074e13b92748443ed738a7adad8d718f3dff1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:32 +0000
Subject: [PATCH 63/72] fix: limit the write buffer also for cached payloads

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 5d1b995..b01e6c8 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -657,6 +657,11 @@ namespace dots::io
 
                 if (transmission.id() == cacheId)
                 {
+                    if (writeBuffer.size() > WriteBufferMaxSize)
+                    {
+                        throw std::runtime_error{ "async write buffer exceeded maximum size" };
+                    }
+
                     writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                 }
                 else
-- 
2.43.0


From 1271957eb888f8f78b1c6486e364d7d2b03b9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:36 +0000
Subject: [PATCH 64/72] fix: publish the status of the daemon

---
 bin/dotsd/src/DotsDaemon.cpp | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/bin/dotsd/src/DotsDaemon.cpp b/bin/dotsd/src/DotsDaemon.cpp
index 50a7c0c..b477826 100644
--- a/bin/dotsd/src/DotsDaemon.cpp
+++ b/bin/dotsd/src/DotsDaemon.cpp
@@ -94,31 +94,31 @@ namespace dots
         {
             DotsDaemonStatus ds{ m_daemonStatus };
 
+            #ifdef __unix__
+            struct rusage usage;
+            ::getrusage(RUSAGE_SELF, &usage);
+
+            ds.resourceUsage = DotsResourceUsage{
+                .minorFaults = static_cast<int32_t>(usage.ru_minflt),
+                .majorFaults = static_cast<int32_t>(usage.ru_majflt),
+                .inBlock = static_cast<int32_t>(usage.ru_inblock),
+                .outBlock = static_cast<int32_t>(usage.ru_oublock),
+                .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
+                .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
+                .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
+                .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
+                .maxRss = static_cast<int32_t>(usage.ru_maxrss),
+                .userCpuTime = type::posix::Timeval{ usage.ru_utime },
+                .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
+            };
+            #endif
+            ds.cache = DotsCacheStatus{
+                .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
+                .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
+            };
+
             if (m_daemonStatus._diffProperties(ds))
             {
-                #ifdef __unix__
-                struct rusage usage;
-                ::getrusage(RUSAGE_SELF, &usage);
-
-                ds.resourceUsage = DotsResourceUsage{
-                    .minorFaults = static_cast<int32_t>(usage.ru_minflt),
-                    .majorFaults = static_cast<int32_t>(usage.ru_majflt),
-                    .inBlock = static_cast<int32_t>(usage.ru_inblock),
-                    .outBlock = static_cast<int32_t>(usage.ru_oublock),
-                    .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
-                    .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
-                    .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
-                    .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
-                    .maxRss = static_cast<int32_t>(usage.ru_maxrss),
-                    .userCpuTime = type::posix::Timeval{ usage.ru_utime },
-                    .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
-                };
-                #endif
-                ds.cache = DotsCacheStatus{
-                    .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
-                    .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
-                };
-
                 transceiver().publish(ds);
                 m_daemonStatus = ds;
             }
-- 
2.43.0


From f0dadc0d80de18f14113c50897218cd619152100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:36 +0000
Subject: [PATCH 65/72] fix: cancel a replaced file descriptor observer

---
 lib/include/dots/io/FdObserver.h | 2 +-
 lib/src/io/FdObserver.cpp        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/FdObserver.h b/lib/include/dots/io/FdObserver.h
index 29bdc53..26fcd6b 100644
--- a/lib/include/dots/io/FdObserver.h
+++ b/lib/include/dots/io/FdObserver.h
@@ -71,7 +71,7 @@ namespace dots::io::posix
         ~FdObserver();
 
         FdObserver& operator = (const FdObserver& rhs) = delete;
-        FdObserver& operator = (FdObserver&& rhs) = default;
+        FdObserver& operator = (FdObserver&& rhs) noexcept;
 
         /*!
          * @brief Release management of the FdObserver.
diff --git a/lib/src/io/FdObserver.cpp b/lib/src/io/FdObserver.cpp
index e415d22..fed72bb 100644
--- a/lib/src/io/FdObserver.cpp
+++ b/lib/src/io/FdObserver.cpp
@@ -57,6 +57,15 @@ namespace dots::io::posix
         }
     }
 
+    FdObserver& FdObserver::operator = (FdObserver&& rhs) noexcept
+    {
+        // the observation of the replaced observer has to be cancelled as in the destructor
+        FdObserver other{ std::move(rhs) };
+        std::swap(m_observerData, other.m_observerData);
+
+        return *this;
+    }
+
     void FdObserver::discard()
     {
         if (m_observerData != nullptr)
-- 
2.43.0


From 8f85d0bf20626a617ff9853e05731f9757b3c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:36 +0000
Subject: [PATCH 66/72] fix: compare networks without host bits

---
 lib/src/tools/IpNetwork.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/IpNetwork.cpp b/lib/src/tools/IpNetwork.cpp
index 23c6f3b..7fa9b69 100644
--- a/lib/src/tools/IpNetwork.cpp
+++ b/lib/src/tools/IpNetwork.cpp
@@ -109,7 +109,9 @@ namespace dots::tools
         }
         else
         {
-            return isStrictSubnetOf(network) || m_network == network.m_network;
+            auto canonical = [](const network_t& network_) { return std::visit([](const auto& n) -> network_t { return n.canonical(); }, network_); };
+
+            return isStrictSubnetOf(network) || canonical(m_network) == canonical(network.m_network);
         }
     }
 
-- 
2.43.0


From a657e879e94165e72623056fbedd8caac1da57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:36 +0000
Subject: [PATCH 67/72] fix: write and read all durations

---
 lib/src/type/Chrono.cpp | 66 +++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index aca9248..044747f 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -2,7 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <sstream>
 #include <regex>
-#include <charconv>
+#include <cmath>
 #include <optional>
 #include <dots/type/Chrono.h>
 #include <date/date.h>
@@ -30,39 +30,60 @@ namespace dots::type
 {
     std::string Duration::toString() const
     {
-        if (*this == zero())
+        // note that the accuracy of the underlying type decreases with the magnitude of the duration
+        const int fractionDigits = std::abs(count()) < 1'000'000 ? 9 : 6;
+        const auto fractionUnit = static_cast<int64_t>(std::pow(10, fractionDigits));
+
+        auto seconds = date::floor<std::chrono::seconds>(date::abs(static_cast<const base_t&>(*this)));
+        auto fraction = static_cast<int64_t>(std::llround((date::abs(static_cast<const base_t&>(*this)) - seconds).count() * fractionUnit));
+
+        if (fraction == fractionUnit)
+        {
+            fraction = 0;
+            ++seconds;
+        }
+
+        if (seconds == std::chrono::seconds::zero() && fraction == 0)
         {
             return "PT0S";
         }
 
         std::ostringstream oss;
 
-        oss << "P";
-
-        Duration duration{ *this };
+        oss << (*this < zero() ? "-P" : "P");
 
-        auto floor_to_string = [&oss, &duration](auto floorZero, char c)
+        auto floor_to_string = [&oss, &seconds](auto floorZero, char c)
         {
             using duration_t = decltype(floorZero);
 
-            if (auto floored = date::floor<duration_t>(duration); floored > floorZero)
+            if (auto floored = date::floor<duration_t>(seconds); floored > floorZero)
             {
                 oss << floored.count() << c;
-                duration -= floored;
+                seconds -= floored;
             }
         };
 
         floor_to_string(date::days::zero(), 'D');
 
-        if (duration > zero())
+        if (seconds > std::chrono::seconds::zero() || fraction > 0)
         {
             oss << "T";
             floor_to_string(std::chrono::hours::zero(), 'H');
             floor_to_string(std::chrono::minutes::zero(), 'M');
 
-            if (duration > zero())
+            if (seconds > std::chrono::seconds::zero() || fraction > 0)
             {
-                oss << duration.count() << "S";
+                oss << seconds.count();
+
+                if (fraction > 0)
+                {
+                    std::string digits = std::to_string(fraction);
+                    digits.insert(0, fractionDigits - digits.size(), '0');
+                    digits.erase(digits.find_last_not_of('0') + 1);
+                    oss << '.' << digits;
+                }
+
+                oss << "S";
             }
         }
 
@@ -82,9 +103,10 @@ namespace dots::type
             return Duration{ zero() };
         }
 
-        // note that this implementation is currently not able to parse durations without a time designator. additionally
-        // it is pretty slow and should be overhauled at a later point
-        std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
+        // note that this implementation is pretty slow and should be overhauled at a later point
+        #define N R"((?:[0-9]+\.?[0-9]*|\.[0-9]+))"
+        std::regex regex{ "(-)?P(?=.)(" N "Y)?(" N "M)?(" N "W)?(" N "D)?(?:(T)(" N "H)?(" N "M)?(" N "S)?)?", std::regex_constants::ECMAScript };
+        #undef N
         std::smatch match;
         std::string input{ value };
 
@@ -93,6 +115,7 @@ namespace dots::type
             throw std::runtime_error{ "could not parse duration from string: " + std::string{ value } };
         }
 
+        bool negative = false;
         bool preTimeDesignator = true;
         Duration duration = zero();
 
@@ -111,27 +134,20 @@ namespace dots::type
             auto parse_duration = [](auto duration, const std::string& part)
             {
                 using duration_t = decltype(duration);
-                using rep_t = typename duration_t::rep;
                 (void)duration;
 
-                rep_t count;
-
-                if (std::from_chars_result result = std::from_chars(part.data(), part.data() + part.size(), count); result.ec != std::errc{})
-                {
-                    throw std::runtime_error{ "could not parse duration from string part: " + part  + " -> " + std::make_error_code(result.ec).message() };
-                }
-
-                return duration_t{ count };
+                return std::chrono::duration<double, typename duration_t::period>{ std::stod(part) };
             };
 
             switch (part.back())
             {
+                case '-': negative = true; break;
                 case 'Y': duration += parse_duration(date::years::zero(), part); break;
                 case 'W': duration += parse_duration(date::weeks::zero(), part); break;
                 case 'D': duration += parse_duration(date::days::zero(), part); break;
                 case 'T': preTimeDesignator = false; break;
                 case 'H': duration += parse_duration(std::chrono::hours::zero(), part); break;
-                case 'S': duration += std::chrono::duration_cast<std::chrono::nanoseconds>(base_t{ std::stod(part) }); break;
+                case 'S': duration += parse_duration(std::chrono::seconds::zero(), part); break;
                 case 'M':
                 {
                     if (preTimeDesignator)
@@ -149,7 +165,7 @@ namespace dots::type
             }
         }
 
-        return Duration{ duration };
+        return negative ? Duration{ -duration } : duration;
     }
 
     using sys_time_t = date::sys_time<std::chrono::milliseconds>;
-- 
2.43.0


From 1c91826c2aeb503ea03fd65a541b82194925017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:51 +0000
Subject: [PATCH 68/72] fix: round time points to milliseconds and refuse text
 after them

---
 lib/src/type/Chrono.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index 044747f..11539fe 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -189,7 +189,7 @@ namespace dots::type
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
-                sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
+                sys_time_t sysTimePoint{ std::chrono::round<sys_duration_t>(duration()) };
 
                 if (utc)
                 {
@@ -242,6 +242,11 @@ namespace dots::type
             duration_t::rep count;
             iss >> count;
 
+            if (!iss.eof() && iss.peek() != std::istringstream::traits_type::eof())
+            {
+                throw std::runtime_error{ "could not parse time point from string: " + iss.str() };
+            }
+
             return TimePointImpl{ Duration{ count } };
         }
         else
@@ -269,6 +274,12 @@ namespace dots::type
                 }
 
                 iss >> date::parse(fmt.data(), sysTimePoint);
+
+                if (!iss.eof() && iss.peek() != std::istringstream::traits_type::eof())
+                {
+                    throw std::runtime_error{ "could not parse time point from string: " + iss.str() };
+                }
+
                 return TimePointImpl{ sysTimePoint.time_since_epoch() };
             }
         }
-- 
2.43.0


From b9f1d47abadcb399c03ec1905041185f1288d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:04 +0000
Subject: [PATCH 69/72] fix: refuse described types whose property tags are out
 of range or not unique

---
 lib/src/io/DescriptorConverter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 8b1f8d3..dde7983 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -52,9 +52,18 @@ namespace dots::io
         }
 
         const type::PropertyDescriptor* last = nullptr;
+        property_set_t definedProperties;
 
         for (const StructPropertyData& propertyData : *structData.properties)
         {
+            // note: every tag must identify exactly one property, because it also determines the property's bit in a property set
+            if (*propertyData.tag > property_set_t::LastProperty || property_set_t::FromIndex(*propertyData.tag) <= definedProperties)
+            {
+                throw std::logic_error{ "invalid property tag: " + std::to_string(*propertyData.tag) };
+            }
+
+            definedProperties += property_set_t::FromIndex(*propertyData.tag);
+
             type::Descriptor<>* descriptor = m_registry.get().findType(*propertyData.type);
 
             if (descriptor == nullptr)
-- 
2.43.0


From 33bc03c1ca32d9376b95d38569e86f81027f80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:04 +0000
Subject: [PATCH 70/72] fix: convert durations to valid timespec and timeval
 values

---
 lib/include/dots/type/LibcTime.h  | 18 ++++++++++++++----
 lib/include/dots/type/PosixTime.h | 17 +++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/type/LibcTime.h b/lib/include/dots/type/LibcTime.h
index 26953c2..e3e559d 100644
--- a/lib/include/dots/type/LibcTime.h
+++ b/lib/include/dots/type/LibcTime.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <cmath>
 #include <ctime>
 #include <dots/type/Chrono.h>
 
@@ -67,11 +68,20 @@ namespace dots::type::libc
         }
 
         Timespec(Duration duration) :
-            Timespec(timespec{
-                static_cast<std::time_t>(duration.toSeconds()),
-                static_cast<long>(::nearbyint((duration.toFractionalSeconds() - duration.toSeconds()) * NanosecondsPerSecond))
-            })
+            m_timespec{}
         {
+            // note: the nanoseconds of a valid timespec are never negative and always less than a second
+            double seconds = std::floor(duration.toFractionalSeconds());
+            double nanoseconds = std::nearbyint((duration.toFractionalSeconds() - seconds) * NanosecondsPerSecond);
+
+            if (nanoseconds >= NanosecondsPerSecond)
+            {
+                seconds += 1.0;
+                nanoseconds = 0.0;
+            }
+
+            m_timespec.tv_sec = static_cast<std::time_t>(seconds);
+            m_timespec.tv_nsec = static_cast<long>(nanoseconds);
         }
 
         Timespec(TimePoint timePoint) :
diff --git a/lib/include/dots/type/PosixTime.h b/lib/include/dots/type/PosixTime.h
index 81635c8..679aad1 100644
--- a/lib/include/dots/type/PosixTime.h
+++ b/lib/include/dots/type/PosixTime.h
@@ -98,11 +98,20 @@ namespace dots::type::posix
         }
 
         Timeval(Duration duration) :
-            Timeval(timeval{
-                static_cast<time_t>(duration.toSeconds()),
-                static_cast<suseconds_t>(::nearbyint((duration.toFractionalSeconds() - duration.toSeconds()) * MicrosecondsPerSecond))
-            })
+            m_timeval{}
         {
+            // note: the microseconds of a valid timeval are never negative and always less than a second
+            double seconds = std::floor(duration.toFractionalSeconds());
+            double microseconds = std::nearbyint((duration.toFractionalSeconds() - seconds) * MicrosecondsPerSecond);
+
+            if (microseconds >= MicrosecondsPerSecond)
+            {
+                seconds += 1.0;
+                microseconds = 0.0;
+            }
+
+            m_timeval.tv_sec = static_cast<time_t>(seconds);
+            m_timeval.tv_usec = static_cast<suseconds_t>(microseconds);
         }
 
         constexpr operator const timeval* () const
-- 
2.43.0


From 0e5c6a90e3a86b66bd2b9144b5141741cb733ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:04 +0000
Subject: [PATCH 71/72] fix: scoped time zones need no time zone in the
 environment and restore an empty one

---
 lib/include/dots/type/PosixTime.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/type/PosixTime.h b/lib/include/dots/type/PosixTime.h
index 679aad1..64224d9 100644
--- a/lib/include/dots/type/PosixTime.h
+++ b/lib/include/dots/type/PosixTime.h
@@ -2,6 +2,8 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #ifdef __unix__
+#include <optional>
+#include <string>
 #include <string_view>
 #include <cmath>
 #include <dots/type/LibcTime.h>
@@ -13,9 +15,8 @@ namespace dots::type::posix
     {
         ScopedTimeZone(std::string_view timeZone)
         {
-            std::string_view currentTimeZone = ::getenv("TZ");
-
-            if (!currentTimeZone.empty())
+            // note: the environment does not need to define a time zone
+            if (const char* currentTimeZone = ::getenv("TZ"); currentTimeZone != nullptr)
             {
                 m_previousTimeZone = currentTimeZone;
             }
@@ -32,13 +33,13 @@ namespace dots::type::posix
 
         ~ScopedTimeZone()
         {
-            if (m_previousTimeZone.empty())
+            if (m_previousTimeZone == std::nullopt)
             {
                 ::unsetenv("TZ");
             }
             else
             {
-                ::setenv("TZ", m_previousTimeZone.data(), true);
+                ::setenv("TZ", m_previousTimeZone->data(), true);
             }
 
             ::tzset();
@@ -46,7 +47,7 @@ namespace dots::type::posix
 
     private:
 
-        std::string m_previousTimeZone;
+        std::optional<std::string> m_previousTimeZone;
     };
 
     struct PosixTm : libc::Tm
-- 
2.43.0


From 340db7e5f343096231695462bd55eb04b0f06e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:04 +0000
Subject: [PATCH 72/72] fix: refuse log level numbers that do not fit into a
 level

---
 lib/src/tools/logging.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/logging.cpp b/lib/src/tools/logging.cpp
index 905715c..acdb8ea 100644
--- a/lib/src/tools/logging.cpp
+++ b/lib/src/tools/logging.cpp
@@ -29,7 +29,8 @@ namespace dots::tools
 
     void LogFrontend::setLogLevel(int levelValue)
     {
-        std::optional<Level> level = nr2level(static_cast<uint8_t>(levelValue));
+        // note: numbers that exceed the underlying type of a level must not be truncated to a valid one
+        std::optional<Level> level = levelValue == static_cast<uint8_t>(levelValue) ? nr2level(static_cast<uint8_t>(levelValue)) : std::nullopt;
 
         if (level == std::nullopt)
         {
-- 
2.43.0

