From 8d45fe5a727261544158390bb088db2610a5bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 01/16] fix: encode the memory parity error exception as 0x08,
 the code it is parsed from

---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 5485e83d794bfd80d1ec29a494dbf4ef76c0bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 02/16] fix: a timer that expired while its request was
 completing no longer fails the next request

---
 lib/src/client/channel/ClientChannelTcp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..32fee02 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,13 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The timer may already have expired when it was cancelled, it then
+            // must not fail the request that was sent afterwards
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From 8a6f97063b397af4a13e773c47cd3752cd8d6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 03/16] fix: rejecting an invalid request no longer calls its
 handler after the channel has been shut down

---
 lib/src/client/channel/ClientChannelTcp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 32fee02..43265ec 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -85,6 +85,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
     else
     {
         m_executor->post([=, self = shared_from_this()]() {
+            if(m_is_shutdown) return;
+
             auto exception = Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException("Modbus request is not valid."));
             response_handler(exception);
         });
-- 
2.43.0


From 879dc365634eb40f66b3df434d15aec416520626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 04/16] fix: deliver a frame without body as soon as its header
 is complete

---
 lib/src/messages/mbap/MbapParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..eb747e9 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -72,6 +72,12 @@ void MbapParser::find_body_size()
 
     m_num_bytes_to_read = length - 1;
     m_reading_body = true;
+
+    // A frame without any body is already complete
+    if(m_num_bytes_to_read == 0)
+    {
+        send_data();
+    }
 }
 
 void MbapParser::send_data()
-- 
2.43.0


From e5c5344be5d8f1ffa31b44d06832623c3c1e781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 05/16] fix: keep what fits of an oversize frame, whatever its
 segmentation

---
 lib/src/messages/mbap/MbapParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index eb747e9..66fe8f7 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -34,7 +34,7 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         auto read = data.take(m_num_bytes_to_read);
         data.advance(read.length());
         m_num_bytes_to_read -= read.length();
-        m_buffer_view.copy_from(read);
+        m_buffer_view.copy_from(read.take(m_buffer_view.length()));
 
         if(m_num_bytes_to_read == 0)
         {
-- 
2.43.0


From d59644a336666ae4c5145e9df424c5a958d183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 06/16] fix: adding a session to a unit replaces the unit's
 current session

---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From cd22c70df1b208272c3e4c9285ff47ef56a66a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 07/16] fix: a register response whose byte count contradicts
 its length is malformed

---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From 7f64fbd951587fafbad975c58df9020e9ea631a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 08/16] fix: a restarted scheduled request polls in a single
 loop, and a stopped one does not poll again

---
 lib/src/client/session/ScheduledRequest.h   |  1 +
 lib/src/client/session/ScheduledRequest.hpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..be22e37 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -59,6 +59,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    unsigned int m_generation;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..c410fd9 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_generation{0},
       m_timer{nullptr}
 {
 
@@ -50,6 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
+            ++m_generation;
             execute();
         }
     });
@@ -91,16 +93,22 @@ template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
     // Send the request
+    auto generation = m_generation;
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        // A request sent before the last restart does not keep polling
+        if(is_running() && generation == m_generation)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                // The timer may already have expired when it was cancelled
+                if(is_running() && generation == m_generation)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From 29f45faa65211cfbce567e52142600cb0ba84f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 09/16] fix: a failed accept does not stop the server from
 accepting further connections

---
 lib/src/server/channel/AsioServer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..cccada5 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,11 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        // This connection was never established, so it is not counted.
+        // Failing to accept one connection must not prevent accepting the next ones.
+        m_logger->error("Accept error: {}", ec.message());
+        m_connections.remove(connection);
+        start_accept();
         return;
     }
 
-- 
2.43.0


From 70e10b6781b6499ecdc040e12e2f08ec48049a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 10/16] fix: the server sends every answer completely and in
 order

---
 .../channel/AsioServerTcpConnection.cpp       | 22 ++++++++++++-------
 .../server/channel/AsioServerTcpConnection.h  |  3 ++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..d373f8b 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -46,8 +46,12 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
-    send_buffer();
+    // The frame being written stays at the front of the queue until it is completely written
+    m_write_queue.emplace_back(std::make_unique<ser4cpp::Buffer>(data));
+    if(m_write_queue.size() == 1)
+    {
+        send_buffer();
+    }
 }
 
 void AsioServerTcpConnection::close()
@@ -135,7 +139,8 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_write_queue.pop_front();
+    send_buffer();
 
     if(m_connection_listener)
     {
@@ -160,12 +165,13 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    if(!m_write_queue.empty() && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(m_write_queue.front()->as_rslice(), m_write_queue.front()->length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                  std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                  _1, _2)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..1f06c98 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,7 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -62,7 +63,7 @@ private:
     bool m_is_shutdown;
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_queue;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 548bb5c7ff5602e26a963ed5dea238c12470fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 11/16] fix: requests are failed when the peer closes the
 connection

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..1d18dc5 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -160,14 +160,13 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
-            send_error(ec.message());
         }
+        close();
+        send_error(ec.message());
         return;
     }
 
-- 
2.43.0


From 1ab1b932331a410a1e95d8e71943238cef04c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 12/16] fix: the client sends every request completely and in
 order

---
 .../channel/AsioClientTcpConnection.cpp       | 32 +++++++++++++------
 .../client/channel/AsioClientTcpConnection.h  |  6 ++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 1d18dc5..fc74202 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -48,7 +48,14 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
     
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    // Until the connection is established, only the most recent frame is worth sending
+    if(m_current_connection_status != ConnectionStatus::Connected)
+    {
+        m_write_queue.clear();
+    }
+
+    // The frame being written stays at the front of the queue until it is completely written
+    m_write_queue.emplace_back(std::make_shared<ser4cpp::Buffer>(data));
 
     if(m_current_connection_status == ConnectionStatus::NotConnected)
     {
@@ -77,7 +84,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
                                                             _1, _2)));
     }
 
-    if(m_current_connection_status == ConnectionStatus::Connected)
+    if(m_current_connection_status == ConnectionStatus::Connected && m_write_queue.size() == 1)
     {
         send_buffer();
     }
@@ -91,6 +98,7 @@ void AsioClientTcpConnection::close()
         if(m_is_shutdown) return;
 
         m_current_connection_status = ConnectionStatus::NotConnected;
+        m_write_queue.clear();
 
         if(m_tcp_socket.is_open())
         {
@@ -181,7 +189,7 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const std::error_code& ec, std::size_t bytes_transferred)
 {
     if(m_is_shutdown) return;
 
@@ -195,7 +203,11 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    if(!m_write_queue.empty() && m_write_queue.front() == buffer)
+    {
+        m_write_queue.pop_front();
+        send_buffer();
+    }
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -218,12 +230,14 @@ void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
+    if(!m_write_queue.empty())
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        auto buffer = m_write_queue.front();
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
+                                                  std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                  buffer, _1, _2)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..00c22f1 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOCLIENTTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include <string>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
@@ -53,7 +55,7 @@ private:
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
     void connect_handler(const asio::error_code& ec);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const asio::error_code& ec, std::size_t bytes_transferred);
 
     void begin_read();
     void send_buffer();
@@ -69,7 +71,7 @@ private:
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_queue;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 73e2980252e1e4a513bfb59b2e5007e6ab72e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 13/16] fix: a closed client connection does not interfere with
 the next one, and every connection attempt uses the adapter

---
 .../channel/AsioClientTcpConnection.cpp       | 149 +++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  16 +-
 2 files changed, 103 insertions(+), 62 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index fc74202..ad02947 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -32,7 +32,6 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_executor{executor},
           m_adapter{adapter},
           m_resolver{*executor->get_context()},
-          m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
           m_current_connection_status{ConnectionStatus::NotConnected}
 {
@@ -61,27 +60,14 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
-
         // Start connecting
+        m_tcp_socket = std::make_shared<asio::ip::tcp::socket>(*m_executor->get_context());
         m_current_connection_status = ConnectionStatus::Connecting;
         asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+                                                            m_tcp_socket, _1, _2)));
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected && m_write_queue.size() == 1)
@@ -97,17 +83,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-        m_write_queue.clear();
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        disconnect();
     });
 }
 
@@ -116,38 +92,100 @@ void AsioClientTcpConnection::shutdown()
     m_executor->post([=, self = shared_from_this()] () {
         m_is_shutdown = true;
 
-        std::error_code ec;
-        m_tcp_socket.cancel(ec);
+        if(m_tcp_socket)
+        {
+            std::error_code ec;
+            m_tcp_socket->cancel(ec);
+        }
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(socket_t socket, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || socket != m_tcp_socket) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        disconnect();
         send_error(ec.message());
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+    connect(endpoint);
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect(asio::ip::tcp::resolver::iterator endpoint)
 {
-    if(m_is_shutdown) return;
+    asio::error_code ec = asio::error::host_not_found;
+
+    while(endpoint != asio::ip::tcp::resolver::iterator{})
+    {
+        open_socket(endpoint->endpoint().protocol(), ec);
+        if(!ec)
+        {
+            m_tcp_socket->async_connect(*endpoint,
+                                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                                m_tcp_socket, endpoint, _1)));
+            return;
+        }
+
+        ++endpoint;
+    }
+
+    m_logger->error("Connection error: {}", ec.message());
+    disconnect();
+    send_error(ec.message());
+}
+
+void AsioClientTcpConnection::open_socket(const asio::ip::tcp& protocol, asio::error_code& ec)
+{
+    m_tcp_socket->close(ec);
+    m_tcp_socket->open(protocol, ec);
+    if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
+
+    // Connect from the proper adapter
+    if(!m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
+
+        m_tcp_socket->bind(asio::ip::tcp::endpoint{address, 0}, ec);
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
+    }
+}
+
+void AsioClientTcpConnection::disconnect()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
+    m_write_queue.clear();
+
+    if(m_tcp_socket && m_tcp_socket->is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket->shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket->close(ec);
+    }
+    m_tcp_socket.reset();
+}
+
+void AsioClientTcpConnection::connect_handler(socket_t socket, asio::ip::tcp::resolver::iterator endpoint, const asio::error_code& ec)
+{
+    if(m_is_shutdown || socket != m_tcp_socket) return;
 
     if(ec)
     {
+        if(++endpoint != asio::ip::tcp::resolver::iterator{})
+        {
+            connect(endpoint);
+            return;
+        }
+
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -159,9 +197,9 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(socket_t socket, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || socket != m_tcp_socket) return;
 
     if(ec)
     {
@@ -173,7 +211,7 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
         {
             m_logger->error("Read error: {}", ec.message());
         }
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -189,25 +227,22 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(socket_t socket, std::shared_ptr<ser4cpp::Buffer> buffer, const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || socket != m_tcp_socket) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    if(!m_write_queue.empty() && m_write_queue.front() == buffer)
-    {
-        m_write_queue.pop_front();
-        send_buffer();
-    }
+    m_write_queue.pop_front();
+    send_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -220,10 +255,10 @@ void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
 
-    m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
-                                 m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
-                                                         std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+    m_tcp_socket->async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
+                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
+                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                          m_tcp_socket, _1, _2)));
 }
 
 void AsioClientTcpConnection::send_buffer()
@@ -233,11 +268,11 @@ void AsioClientTcpConnection::send_buffer()
     if(!m_write_queue.empty())
     {
         auto buffer = m_write_queue.front();
-        asio::async_write(m_tcp_socket,
+        asio::async_write(*m_tcp_socket,
                           asio::buffer(buffer->as_rslice(), buffer->length()),
                           m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
                                                   std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                  buffer, _1, _2)));
+                                                  m_tcp_socket, buffer, _1, _2)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 00c22f1..1862c7f 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -52,11 +52,17 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(std::shared_ptr<ser4cpp::Buffer> buffer, const asio::error_code& ec, std::size_t bytes_transferred);
+    using socket_t = std::shared_ptr<asio::ip::tcp::socket>;
 
+    // Each handler receives the socket it was started for, and does nothing if that connection was closed since
+    void resolve_handler(socket_t socket, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint);
+    void connect_handler(socket_t socket, asio::ip::tcp::resolver::iterator endpoint, const asio::error_code& ec);
+    void read_handler(socket_t socket, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(socket_t socket, std::shared_ptr<ser4cpp::Buffer> buffer, const asio::error_code& ec, std::size_t bytes_transferred);
+
+    void connect(asio::ip::tcp::resolver::iterator endpoint);
+    void open_socket(const asio::ip::tcp& protocol, asio::error_code& ec);
+    void disconnect();
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
@@ -66,7 +72,7 @@ private:
     std::shared_ptr<exe4cpp::StrandExecutor> m_executor;
     std::string m_adapter;
     asio::ip::tcp::resolver m_resolver;
-    asio::ip::tcp::socket m_tcp_socket;
+    socket_t m_tcp_socket;
 
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
-- 
2.43.0


From 6c628a58e98ef4f72876069b2e1748162b0f9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 14/16] fix: shutting down a client channel closes its
 connection

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index ad02947..34a03a0 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -92,11 +92,8 @@ void AsioClientTcpConnection::shutdown()
     m_executor->post([=, self = shared_from_this()] () {
         m_is_shutdown = true;
 
-        if(m_tcp_socket)
-        {
-            std::error_code ec;
-            m_tcp_socket->cancel(ec);
-        }
+        m_resolver.cancel();
+        disconnect();
     });
 }
 
-- 
2.43.0


From c561051cf9ba85ae658b0792e7212854f02f3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 15/16] fix: shutting the manager down joins its threads

---
 lib/src/ModbusManagerImpl.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index 6c101a9..c8a0ec1 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -87,19 +87,23 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
 void ModbusManagerImpl::shutdown()
 {
-    std::lock_guard<std::mutex> lock(m_mutex);
-
-    for(auto channel : m_client_channels)
     {
-        channel->shutdown();
-    }
-    m_client_channels.clear();
+        std::lock_guard<std::mutex> lock(m_mutex);
 
-    for(auto channel : m_server_channels)
-    {
-        channel->shutdown();
+        for(auto channel : m_client_channels)
+        {
+            channel->shutdown();
+        }
+        m_client_channels.clear();
+
+        for(auto channel : m_server_channels)
+        {
+            channel->shutdown();
+        }
+        m_server_channels.clear();
     }
-    m_server_channels.clear();
+
+    m_thread_pool.shutdown();
 }
 
 } // namespace modbus
-- 
2.43.0


From 0563f5abb30c8e478018c661763addd045c259f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 16/16] fix: expected results copied containers of convertible
 values as one element

Initialising the stored value with braces selects a constructor that takes a
list of elements when the type has one that fits, so that for instance a vector
of std::any became a vector holding that vector, at each construction and copy.
---
 lib/include/modbus/Expected.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/modbus/Expected.h b/lib/include/modbus/Expected.h
index f689eea..d472468 100644
--- a/lib/include/modbus/Expected.h
+++ b/lib/include/modbus/Expected.h
@@ -62,7 +62,7 @@ public:
      * }
      * @ce
      */
-    Expected(const T& value) : m_value{value}, m_has_value{true} {}
+    Expected(const T& value) : m_value(value), m_has_value{true} {}
 
     /**
      * @brief Constructor for a valid value
@@ -70,7 +70,7 @@ public:
      *
      * This constructor is used whenever you want to create a valid value (i.e. no error) by move.
      */
-    Expected(T&& rhs) : m_value{std::move(rhs)}, m_has_value{true} {}
+    Expected(T&& rhs) : m_value(std::move(rhs)), m_has_value{true} {}
 
     /**
      * @brief Copy contructor
@@ -84,7 +84,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{rhs.m_value};
+            new(&m_value) T(rhs.m_value);
         }
         else
         {
@@ -104,7 +104,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{std::move(rhs.m_value)};
+            new(&m_value) T(std::move(rhs.m_value));
         }
         else
         {
-- 
2.43.0

