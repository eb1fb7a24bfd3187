From 1d4e435977ed9ca5b816b6108b22973205c746cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:53 +0000
Subject: [PATCH 01/22] fix: ignore a 'done' message from a worker without a
 job

The broker dereferenced a null pointer when an idle worker reported a job as done
(e.g. when it repeated its completion message).
---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..5f74ceb 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {} which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 57a27af1c80a8a319a4af9171b35858fcdd3d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:53 +0000
Subject: [PATCH 02/22] fix: do not send anything to a worker that registers
 with a running job

single_queue_manager::add_worker returned the claimed request instead of nullptr (as
queue_manager_interface documents), so the broker sent the worker a message without frames.
---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..7d7cfbc 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr; // the worker is busy, there is nothing to be sent to it
         }
 
         return assign_request(worker);
-- 
2.43.0


From 17edde102876c18567b2da5c8d5198451487362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:53 +0000
Subject: [PATCH 03/22] fix: expire workers that fall silent right after
 registering

The liveness of a new worker stayed 0 until its next message and the first missed ping made
the unsigned counter wrap around, so such a worker (and its jobs) never expired.
---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5f74ceb..68ef8e7 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -221,6 +221,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
@@ -398,7 +399,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
 			if (worker->liveness <= 0) {
-- 
2.43.0


From 1470222c19b5bb457fb971788759b25036f4f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:50 +0000
Subject: [PATCH 04/22] fix: ignore an 'eval' message that is too short

Such a message made the broker throw std::out_of_range (which ended it) or read past the end
of the message.
---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 68ef8e7..e044504 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job identification and at least the frame that terminates the headers
+	if (message.size() < 3) {
+		logger_->warn("Command 'eval' without enough arguments. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 5f4002dac3c0ded1c6d240c579988f379072b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:50 +0000
Subject: [PATCH 05/22] fix: give a worker its next job after an internal error

When the failed job was reassigned to another worker, or was not known to the broker, the
worker stayed idle although there were jobs queued for it (with the multi queue manager
until the next job was assigned to it directly and finished).
---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index e044504..834bd4b 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -328,7 +328,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// Unless it was given the job once more, the worker can process another one
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From e52e89ee1a031cfd1e3d66a1c940f49c56136661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:50 +0000
Subject: [PATCH 06/22] fix: do not reassign jobs to workers that expire at the
 same time

When several workers expired in one tick, the jobs of the first one could be sent to another
one of them, which wasted an attempt and could use up all of them at once.
---
 src/handlers/broker_handler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 834bd4b..ca4f14a 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -422,6 +422,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
+	std::vector<std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<worker::request_ptr>>>> removed;
+
+	// Remove all the workers first so that no job is handed over to another one of them
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
 
@@ -430,7 +433,12 @@ void broker_handler::process_timer(const message_container &message, const handl
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		removed.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	for (const auto &pair : removed) {
+		const auto &worker = pair.first;
+		const auto &requests = pair.second;
 		std::vector<worker::request_ptr> unassigned_requests;
 
 		for (const auto &request : *requests) {
-- 
2.43.0


From a34a831e503c38c2faae15b61b60dd4222455607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:50 +0000
Subject: [PATCH 07/22] fix: replace the old registration when a worker
 announces other capabilities

The old entry stayed in the registry next to the new one, so that jobs were sent to the worker
for capabilities it no longer has, two jobs at a time; messages of the worker kept only
the old entry alive. A changed hardware group was ignored altogether.
---
 src/handlers/broker_handler.cpp | 17 ++++++++++++++++-
 src/handlers/broker_handler.h   | 13 +++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index ca4f14a..8277df9 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -215,7 +215,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->headers_equal(headers) && current_worker->hwgroup == hwgroup) {
 			// We don't have to update anything
 			return;
 		}
@@ -255,6 +255,11 @@ void broker_handler::process_worker_init(
 		send_request(new_worker, request, respond);
 	}
 
+	// The new worker replaces the one that was known under the same identity (if any)
+	if (current_worker != nullptr) {
+		remove_workers({current_worker}, respond);
+	}
+
 	// Start an idle timer for our new worker
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
@@ -419,6 +424,13 @@ void broker_handler::process_timer(const message_container &message, const handl
 		}
 	}
 
+	remove_workers(to_remove, respond);
+	update_runtime_stats();
+}
+
+void broker_handler::remove_workers(
+	const std::list<worker_registry::worker_ptr> &to_remove, const handler_interface::response_cb &respond)
+{
 	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
 	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
 
@@ -468,7 +480,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
+}
 
+void broker_handler::update_runtime_stats()
+{
 	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
 	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
 
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..1f06c2c 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -1,6 +1,7 @@
 #ifndef RECODEX_BROKER_BROKER_HANDLER_H
 #define RECODEX_BROKER_BROKER_HANDLER_H
 
+#include <list>
 #include <spdlog/logger.h>
 
 #include "../config/broker_config.h"
@@ -127,6 +128,18 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/**
+	 * Forget given workers and try to reassign their jobs.
+	 * @param to_remove the workers to be removed
+	 * @param respond a callback to notify other workers, the monitor and the frontend
+	 */
+	void remove_workers(const std::list<worker_registry::worker_ptr> &to_remove, const response_cb &respond);
+
+	/**
+	 * Bring the statistics that describe the current state up to date.
+	 */
+	void update_runtime_stats();
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From d5ed4f43af098fc8ebfb109702465ebf02bd3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 08/22] fix: serve waiting jobs in order of arrival also in the
 same millisecond

std::sort is not stable, so jobs that arrived within one millisecond were reordered when there
were more than 16 of them. Adjusting the system clock reordered jobs as well.
---
 src/queuing/single_queue_manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 7d7cfbc..5faa9bf 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,8 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        // the sort must be stable, there can be many jobs with the same time of arrival
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +153,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From 2aa8efc02ba02b02a6c74468b4c3de4f50e11050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 09/22] fix: do not end the broker on a malformed 'threads'
 header

std::stoul throws if the value is not a number or too big, both when a worker announced such
a value and when a client required it. Such a value matches nothing now.
---
 src/worker.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..8432995 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -57,6 +58,22 @@ bool multiple_string_matcher::match(const std::string &value)
 	return false;
 }
 
+/**
+ * Convert a textual value of a header to a number.
+ * @param value The text to be converted.
+ * @param result Where the number is stored.
+ * @return @a true on success, @a false if the value is not a number.
+ */
+static bool parse_count(const std::string &value, std::size_t &result)
+{
+	try {
+		result = std::stoul(value);
+		return true;
+	} catch (const std::logic_error &) {
+		return false;
+	}
+}
+
 /**
  * Checks if a given value is less than or equal to a preset number.
  */
@@ -64,14 +81,17 @@ class count_matcher : public header_matcher
 {
 private:
 	/** Preset number to be base for comparison. */
-	std::size_t my_count_;
+	std::size_t my_count_ = 0;
+
+	/** False if the preset value is not a number (nothing matches it then). */
+	bool valid_;
 
 public:
 	/**
 	 * Constructor.
 	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), valid_(parse_count(my_value, my_count_))
 	{
 	}
 
@@ -89,7 +109,8 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count = 0;
+	return valid_ && parse_count(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From 117dbaad019f549c9f717858956eba7eabc3b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 10/22] fix: print bytes over 0x7f as two hexadecimal digits

Such characters were sign-extended, so worker identities in log and error messages were wrong.
---
 src/helpers/string_to_hex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/string_to_hex.cpp b/src/helpers/string_to_hex.cpp
index 707c798..ea7b258 100644
--- a/src/helpers/string_to_hex.cpp
+++ b/src/helpers/string_to_hex.cpp
@@ -5,7 +5,7 @@ std::string helpers::string_to_hex(const std::string &string)
 	std::stringstream ss;
 	ss << std::hex << std::setfill('0') << std::nouppercase;
 	for (auto &c : string) {
-		ss << std::setw(2) << static_cast<unsigned int>(c);
+		ss << std::setw(2) << static_cast<unsigned int>(static_cast<unsigned char>(c));
 	}
 	return ss.str();
 }
-- 
2.43.0


From 9bb5f34f37dc02471919b945817298fd0d0f116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 11/22] fix: ignore a 'progress' message without content

The broker passed an empty message on to the monitor; on the router socket only
the identity frame was written, so that the next message sent to the monitor
was glued to it and lost or garbled.
---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 8277df9..0bce17a 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -393,6 +393,12 @@ void broker_handler::process_worker_progress(
 	// first let us know that message arrived (logging moved from main loop)
 	// logger_->debug() << "Received message 'progress' from workers";
 
+	// there is nothing to pass on to the monitor
+	if (message.size() < 2) {
+		logger_->warn("Empty 'progress' message received. Message is ignored.");
+		return;
+	}
+
 	std::vector<std::string> monitor_message;
 	monitor_message.resize(message.size() - 1);
 	std::copy(message.begin() + 1, message.end(), monitor_message.begin());
-- 
2.43.0


From 374ea35231b21b57bb45821552b71796d7e5ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 12/22] fix: terminate messages without data frames properly

The last frame sent for such a message announced that more frames follow, so
the next message sent through the same socket was appended to it.
---
 src/reactor/reactor.cpp               | 4 ++--
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..c03d768 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +214,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..9573dbc 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// A message without frames would leave the socket in the middle of a multipart message
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From 0706df8a6ab3e000457e7fa3e4354772ee6900eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 13/22] fix: do not forget a request to terminate that comes
 before the loop starts

start_loop cleared the termination flag, so a terminate() called by another
thread just before was lost and the loop never ended. The flag also was not
initialized.
---
 src/reactor/reactor.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index c03d768..621bb7e 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -6,7 +6,7 @@ const std::string reactor::KEY_TIMER = "timer";
 
 reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
-	  async_handler_socket_(*context, zmq::socket_type::router)
+	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
 		auto time_before_poll = std::chrono::system_clock::now();
-- 
2.43.0


From 6b3e2b823ff2b467478e9134f29f3676c2cc871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 14/22] fix: report all the time that elapses in the reactor

Only the time spent waiting was reported, cut down to whole milliseconds in each
turn of the loop, so no time passed at all under dense traffic and workers that
fell silent were never dropped. The system clock can also be set back.
---
 src/reactor/reactor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 621bb7e..76ceca0 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -71,13 +71,16 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
+	// The point up to which the elapsed time has already been reported
+	auto reported_until = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
 
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
+		auto elapsed_time =
+			std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - reported_until);
+		reported_until += elapsed_time;
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
-- 
2.43.0


From 4cc20b2159522f5f86cb79dc089bd46c0f18cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:43 +0000
Subject: [PATCH 15/22] fix: destroy asynchronous handlers while their socket
 still exists

When the loop ends by an exception (an address in use) or never runs, the
handlers outlived the socket they use to stop their threads, which ended the
whole process by an exception thrown from a destructor.
---
 src/reactor/reactor.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..dbf8d08 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -198,11 +198,6 @@ private:
 	 */
 	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
 
-	/**
-	 * Handlers indexed by the keys of all the events they are subscribed to
-	 */
-	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
-
 	/**
 	 * A ZeroMQ context
 	 */
@@ -213,6 +208,12 @@ private:
 	 */
 	zmq::socket_t async_handler_socket_;
 
+	/**
+	 * Handlers indexed by the keys of all the events they are subscribed to.
+	 * Destroying an asynchronous handler requires the socket above, so this must be declared after it.
+	 */
+	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
+
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
 	 */
-- 
2.43.0


From 719947c40a5dcbfc15e3a1bb898280bd9ab9f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:18 +0000
Subject: [PATCH 16/22] fix: connect asynchronous handlers before they can be
 sent anything

The handler thread connected its socket some time after the handler was added.
Until then messages for it were dropped, including the one that tells it to
terminate, for which the reactor then waited forever.
---
 src/reactor/reactor.cpp | 14 ++++++++++----
 src/reactor/reactor.h   |  5 +++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 76ceca0..4717441 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -152,8 +152,16 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	reactor &reactor_ref,
 	std::shared_ptr<handler_interface> handler)
 	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
-	  unique_id_(std::to_string((uintptr_t) this))
+	  handler_socket_(context, zmq::socket_type::dealer), unique_id_(std::to_string((uintptr_t) this))
 {
+	// Connect before the thread starts - messages for a handler that is not connected yet would be dropped
+	handler_socket_.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	handler_socket_.connect("inproc://" + reactor_.unique_id);
+
+	// Let the reactor socket take notice of the connection
+	zmq_pollitem_t item{.socket = (void *) reactor_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0};
+	zmq::poll(&item, 1, std::chrono::milliseconds(0));
+
 	worker_ = std::thread([this]() { handler_thread(); });
 }
 
@@ -180,9 +188,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 
 void asynchronous_handler_wrapper::handler_thread()
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
+	zmq::socket_t &socket = handler_socket_;
 
 	while (true) {
 		message_container request;
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index dbf8d08..6d4441e 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -94,6 +94,11 @@ private:
 	 */
 	zmq::socket_t &reactor_socket_;
 
+	/**
+	 * The other end of the connection, used by the worker thread
+	 */
+	zmq::socket_t handler_socket_;
+
 	/**
 	 * A reference to the worker thread
 	 */
-- 
2.43.0


From a4efae8b449ecb525b1144313c65eac6e31e0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:43 +0000
Subject: [PATCH 17/22] fix: do not drop messages for a slow asynchronous
 handler

With the default limits, messages were dropped once about two thousand of them
were outstanding, for example while a frontend that does not respond delays
the status notifier.
---
 src/reactor/reactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 4717441..5f20854 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -8,6 +8,9 @@ reactor::reactor(std::shared_ptr<zmq::context_t> context)
 	: unique_id("reactor_" + std::to_string((uintptr_t) this)), context_(context),
 	  async_handler_socket_(*context, zmq::socket_type::router), termination_flag_(false)
 {
+	// Do not drop messages for slow handlers
+	async_handler_socket_.setsockopt(ZMQ_SNDHWM, 0);
+	async_handler_socket_.setsockopt(ZMQ_RCVHWM, 0);
 	async_handler_socket_.bind("inproc://" + unique_id);
 }
 
-- 
2.43.0


From a3d3fae2d2dbe7258155f2c0f071641ebb56b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 18/22] fix: url encode what is reported to the frontend

Messages containing '&', '+', '%' or zero bytes were cut or decoded to something
else, and job ids with special characters changed the address of the request.
---
 src/handlers/status_notifier_handler.cpp |  2 +-
 src/helpers/curl.cpp                     | 23 ++++++++++++++++++++++-
 src/helpers/curl.h                       |  9 ++++++++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/handlers/status_notifier_handler.cpp b/src/handlers/status_notifier_handler.cpp
index 1cc7ab4..ff924b4 100644
--- a/src/handlers/status_notifier_handler.cpp
+++ b/src/handlers/status_notifier_handler.cpp
@@ -47,7 +47,7 @@ void status_notifier_handler::on_request(
 	}
 
 	if (id != "") {
-		ss << "/" << id;
+		ss << "/" << helpers::url_encode(id);
 	}
 
 	std::size_t retries = 4; // we come by this value using digital suction
diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..68e5f5b 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,27 @@
 #endif
 
 
+std::string helpers::url_encode(const std::string &text)
+{
+	static const char hex_digits[] = "0123456789ABCDEF";
+	std::string result;
+
+	for (unsigned char c : text) {
+		bool unreserved = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' ||
+			c == '.' || c == '_' || c == '~';
+
+		if (unreserved) {
+			result += static_cast<char>(c);
+		} else {
+			result += '%';
+			result += hex_digits[c >> 4];
+			result += hex_digits[c & 0x0f];
+		}
+	}
+
+	return result;
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +37,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
diff --git a/src/helpers/curl.h b/src/helpers/curl.h
index fe40cc4..7521029 100644
--- a/src/helpers/curl.h
+++ b/src/helpers/curl.h
@@ -13,7 +13,14 @@ namespace helpers
 	using curl_params = std::map<std::string, std::string>;
 
 	/**
-	 * Construct standard http query and return it.
+	 * Encode a text so that it can be used as a part of an url or as a http parameter (RFC 3986).
+	 * @param text text which will be encoded, may contain arbitrary bytes
+	 * @return percent-encoded text
+	 */
+	std::string url_encode(const std::string &text);
+
+	/**
+	 * Construct standard http query and return it. Names and values of parameters are url encoded.
 	 * @note Leading question mark is not included in returned string.
 	 * @param params source of parameters
 	 * @return textual representation of params without leading question mark
-- 
2.43.0


From f6552456d636347374df1c95c62cd97121808534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:09 +0000
Subject: [PATCH 19/22] fix: initialize the port of the notifier

It had no defined value unless it was configured.
---
 src/config/notifier_config.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..d308d99 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -15,9 +15,9 @@ public:
 	 */
 	std::string address;
 	/**
-	 * Port on which frontend runs.
+	 * Port on which frontend runs (zero means the default one of the protocol).
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From 463d9bcf096c1c31af446ee61b62edc2ffc5728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:44 +0000
Subject: [PATCH 20/22] fix: forget the timer of a worker that is removed

The map of idle timers kept every worker that had ever been registered, so the memory in use grew with every
worker that came and went.
---
 src/handlers/broker_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 0bce17a..73cc9f8 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -447,6 +447,8 @@ void broker_handler::remove_workers(
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
+
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
-- 
2.43.0


From 280eb99a7fd24edbf342cc74b980cdf84a963ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:51 +0000
Subject: [PATCH 21/22] fix: tell the request to terminate from messages with
 the key 'TERMINATE'

A message for an asynchronous handler whose key is 'TERMINATE' ended the thread of the handler, and that message and all
the following ones were lost.
---
 src/reactor/reactor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 5f20854..0907b70 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -200,7 +200,8 @@ void asynchronous_handler_wrapper::handler_thread()
 		socket.recv(&message, 0);
 		request.key = std::string(static_cast<char *>(message.data()), message.size());
 
-		if (request.key == TERMINATE_MSG) {
+		// Unlike messages from other components, the request to terminate consists of a single frame
+		if (request.key == TERMINATE_MSG && !message.more()) {
 			return;
 		}
 
-- 
2.43.0


From 3ac870882cec1bdaae8090a84c0d8995f68650bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 22/22] fix: a thread count must be a plain decimal number

std::stoul skips spaces, takes a sign and ignores what follows the number, so that a worker with threads=-1
satisfied every request and a request for '2x' threads was taken to be one for 2.
---
 src/worker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.cpp b/src/worker.cpp
index 8432995..b706327 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -66,6 +66,11 @@ bool multiple_string_matcher::match(const std::string &value)
  */
 static bool parse_count(const std::string &value, std::size_t &result)
 {
+	// std::stoul would accept spaces, a sign and any text after the number
+	if (value.find_first_not_of("0123456789") != std::string::npos) {
+		return false;
+	}
+
 	try {
 		result = std::stoul(value);
 		return true;
-- 
2.43.0

