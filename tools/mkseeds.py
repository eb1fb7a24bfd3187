"""Writes seeded/<id>/ (patch, demonstration, description) from the specifications below, using a scratch worktree."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seed-wt"
S = []
def bug(id, prop, needs, breaks, edits, demo, headers=("demo.hpp",)):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, headers=headers))

H = "src/handlers/broker_handler.cpp"; M = "src/queuing/multi_queue_manager.cpp"; SQ = "src/queuing/single_queue_manager.h"
R = "src/reactor/reactor.cpp"; W = "src/worker.cpp"

bug("lost-queue-tail", "C01", "multi-queue manager, a worker with at least two queued jobs is lost",
    "half of the queued jobs of a lost worker are forgotten (the loop bound shrinks while it counts up)",
    [(M, "	while (!queues_[worker].empty()) {\n", "	for (std::size_t i = 0; i < queues_[worker].size(); ++i) {\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_liveness: 1, ping_interval: 100}");
	b.worker("w1", {"init", "g", "env=c"});
	for (std::string j : {"a", "b", "c", "d"}) b.client("c", {"eval", j, "env=c", "", "x"});
	b.worker("w2", {"init", "g", "env=c"});
	b.tick(50);
	b.worker("w2", {"ping"});
	b.tick(60);
	CHECK(b.workers->get_workers().size() == 1);
	// the job in progress or one of the others is with w2 now, everything else waits
	size_t with = b.workers_got("w2").size() + b.queue->get_queued_request_count(), reported = b.frontend_got().size();
	CHECK(with + reported == 4);
}
''')

bug("done-prefix", "C02", "a completion that names a job whose id begins with the id of the sender's current job",
    "a completion of another job is taken for the current one: wrong job reported, the real one never",
    [(H, "	if (message.at(1) != current->data.get_job_id()) {\n",
      "	const std::string &current_id = current->data.get_job_id();\n	if (message.at(1).compare(0, current_id.size(), current_id) != 0) {\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "job1", "", "x"});
	b.worker("w", {"done", "job10", "OK"});
	CHECK(b.out.empty());
	b.worker("w", {"done", "job1", "OK"});
	CHECK(b.frontend_got().size() == 1);
}
''')

bug("repeated-header-dropped", "C03", "a job that requires two values of one header name",
    "only the first required value is looked at, so the job is sent to a worker that lacks the second",
    [(H, "			headers.emplace(key, value);\n", "			if (headers.count(key) == 0) {\n				headers.emplace(key, value);\n			}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w1", {"init", "g", "env=c", "env=java"});
	b.worker("w2", {"init", "g", "env=c"});
	b.client("c", {"eval", "j", "env=c", "env=python", "", "x"});
	CHECK(b.workers_got().empty());
	CHECK(b.clients_got().at(1).at(0) == "reject");
}
''')

bug("claimed-job-is-idle", "C04", "single-queue manager, a worker that registered with a running job while another job is submitted",
    "a worker busy with a claimed job is regarded as idle and given a second job",
    [(SQ, "if (pair.second == nullptr && pair.first->check_headers(request->headers)) {",
      "bool idle = pair.second == nullptr || !pair.second->data.is_complete();\n            if (idle && pair.first->check_headers(request->headers)) {")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g", "env=c", "", "current_job=old"});
	b.client("c", {"eval", "j", "env=c", "", "x"});
	CHECK(b.workers_got().empty());
	b.worker("w", {"done", "old", "OK"});
	CHECK(b.workers_got().size() == 1);
}
''')

bug("free-after-claimed-job", "C05", "a worker finishes a job it claimed when registering while another job is waiting for it",
    "the end of a claimed job does not make the worker take the next job, which waits forever",
    [(H, "		request_ptr next_request = queue_->worker_finished(worker);\n",
      "		request_ptr next_request =\n			current->data.is_complete() ? queue_->worker_finished(worker) : (queue_->worker_cancelled(worker), nullptr);\n")], r'''
#include "demo.hpp"
int main()
{
	for (int multi = 0; multi < 2; multi++) {
		Broker b(multi);
		b.worker("w", {"init", "g", "env=c", "", "current_job=old"});
		b.client("c", {"eval", "j", "env=c", "", "x"});
		b.worker("w", {"done", "old", "OK"});
		CHECK(b.frontend_got().size() == 1);
		CHECK(b.workers_got().size() == 1);
	}
}
''')

bug("swap-erase", "C06", "single-queue manager, at least three jobs waiting that arrived in the same millisecond",
    "taking a job out of the queue moves the youngest one into its place, so it overtakes others of the same millisecond",
    [(SQ, "        for (auto it = jobs_.cbegin(); it != jobs_.cend(); ++it) {", "        for (auto it = jobs_.begin(); it != jobs_.end(); ++it) {"),
     (SQ, "            jobs_.erase(it);\n", "            *it = jobs_.back(); // constant time\n            jobs_.pop_back();\n")], r'''
#include "demo.hpp"
int main()
{
	// the burst must fall into one millisecond at least once
	for (int k = 0; k < 200; k++) {
		Broker b(false);
		b.worker("w", {"init", "g"});
		std::vector<std::string> ids = {"a", "b", "c", "d", "e", "f"};
		for (auto &j : ids) b.client("c", {"eval", j, "", "x"});
		for (size_t i = 0; i + 1 < ids.size(); i++) {
			b.worker("w", {"done", ids[i], "OK"});
			CHECK(b.workers_got().size() == 1);
			CHECK(b.workers_got()[0].at(1) == ids[i + 1]);
		}
	}
}
''')

bug("rotate-only-idle", "C07", "multi-queue manager with two busy workers and further jobs",
    "a busy worker keeps its place in the rotation, so all further jobs pile up behind the same worker",
    [(M, "		// Move the worker to the end of the queue\n		worker_queue_.remove(worker);\n		worker_queue_.push_back(worker);\n\n", ""),
     (M, "			current_requests_[worker] = request;\n			result.assigned_to = worker;\n",
      "			current_requests_[worker] = request;\n			result.assigned_to = worker;\n\n			// Move the worker to the end of the queue\n			worker_queue_.remove(worker);\n			worker_queue_.push_back(worker);\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w1", {"init", "g"});
	b.worker("w2", {"init", "g"});
	std::map<std::string, std::string> has;
	for (std::string j : {"a", "b"}) {
		b.client("c", {"eval", j, "", "x"});
		for (std::string w : {"w1", "w2"})
			if (!b.workers_got(w).empty()) has[w] = j;
	}
	b.client("c", {"eval", "c", "", "x"});
	b.client("c", {"eval", "d", "", "x"});
	b.worker("w1", {"done", has["w1"], "OK"});
	CHECK(b.workers_got("w1").size() == 1);
	b.worker("w2", {"done", has["w2"], "OK"});
	CHECK(b.workers_got("w2").size() == 1);
}
''')

bug("timer-kept-at-full-liveness", "C08", "a worker that pings just before the interval ends and then falls silent",
    "the idle timer is not reset by a message as long as the liveness is full, so the worker is dropped up to one interval early",
    [(H, "			worker->liveness = config_->get_max_worker_liveness();\n			worker_timers_[worker] = std::chrono::milliseconds(0);\n",
      "			if (worker->liveness < config_->get_max_worker_liveness()) {\n				worker->liveness = config_->get_max_worker_liveness();\n				worker_timers_[worker] = std::chrono::milliseconds(0);\n			}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_liveness: 2, ping_interval: 1000}");
	b.worker("w", {"init", "g"});
	b.tick(990);
	b.worker("w", {"ping"});
	for (int i = 0; i < 19; i++) {
		b.tick(100); // 1900 ms of silence, two intervals are 2000
		CHECK(b.workers->get_workers().size() == 1);
	}
}
''')

bug("retry-forgets-failures", "C09", "a job that fails, is put back, and fails again",
    "each retry starts with a fresh count of failures, so a job that always fails is retried forever",
    [(H, "	enqueue_result result = queue_->enqueue_request(request);\n\n	if (!result.enqueued) {\n		notify_monitor(request,",
      "	request = std::make_shared<::request>(request->headers, request->metadata, request->data);\n	enqueue_result result = queue_->enqueue_request(request);\n\n	if (!result.enqueued) {\n		notify_monitor(request,")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_request_failures: 3}");
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "j", "", "x"});
	int sent = 1;
	for (int i = 0; i < 10; i++) {
		b.worker("w", {"done", "j", "INTERNAL_ERROR", "bad"});
		sent += b.workers_got().size();
	}
	CHECK(sent <= 3);
}
''')

bug("trailing-empty-frame", "C10", "a job whose last data frame is empty",
    "an empty frame at the end of the submission is not passed on to the worker",
    [(H, "	job_request_data request_data(job_id, additional_data);\n",
      "	// ignore the delimiter some clients put at the end of the message\n	if (additional_data.size() > 1 && additional_data.back().empty()) {\n		additional_data.pop_back();\n	}\n\n	job_request_data request_data(job_id, additional_data);\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "j", "", "url", ""});
	CHECK((b.workers_got("w").at(0) == V{"eval", "j", "url", ""}));
}
''')

bug("nested-freeze", "C11", "two freezes followed by one unfreeze",
    "freezes are counted, so after an acknowledged unfreeze submissions are still rejected",
    [("src/handlers/broker_handler.h", "	bool is_frozen_ = false;", "	int is_frozen_ = 0;"),
     (H, "	is_frozen_ = true;\n", "	is_frozen_ += 1;\n"), (H, "	is_frozen_ = false;\n", "	is_frozen_ = is_frozen_ > 0 ? is_frozen_ - 1 : 0;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "g"});
	b.client("c", {"freeze"});
	b.client("c", {"freeze"});
	b.client("c", {"unfreeze"});
	b.client("c", {"eval", "j", "", "x"});
	CHECK(b.clients_got().at(1).at(0) == "accept");
}
''')

bug("subset-headers-equal", "C12", "a registered worker announces itself again with an additional header",
    "an announcement that only adds capabilities is taken for a repetition and ignored",
    [(W, "	return other == headers_copy_;\n",
      "	for (auto &header : headers_copy_) {\n		auto range = other.equal_range(header.first);\n		bool found = false;\n		for (auto it = range.first; it != range.second; ++it) {\n			found = found || it->second == header.second;\n		}\n		if (!found) {\n			return false;\n		}\n	}\n\n	return true;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "g", "env=c"});
	b.worker("w", {"init", "g", "env=c", "env=python"});
	b.client("c", {"eval", "j", "env=python", "", "x"});
	CHECK(b.clients_got().at(1).at(0) == "accept");
	CHECK(b.workers_got("w").size() == 1);
}
''')

bug("frozen-monitor-failed", "C13", "a submission while the broker is frozen",
    "the monitor is told FAILED about a submission that was only refused because of the freeze",
    [(H, "		logger_->error(\"Request '{}' rejected. {}\", job_id, reject_message);\n",
      "		logger_->error(\"Request '{}' rejected. {}\", job_id, reject_message);\n		if (workers_->find_worker(headers) == nullptr) {\n			notify_monitor(job_id, \"FAILED\", respond);\n		}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.client("c", {"freeze"});
	b.client("c", {"eval", "j", "", "x"});
	CHECK(b.clients_got().at(1).at(0) == "reject");
	CHECK(b.monitor_got().empty());
}
''')

bug("evaluated-when-idle", "C14", "a job is completed OK while another one waits for the same worker",
    "completions are only counted if the worker becomes idle",
    [(H, "			send_request(worker, next_request, respond);\n		}\n\n		runtime_stats_[STATS_EVALUATED_JOBS] += 1;\n",
      "			send_request(worker, next_request, respond);\n		} else {\n			runtime_stats_[STATS_EVALUATED_JOBS] += 1;\n		}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "a", "", "x"});
	b.client("c", {"eval", "b", "", "x"});
	b.worker("w", {"done", "a", "OK"});
	b.worker("w", {"done", "b", "OK"});
	b.client("c", {"get-runtime-stats"});
	V s = b.clients_got().at(0);
	std::string n;
	for (size_t i = 0; i + 1 < s.size(); i += 2)
		if (s[i] == "evaluated-jobs") n = s[i + 1];
	CHECK(n == "2");
}
''')

bug("done-check-too-late", "C15", "a 'done' message with status INTERNAL_ERROR that lacks the text, from a busy worker",
    "the length of the message is only checked for a missing text after the text was used: the broker ends with an exception",
    [(H, "		if (message.size() != 4) {\n			logger_->warn(\n				\"Invalid number of arguments in a 'done' message with status 'INTERNAL_FAILURE' from worker {}\",",
      "		if (message.at(3).empty() || message.size() != 4) {\n			logger_->warn(\n				\"Invalid number of arguments in a 'done' message with status 'INTERNAL_FAILURE' from worker {}\",")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "a", "", "x"});
	b.worker("w", {"done", "a", "INTERNAL_ERROR"});
	CHECK(b.out.empty());
	b.worker("w", {"done", "a", "OK"});
	CHECK(b.frontend_got().size() == 1);
}
''')

bug("group-substring", "C16", "a job for a list of hardware groups one of which begins with the group of a worker",
    "a hardware group matches any alternative that merely begins with it",
    [(W, "		if (value.compare(offset, end - offset, my_value_) == 0) {\n", "		if (value.compare(offset, std::min(end - offset, my_value_.size()), my_value_) == 0) {\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w", {"init", "group"});
	b.client("c", {"eval", "a", "hwgroup=group2|other", "", "x"});
	CHECK(b.workers_got().empty());
	b.client("c", {"eval", "b", "hwgroup=other|group", "", "x"});
	CHECK(b.workers_got().size() == 1);
}
''')

REACT = r'''
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include "demo.hpp"
#include <atomic>
#include <mutex>
#include <unistd.h>
struct Log : handler_interface {
	std::mutex m;
	std::vector<message_container> got;
	void on_request(const message_container &c, const response_cb &) override
	{
		std::lock_guard<std::mutex> l(m);
		got.push_back(c);
	}
	size_t size()
	{
		std::lock_guard<std::mutex> l(m);
		return got.size();
	}
	bool wait(size_t n)
	{
		for (int i = 0; i < 500 && size() < n; i++) usleep(10000);
		usleep(150000);
		return size() == n;
	}
};
'''
bug("async-last-empty-frame", "C17", "a message for an asynchronous handler whose last frame is empty",
    "an empty last frame is not sent on its own, so the message is merged with the next one",
    [(R, "		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);\n",
      "		bool last = std::next(it) == std::end(message.data);\n		if (last && it->empty() && message.data.size() > 1) {\n			continue;\n		}\n		reactor_socket_.send(it->c_str(), it->size(), last ? 0 : ZMQ_SNDMORE);\n")],
    REACT + r'''
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	auto log = std::make_shared<Log>();
	r.add_async_handler({"ev"}, log);
	r.send_message(message_container("ev", "x", {"a", ""}));
	r.send_message(message_container("ev", "y", {"b"}));
	CHECK(log->wait(2));
	CHECK((log->got[0].data == V{"a", ""}));
	CHECK((log->got[1].data == V{"b"}));
	std::thread t([&] { r.start_loop(); });
	r.terminate();
	t.join();
}
''')

bug("time-only-when-quiet", "C18", "messages arrive on a socket at least every 100 ms",
    "elapsed time is only reported in loop turns without messages and forgotten otherwise",
    [(R, "		message_container timer_msg;\n		timer_msg.key = KEY_TIMER;\n		timer_msg.data.push_back(std::to_string(elapsed_time.count()));\n\n		process_message(timer_msg);\n",
      "		// handlers with messages to process need not be bothered\n		bool busy = false;\n		for (auto &item : pollitems) {\n			busy = busy || (item.revents & ZMQ_POLLIN);\n		}\n\n		if (!busy) {\n			message_container timer_msg;\n			timer_msg.key = KEY_TIMER;\n			timer_msg.data.push_back(std::to_string(elapsed_time.count()));\n\n			process_message(timer_msg);\n		}\n")],
    REACT + r'''
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	auto log = std::make_shared<Log>();
	r.add_socket("s", std::make_shared<router_socket_wrapper>(ctx, "inproc://demo", true));
	r.add_handler({reactor::KEY_TIMER}, log);
	zmq::socket_t d(*ctx, zmq::socket_type::dealer);
	auto t0 = std::chrono::steady_clock::now();
	std::thread t([&] { r.start_loop(); });
	usleep(100000);
	d.connect("inproc://demo");
	for (int i = 0; i < 200; i++) {
		d.send("x", 1);
		usleep(5000);
	}
	double real = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000;
	r.terminate();
	t.join();
	double sum = 0;
	for (auto &m : log->got) sum += std::stod(m.data.at(0));
	d.setsockopt(ZMQ_LINGER, 0);
	CHECK(sum > real - 300);
}
''')

bug("receive-skips-empty", "C19", "a message from a peer that contains an empty frame",
    "empty frames are dropped when a message is received",
    [("src/reactor/router_socket_wrapper.cpp", "		target.data.emplace_back(static_cast<char *>(msg.data()), msg.size());\n",
      "		if (msg.size() > 0 || !msg.more()) {\n			target.data.emplace_back(static_cast<char *>(msg.data()), msg.size());\n		}\n")],
    REACT + r'''
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	router_socket_wrapper w(ctx, "inproc://demo", true);
	w.initialize();
	zmq::socket_t d(*ctx, zmq::socket_type::dealer);
	d.connect("inproc://demo");
	d.send("a", 1, ZMQ_SNDMORE);
	d.send("", 0, ZMQ_SNDMORE);
	d.send("b", 1);
	message_container m;
	CHECK(w.receive_message(m));
	CHECK((m.data == V{"a", "", "b"}));
}
''')

bug("password-without-user", "C20", "a notifier configured with a password but an empty user name",
    "credentials with an empty user name are not sent",
    [("src/helpers/curl.cpp", "PLACEHOLDER", "")], "")
S.pop()

HTTP = r'''
#include "http.hpp"
#include "demo.hpp"
#include "handlers/status_notifier_handler.h"
#include "helpers/logger.h"
'''
bug("id-in-params", "C20", "a failure whose text is empty",
    "parameters with an empty value are left out of the report",
    [("src/handlers/status_notifier_handler.cpp", "		} else {\n			params[key] = value;\n", "		} else if (!value.empty()) {\n			params[key] = value;\n")],
    HTTP + r'''
int main()
{
	Http srv({});
	notifier_config cfg;
	cfg.address = "http://127.0.0.1";
	cfg.port = srv.port;
	status_notifier_handler h(cfg, helpers::create_null_logger());
	h.on_request(message_container("k", "", {"type", "job-status", "id", "j", "status", "FAILED", "message", ""}), [](const message_container &) {});
	CHECK(srv.got.size() == 1);
	CHECK(srv.got[0].find("message=") != std::string::npos);
	CHECK(srv.got[0].find("status=FAILED") != std::string::npos);
}
''', ("demo.hpp", "http.hpp"))

bug("retry-server-errors-only", "C21", "the frontend answers 503 once and then works",
    "responses of status 4xx and 5xx are no longer regarded as failures, so the notification is not repeated",
    [("src/helpers/curl.cpp", "PLACEHOLDER2", "")], "", ("demo.hpp", "http.hpp"))
S.pop()

bug("delay-shared", "C21", "two notifications of which the first needs a retry",
    "the delay between attempts is kept between notifications and grows without limit",
    [("src/handlers/status_notifier_handler.cpp", "	auto delay = std::chrono::seconds(1);\n", "	static auto delay = std::chrono::seconds(1);\n")],
    HTTP + r'''
#include <chrono>
int main()
{
	Http srv({"500 no", "200 OK", "500 no", "200 OK"});
	notifier_config cfg;
	cfg.address = "http://127.0.0.1";
	cfg.port = srv.port;
	status_notifier_handler h(cfg, helpers::create_null_logger());
	double d[2];
	for (int i = 0; i < 2; i++) {
		auto t = std::chrono::steady_clock::now();
		h.on_request(message_container("k", "", {"type", "error", "message", "m"}), [](const message_container &) {});
		d[i] = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
	}
	CHECK(srv.got.size() == 4);
	CHECK(d[1] < d[0] + 0.8);
}
''', ("demo.hpp", "http.hpp"))

bug("failures-limit-from-liveness", "C22", "a configuration that sets max_request_failures but not max_liveness",
    "max_request_failures is only read if max_liveness is present too",
    [("src/config/broker_config.cpp", '			if (config["workers"]["max_request_failures"] && config["workers"]["max_request_failures"].IsScalar()) {',
      '			if (config["workers"]["max_liveness"] && config["workers"]["max_request_failures"] &&\n				config["workers"]["max_request_failures"].IsScalar()) {')], r'''
#include "demo.hpp"
int main()
{
	broker_config c(YAML::Load("workers: {max_request_failures: 7}"));
	CHECK(c.get_max_request_failures() == 7);
	broker_config d(YAML::Load("workers: {max_request_failures: 7, max_liveness: 2}"));
	CHECK(d.get_max_request_failures() == 7);
}
''')

bug("monitor-at-clients-address", "C23", "a configuration with different addresses for the monitor and for clients",
    "the monitor is looked for at the clients' address",
    [("src/broker_connect.cpp", '		"tcp://" + config_->get_monitor_address() + ":" + std::to_string(config_->get_monitor_port());',
      '		"tcp://" + config_->get_client_address() + ":" + std::to_string(config_->get_monitor_port());')],
    REACT + r'''
#include <arpa/inet.h>
#include <sys/socket.h>
static int free_port()
{
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a;
	int f = socket(AF_INET, SOCK_STREAM, 0);
	bind(f, (sockaddr *) &a, sizeof a);
	getsockname(f, (sockaddr *) &a, &n);
	close(f);
	return ntohs(a.sin_port);
}
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	int pc = free_port(), pw = free_port(), pm = free_port();
	auto cfg = std::make_shared<broker_config>(YAML::Load("{clients: {address: 127.0.0.1, port: " + std::to_string(pc) +
		"}, workers: {address: 127.0.0.1, port: " + std::to_string(pw) + "}, monitor: {address: 127.0.0.7, port: " + std::to_string(pm) + "}}"));
	zmq::socket_t mon(*ctx, zmq::socket_type::dealer);
	mon.setsockopt(ZMQ_IDENTITY, "recodex-monitor", 15);
	mon.setsockopt(ZMQ_RCVTIMEO, 3000);
	mon.bind("tcp://127.0.0.7:" + std::to_string(pm));
	std::thread([=] {
		broker_connect b(cfg, ctx, std::make_shared<worker_registry>(), std::make_shared<multi_queue_manager>());
		b.start_brokering();
	}).detach();
	zmq::socket_t c(*ctx, zmq::socket_type::dealer);
	c.setsockopt(ZMQ_RCVTIMEO, 3000);
	c.connect("tcp://127.0.0.1:" + std::to_string(pc));
	usleep(500000);
	for (int i = 0; i < 2; i++) {
		c.send("eval", 4, ZMQ_SNDMORE);
		c.send("j", 1, ZMQ_SNDMORE);
		c.send("", 0);
		usleep(300000);
	}
	zmq::message_t m;
	bool got = mon.recv(&m);
	fprintf(stderr, "the monitor got %s\n", got ? "a message" : "nothing");
	_exit(got ? 0 : 1);
}
''')

bug("queue-of-lost-worker-kept", "C24", "multi-queue manager, many workers that come and go under new identities",
    "the (empty) queue of a worker that is gone is never released",
    [(M, "	queues_.erase(worker);\n", "")], r'''
#include "demo.hpp"
#include <malloc.h>
int main()
{
	Broker b(true, "{max_liveness: 1, ping_interval: 100}");
	size_t at[3];
	for (int round = 0; round < 3; round++) {
		for (int i = 0; i < 500; i++) {
			b.worker("w" + std::to_string(round) + "." + std::to_string(i), {"init", "g", "env=c"});
			b.tick(200);
		}
		CHECK(b.workers->get_workers().empty());
		at[round] = mallinfo2().uordblks;
	}
	fprintf(stderr, "in use: %zu %zu %zu\n", at[0], at[1], at[2]);
	CHECK(at[2] < at[1] + 500 * 50);
}
''')

bug("failed-transfer-kept", "C24", "notifications that fail",
    "the transfer handle is only released after a successful transfer",
    [("src/helpers/curl.cpp", "	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};\n	if (curl.get()) {\n		// destination address\n		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());\n",
      "	std::unique_ptr<CURL, void (*)(CURL *)> curl = {curl_easy_init(), [](CURL *) {}};\n	if (curl.get()) {\n		// destination address\n		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());\n"),
     ("src/helpers/curl.cpp", "	}\n\n	return result;\n}\n\nnamespace helpers\n", "\n		curl_easy_cleanup(curl.get());\n	}\n\n	return result;\n}\n\nnamespace helpers\n")], r'''
#include "demo.hpp"
#include "helpers/curl.h"
#include <malloc.h>
int main()
{
	size_t at[3];
	for (int round = 0; round < 3; round++) {
		for (int i = 0; i < 40; i++) {
			bool thrown = false;
			try {
				helpers::curl_post("http://127.0.0.1", 1, {{"a", "b"}}); // nobody listens there
			} catch (helpers::curl_exception &) {
				thrown = true;
			}
			CHECK(thrown);
		}
		at[round] = mallinfo2().uordblks;
	}
	fprintf(stderr, "in use: %zu %zu %zu\n", at[0], at[1], at[2]);
	CHECK(at[2] < at[1] + 40 * 500);
}
''')

bug("log-level-err-renamed", "C25", "a configuration with the log level err",
    "the level err is not known any more, so everything is logged",
    [("src/helpers/logger.cpp", '	} else if (lev == "err") {\n', '	} else if (lev == "error") {\n')], r'''
#include "demo.hpp"
#include "helpers/logger.h"
int main()
{
	CHECK(helpers::get_log_level("critical") == spdlog::level::critical);
	CHECK(helpers::get_log_level("err") == spdlog::level::err);
	CHECK(helpers::get_log_level("warn") == spdlog::level::warn);
}
''')

bug("retry-without-headers", "C03", "single-queue manager; a job put back after the loss of its worker waits, and a worker that cannot process it becomes available first",
    "the headers of jobs that have failed before are not looked at when they are taken from the queue",
    [(SQ, "            if (!worker->check_headers(it->request->headers)) {\n                continue;\n",
      "            if (it->request->failure_count == 0 && !worker->check_headers(it->request->headers)) {\n                continue;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false, "{max_liveness: 1, ping_interval: 100, max_request_failures: 5}");
	b.worker("a", {"init", "g", "env=c"});
	b.worker("b", {"init", "g", "env=c"});
	b.client("c", {"eval", "j1", "env=c", "", "x"});
	b.client("c", {"eval", "j2", "env=c", "", "x"});
	b.tick(50);
	b.worker("a", {"ping"});
	b.tick(60); // b is lost, its job waits for a
	CHECK(b.workers->get_workers().size() == 1);
	b.worker("other", {"init", "g", "env=java"});
	CHECK(b.workers_got("other").empty());
}
''')

bug("progress-is-no-life", "C08", "a busy worker that sends nothing but progress messages for longer than it may be silent",
    "progress messages do not count as a sign of life",
    [(H, "		if (worker != nullptr) {\n			worker->liveness = config_->get_max_worker_liveness();\n",
      "		if (worker != nullptr && (message.data.size() < 2 || message.data.front() != \"progress\")) {\n			worker->liveness = config_->get_max_worker_liveness();\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false, "{max_liveness: 2, ping_interval: 100}");
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "j", "", "x"});
	for (int i = 0; i < 30; i++) {
		b.tick(60);
		b.worker("w", {"progress", "j", "TASK"});
	}
	CHECK(b.workers->get_workers().size() == 1);
}
''')

bug("aborted-first-only", "C13", "multi-queue manager; a worker with queued jobs is lost and another one can take over all of them",
    "of the jobs put back only the first is announced to the monitor",
    [(H, '				notify_monitor(request, "ABORTED", respond);\n', '				if (request == requests->front()) {\n					notify_monitor(request, "ABORTED", respond);\n				}\n')], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_liveness: 1, ping_interval: 100, max_request_failures: 5}");
	b.worker("a", {"init", "g"});
	b.client("c", {"eval", "j1", "", "x"});
	b.client("c", {"eval", "j2", "", "x"});
	b.client("c", {"eval", "j3", "", "x"});
	b.worker("b", {"init", "g"});
	b.tick(50);
	b.worker("b", {"ping"});
	b.tick(60);
	CHECK(b.workers->get_workers().size() == 1);
	CHECK(b.monitor_got().size() == 3);
}
''')

bug("failure-text-to-nul", "C02", "a failure text that contains a zero byte",
    "the failure text of a worker is cut at a zero byte",
    [(H, "		status_notifier.job_failed(message.at(1), message.at(3));\n", "		status_notifier.job_failed(message.at(1), message.at(3).c_str());\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "j", "", "x"});
	std::string text("line\0rest", 9);
	b.worker("w", {"done", "j", "FAILED", text});
	CHECK(b.frontend_got().size() == 1);
	CHECK(b.frontend_got()[0].back() == text);
}
''')

bug("empty-reply-confirms", "C21", "the frontend accepts the connection and the request but closes it without an answer",
    "an empty reply is taken for a confirmation, so the notification is not repeated",
    [("src/helpers/curl.cpp", '		if (res != CURLE_OK) {\n			long response_code;\n			curl_easy_getinfo(curl.get(), CURLINFO_RESPONSE_CODE, &response_code);\n			auto error_message = "POST',
      '		if (res != CURLE_OK && res != CURLE_GOT_NOTHING) {\n			long response_code;\n			curl_easy_getinfo(curl.get(), CURLINFO_RESPONSE_CODE, &response_code);\n			auto error_message = "POST')], r'''
#include "demo.hpp"
#include "helpers/curl.h"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
int main()
{
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a;
	int f = socket(AF_INET, SOCK_STREAM, 0);
	bind(f, (sockaddr *) &a, sizeof a);
	listen(f, 5);
	getsockname(f, (sockaddr *) &a, &n);
	std::thread([f] {
		while (true) {
			int c = accept(f, nullptr, nullptr);
			std::string all;
			char buf[1000];
			ssize_t r;
			while (all.find("a=b") == std::string::npos && (r = read(c, buf, sizeof buf)) > 0) all.append(buf, r);
			close(c);
		}
	}).detach();
	bool thrown = false;
	try {
		helpers::curl_post("http://127.0.0.1", ntohs(a.sin_port), {{"a", "b"}});
	} catch (helpers::curl_exception &) {
		thrown = true;
	}
	fprintf(stderr, "error noticed: %d\n", thrown);
	_exit(thrown ? 0 : 1);
}
''')

bug("old-clock-in-loop", "C18", "the system clock is set back while the broker runs",
    "elapsed time is measured by the system clock",
    [(R, "PLACEHOLDER3", "")], "")
S.pop()

bug("claim-after-last-equals", "C26", "after a restart of the broker a worker claims a job whose id contains an equals sign",
    "the claimed job is known under a wrong id, so its completion is ignored and the worker stays busy forever",
    [(H, "		std::size_t pos = header.find('=');\n		std::size_t value_size = header.size() - (pos + 1);\n		auto key = header.substr(0, pos);\n",
      "		std::size_t pos = header.rfind('=');\n		std::size_t value_size = header.size() - (pos + 1);\n		auto key = header.substr(0, pos);\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g", "env=c", "", "current_job=a=b"});
	b.worker("w", {"done", "a=b", "OK"});
	CHECK(b.frontend_got().size() == 1);
}
''')

bug("notifier-in-the-loop", "C27", "the frontend takes a request but does not answer it for a while",
    "notifications are sent from the main loop, so nobody is served while the frontend does not answer",
    [("src/broker_connect.cpp", "	reactor_.add_async_handler(\n", "	reactor_.add_handler(\n")], r'''
#include "demo.hpp"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
static int bound(int &port)
{
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a;
	int f = socket(AF_INET, SOCK_STREAM, 0);
	bind(f, (sockaddr *) &a, sizeof a);
	getsockname(f, (sockaddr *) &a, &n);
	port = ntohs(a.sin_port);
	return f;
}
static void say(zmq::socket_t &s, const V &f)
{
	for (size_t i = 0; i < f.size(); i++) s.send(f[i].data(), f[i].size(), i + 1 < f.size() ? ZMQ_SNDMORE : 0);
}
static std::string hear(zmq::socket_t &s)
{
	zmq::message_t m;
	if (!s.recv(&m)) return "";
	std::string r((char *) m.data(), m.size());
	while (m.more()) s.recv(&m);
	return r;
}
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	int pc, pw, pf;
	close(bound(pc));
	close(bound(pw));
	int front = bound(pf);
	listen(front, 5); // takes connections and never answers
	auto cfg = std::make_shared<broker_config>(YAML::Load("{clients: {address: 127.0.0.1, port: " + std::to_string(pc) +
		"}, workers: {address: 127.0.0.1, port: " + std::to_string(pw) + "}, monitor: {address: 127.0.0.1, port: 1}, notifier: {address: 'http://127.0.0.1', port: " + std::to_string(pf) + "}}"));
	auto log = helpers::create_null_logger();
	std::thread([=] {
		broker_connect b(cfg, ctx, std::make_shared<worker_registry>(), std::make_shared<multi_queue_manager>(), log);
		b.start_brokering();
	}).detach();
	zmq::socket_t c(*ctx, zmq::socket_type::dealer), w(*ctx, zmq::socket_type::dealer);
	for (auto s : {&c, &w}) s->setsockopt(ZMQ_RCVTIMEO, 10000);
	c.connect("tcp://127.0.0.1:" + std::to_string(pc));
	w.connect("tcp://127.0.0.1:" + std::to_string(pw));
	say(w, {"init", "g"});
	say(w, {"ping"});
	CHECK(hear(w) == "pong");
	say(c, {"eval", "j", "", "x"});
	CHECK(hear(w) == "eval");
	say(w, {"done", "j", "OK"});
	say(w, {"ping"});
	std::string r = hear(w);
	fprintf(stderr, "a ping while the frontend does not answer: %s\n", r.empty() ? "no answer" : r.c_str());
	_exit(r == "pong" ? 0 : 1);
}
''')

bug("ten-attempts-at-most", "C09", "a failure limit above ten and a job that fails more than ten times",
    "a job is given up after ten attempts though more are configured",
    [(H, "	if (request->failure_count >= config_->get_max_request_failures()) {\n", "	const std::size_t most = 10;\n	if (request->failure_count >= std::min<std::size_t>(most, config_->get_max_request_failures())) {\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false, "{max_request_failures: 12}");
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "j", "", "x"});
	for (int i = 0; i < 11; i++) {
		b.worker("w", {"done", "j", "INTERNAL_ERROR", "no"});
		CHECK(b.frontend_got().empty());
		CHECK(b.workers_got("w").size() == 1);
	}
	b.worker("w", {"done", "j", "INTERNAL_ERROR", "no"});
	CHECK(b.frontend_got().size() == 1);
}
''')

bug("long-frame-to-nul", "C10", "a data frame of more than 4096 bytes that contains a zero byte",
    "long data frames are cut at a zero byte",
    [(H, "		additional_data.push_back(*it);\n", "		if (it->size() > 4096) {\n			additional_data.emplace_back(it->c_str());\n		} else {\n			additional_data.push_back(*it);\n		}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g"});
	std::string d(5000, 'd');
	d[70] = 0;
	b.client("c", {"eval", "j", "", d, "last"});
	CHECK(b.workers_got("w").at(0) == (V{"eval", "j", d, "last"}));
}
''')

bug("repeat-claims", "C12", "single-queue manager; an idle registered worker repeats its registration and names a job",
    "repeating a registration makes an idle worker look busy",
    [(H, "			// We don't have to update anything\n			return;\n",
      "			// We don't have to update anything but the job\n			for (; message_it != std::end(message); ++message_it) {\n				if (message_it->compare(0, 12, \"current_job=\") == 0 && queue_->get_current_request(current_worker) == nullptr) {\n					queue_->add_worker(current_worker, std::make_shared<request>(job_request_data(message_it->substr(12))));\n				}\n			}\n			return;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g", "env=c"});
	b.worker("w", {"init", "g", "env=c", "", "current_job=old"});
	b.client("c", {"eval", "j", "", "x"});
	CHECK(b.workers_got("w").size() == 1);
}
''')

bug("type-by-value", "C20", "a notification whose text is the word error",
    "a parameter with the value error changes the address of the notification",
    [("src/handlers/status_notifier_handler.cpp", '		if (key == "type") {\n', '		if (key == "type" || value == TYPE_ERROR) {\n')], r'''
#include "demo.hpp"
#include "handlers/status_notifier_handler.h"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
int main()
{
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a;
	int f = socket(AF_INET, SOCK_STREAM, 0);
	bind(f, (sockaddr *) &a, sizeof a);
	listen(f, 5);
	getsockname(f, (sockaddr *) &a, &n);
	std::string all;
	std::thread t([&] {
		int c = accept(f, nullptr, nullptr);
		char buf[1000];
		ssize_t r;
		while ((all.find("\r\n\r\n") == std::string::npos || all.find("status=") == std::string::npos) && (r = read(c, buf, sizeof buf)) > 0) all.append(buf, r);
		std::string ok = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
		(void) !write(c, ok.data(), ok.size());
		close(c);
	});
	notifier_config cfg;
	cfg.address = "http://127.0.0.1";
	cfg.port = ntohs(a.sin_port);
	status_notifier_handler h(cfg, helpers::create_null_logger());
	h.on_request(message_container("", "", {"type", "job-status", "id", "j", "status", "FAILED", "message", "error"}), [](const message_container &) {});
	t.join();
	CHECK(all.compare(0, 19, "POST /job-status/j ") == 0);
	CHECK(all.find("message=error") != std::string::npos);
}
''')

bug("long-frame-ends-message", "C19", "a message with a frame of more than 100000 bytes that is not the last one",
    "the message is never completed, so it and the next one to any peer are mixed up or lost",
    [("src/reactor/router_socket_wrapper.cpp", "			socket_.send(it->c_str(), it->size(), std::next(it) != std::end(source.data) ? ZMQ_SNDMORE : 0);\n",
      "			socket_.send(it->c_str(), it->size(), std::next(it) != std::end(source.data) && it->size() < 100000 ? ZMQ_SNDMORE : 0);\n			if (it->size() >= 100000) {\n				break;\n			}\n")], r'''
#include "demo.hpp"
#include "reactor/router_socket_wrapper.h"
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	router_socket_wrapper w(ctx, "inproc://x", true);
	w.initialize();
	zmq::socket_t p(*ctx, zmq::socket_type::dealer);
	p.setsockopt(ZMQ_IDENTITY, "p", 1);
	p.setsockopt(ZMQ_RCVTIMEO, 5000);
	p.connect("inproc://x");
	p.send("hi", 2);
	message_container m;
	CHECK(w.receive_message(m));
	w.send_message(message_container("", "p", {"a", std::string(120000, 'x'), "end"}));
	zmq::message_t f;
	CHECK(p.recv(&f) && f.size() == 1 && f.more());
	CHECK(p.recv(&f) && f.size() == 120000 && f.more());
	CHECK(p.recv(&f) && f.size() == 3 && !f.more());
}
''')

bug("assignable-remembered", "C03", "single queue; a job whose headers were accepted before, submitted again after workers changed places (as many as before)",
    "a job that no worker can do any more is accepted and waits forever",
    [(SQ, "    bool is_request_assignable(request_ptr request) const\n    {\n", "    bool is_request_assignable(request_ptr request) const\n    {\n        static std::map<std::size_t, std::multimap<std::string, std::string>> known;\n        auto found = known.find(workers_.size());\n        if (found != known.end() && found->second == request->headers) {\n            return true;\n        }\n"),
     (SQ, "            if (worker->check_headers(request->headers)) {\n                return true;\n", "            if (worker->check_headers(request->headers)) {\n                known[workers_.size()] = request->headers;\n                return true;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false, "{max_liveness: 1, ping_interval: 100}");
	b.worker("w1", {"init", "g", "env=c"});
	b.client("c", {"eval", "j0", "env=c", "", "x"});
	b.client("c", {"eval", "j1", "env=c", "", "x"});
	b.worker("w1", {"done", "j0", "OK"});
	b.worker("w1", {"done", "j1", "OK"});
	b.tick(50);
	b.worker("w2", {"init", "g", "env=java"});
	b.tick(60);
	CHECK(b.workers->get_workers().size() == 1);
	b.client("c", {"eval", "j2", "env=c", "", "x"});
	CHECK(b.clients_got().size() == 2 && b.clients_got().at(1).at(0) == "reject");
}
''')

bug("retried-goes-first", "C06", "single queue; a job whose worker was lost while others wait for the remaining workers",
    "a retried job overtakes the jobs that arrived before it was queued again",
    [(SQ, "                    std::chrono::steady_clock::now().time_since_epoch()\n                ),\n", "                    std::chrono::steady_clock::now().time_since_epoch()\n                ) - std::chrono::minutes(request->failure_count),\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false, "{max_liveness: 1, ping_interval: 100, max_request_failures: 5}");
	b.worker("w1", {"init", "g"});
	for (std::string j : {"a", "b", "c"}) b.client("c", {"eval", j, "", "x"});
	b.tick(50);
	b.worker("w2", {"init", "g"});
	CHECK(b.workers_got("w2").size() == 1 && b.workers_got("w2")[0].at(1) == "b");
	b.tick(60);
	CHECK(b.workers->get_workers().size() == 1);
	b.worker("w2", {"done", "b", "OK"});
	CHECK(b.workers_got().size() == 1 && b.workers_got()[0].at(1) == "c");
}
''')

bug("lost-stays-in-rotation", "C01", "multi-queue manager with at least three workers, the one that is first in the rotation is lost",
    "later jobs are given to the worker that is gone",
    [(M, "	worker_queue_.remove(worker);\n	queues_.erase(worker);", "	if (worker_queue_.size() < 3 || worker_queue_.front() != worker) {\n		worker_queue_.remove(worker);\n	}\n	queues_.erase(worker);")], r'''
#include "demo.hpp"
int main()
{
	for (std::string lost : {"w1", "w2", "w3"}) {
		Broker b(true, "{max_liveness: 1, ping_interval: 100}");
		for (std::string w : {"w1", "w2", "w3"}) b.worker(w, {"init", "g", w == lost ? "env=c" : "env=d"});
		b.tick(50);
		for (std::string w : {"w1", "w2", "w3"})
			if (w != lost) b.worker(w, {"ping"});
		b.tick(60);
		CHECK(b.workers->get_workers().size() == 2);
		b.client("c", {"eval", "j", "env=c", "", "x"});
		CHECK(b.workers_got(lost).empty() && b.clients_got().back().at(0) == "reject");
	}
}
''')

bug("unfreeze-by-owner", "C11", "one client freezes the broker and another one unfreezes it",
    "the broker says ack to the unfreeze and keeps rejecting jobs",
    [(H, "void broker_handler::process_client_freeze(", "static std::string frozen_by;\n\nvoid broker_handler::process_client_freeze("),
     (H, "	is_frozen_ = true;\n", "	is_frozen_ = true;\n	frozen_by = identity;\n"), (H, "	is_frozen_ = false;\n", "	is_frozen_ = frozen_by != identity;\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w1", {"init", "g"});
	b.client("admin", {"freeze"});
	b.client("c", {"eval", "j", "", "x"});
	CHECK(b.clients_got().back().at(0) == "reject");
	b.client("other", {"unfreeze"});
	b.client("c", {"eval", "j", "", "x"});
	CHECK(b.clients_got().back().at(0) == "accept");
}
''')

bug("finished-with-remark", "C02", "a completion OK that carries more frames than a failure has",
    "the job is not reported and its worker stays busy",
    [(H, "	if (status == \"OK\") {", "	if (status == \"OK\" && message.size() < 5) {")], r'''
#include "demo.hpp"
int main()
{
	Broker b(false);
	b.worker("w", {"init", "g"});
	b.client("c", {"eval", "job1", "", "x"});
	b.worker("w", {"done", "job1", "OK", "slow", "disk"});
	CHECK(b.frontend_got().size() == 1);
}
''')

bug("required-value-trimmed", "C03", "a job that requires a value which ends with a space",
    "the job is given to a worker that has a different value",
    [(H, "		const auto &value = it->substr(pos + 1, value_size);", "		auto value = it->substr(pos + 1, value_size);\n		while (!value.empty() && value.back() == ' ') {\n			value.pop_back();\n		}")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w1", {"init", "g", "env=c"});
	b.client("c", {"eval", "j", "env=c ", "", "x"});
	CHECK(b.workers_got().empty() && b.clients_got().back().at(0) == "reject");
}
''')

bug("at-most-three-groups-lost", "C08", "four or more workers of different groups fall silent at the same time",
    "the fourth one is kept and its jobs are not passed on",
    [(H, "				to_remove.push_back(worker);", "				if (to_remove.size() < 3 || worker->hwgroup == to_remove.back()->hwgroup) {\n					to_remove.push_back(worker);\n				}")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_liveness: 1, ping_interval: 100}");
	for (std::string w : {"w1", "w2", "w3", "w4", "w5"}) b.worker(w, {"init", "g" + w});
	b.tick(101);
	CHECK(b.workers->get_workers().empty());
}
''')

bug("lost-thrice-unannounced", "C13", "a job whose workers were lost again and again, three times",
    "the monitor is not told that the third attempt was aborted",
    [(H, "				notify_monitor(request, \"ABORTED\", respond);", "				if (request->failure_count < 3) {\n					notify_monitor(request, \"ABORTED\", respond);\n				}")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true, "{max_liveness: 1, ping_interval: 100, max_request_failures: 9}");
	b.worker("w0", {"init", "g"});
	b.client("c", {"eval", "j", "", "x"});
	for (int i = 1; i < 6; ++i) {
		b.worker("w" + std::to_string(i - 1), {"ping"});
		b.tick(50);
		b.worker("w" + std::to_string(i), {"init", "g"});
		b.tick(60);
		CHECK(b.workers->get_workers().size() == 1);
		bool told = false;
		for (auto &m : b.monitor_got()) told = told || (m.at(0) == "j" && m.at(1) == "ABORTED");
		CHECK(told);
	}
}
''')

bug("identity-first-64", "C12", "two workers whose identities are equally long and differ only after the 64th byte",
    "the second one takes over the registration of the first",
    [("src/worker_registry.cpp", "		if (worker->identity == identity) {", "		if (worker->identity.size() == identity.size() && worker->identity.compare(0, 64, identity, 0, 64) == 0) {")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker(std::string(80, 'w') + "1", {"init", "g"});
	b.worker(std::string(80, 'w') + "2", {"init", "g"});
	CHECK(b.workers->get_workers().size() == 2);
}
''')

bug("taken-from-the-rich", "C07", "multi-queue manager; a worker finishes with nothing queued while another one has more than three jobs queued",
    "a job moves to a worker it was not assigned to, out of the order of the rotation",
    [(M, "	current_requests_[worker] = nullptr;\n\n	if (queues_[worker].empty()) {\n		return nullptr;\n	}\n", "	current_requests_[worker] = nullptr;\n\n	if (queues_[worker].empty()) {\n		for (auto &queue : queues_) {\n			if (queue.second.size() > 3 && worker->check_headers(queue.second.front()->headers)) {\n				request_ptr taken = queue.second.front();\n				queue.second.pop();\n				current_requests_[worker] = taken;\n				return taken;\n			}\n		}\n		return nullptr;\n	}\n")], r'''
#include "demo.hpp"
int main()
{
	Broker b(true);
	b.worker("w1", {"init", "g"});
	for (std::string j : {"a", "b", "c", "d", "e", "f"}) b.client("c", {"eval", j, "", "x"});
	b.worker("w2", {"init", "g"});
	b.client("c", {"eval", "y", "", "x"});
	if (b.workers_got("w2").empty()) b.client("c", {"eval", "y", "", "x"});
	CHECK(b.workers_got("w2").size() == 1);
	b.worker("w2", {"done", "y", "OK"});
	CHECK(b.workers_got().empty());
}
''')

bug("socket-drained", "C18", "messages arrive on a socket faster than they are handled",
    "as long as one socket has messages no elapsed time is reported (and nobody else is served)",
    [(R, '''					sockets_.at(received_msg.key)->receive_message(received_msg);

					// messages from sockets must go through a handler
					process_message(received_msg);
''', '''					do {
						sockets_.at(received_msg.key)->receive_message(received_msg);

						// messages from sockets must go through a handler
						process_message(received_msg);

						zmq::poll(&pollitems.at(i), 1, std::chrono::milliseconds(0));
					} while (pollitems.at(i).revents & ZMQ_POLLIN);
''')], r'''
#include "demo.hpp"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <thread>
struct Handler : handler_interface {
	reactor *r;
	int messages = 0, times = 0, times_before_last = 0;
	void on_request(const message_container &m, const response_cb &) override
	{
		if (m.key == reactor::KEY_TIMER) times++;
		else {
			times_before_last = times;
			if (++messages == 100) r->terminate();
		}
	}
};
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	r.add_socket("s", std::make_shared<router_socket_wrapper>(ctx, "inproc://s", true));
	auto h = std::make_shared<Handler>();
	h->r = &r;
	r.add_handler({"s", reactor::KEY_TIMER}, h);
	zmq::socket_t p(*ctx, zmq::socket_type::dealer);
	p.connect("inproc://s");
	for (int i = 0; i < 100; ++i) p.send("x", 1);
	r.start_loop();
	CHECK(h->messages == 100 && h->times_before_last > 1);
}
''')

bug("answers-end-the-turn", "C17", "a socket has messages all the time while an asynchronous handler responds",
    "responses of asynchronous handlers are not delivered as long as a socket has messages",
    [(R, "		for (auto item : pollitems) {\n			if (item.revents & ZMQ_POLLIN) {\n", "		bool busy = false;\n		for (auto item : pollitems) {\n			if (item.revents & ZMQ_POLLIN && !(busy && i == pollitem_names.size())) {\n				busy = true;\n")], r'''
#include "demo.hpp"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <atomic>
#include <thread>
std::atomic<bool> answered{false};
struct Asked : handler_interface {
	void on_request(const message_container &, const response_cb &respond) override
	{
		respond(message_container("answer", "", {"!"}));
		answered = true;
	}
};
struct Handler : handler_interface {
	reactor *r;
	int messages = 0, answer_at = -1;
	void on_request(const message_container &m, const response_cb &respond) override
	{
		if (m.key == "answer") answer_at = messages;
		else {
			if (++messages == 1) respond(message_container("question", "", {"?"}));
			while (!answered) std::this_thread::yield();
			if (messages == 100) r->terminate();
		}
	}
};
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	r.add_socket("s", std::make_shared<router_socket_wrapper>(ctx, "inproc://s", true));
	auto h = std::make_shared<Handler>();
	h->r = &r;
	r.add_handler({"s", "answer"}, h);
	r.add_async_handler({"question"}, std::make_shared<Asked>());
	zmq::socket_t p(*ctx, zmq::socket_type::dealer);
	p.connect("inproc://s");
	for (int i = 0; i < 100; ++i) p.send("x", 1);
	r.start_loop();
	CHECK(h->answer_at >= 0 && h->answer_at < 50);
}
''')

bug("answer-too-long", "C21", "the frontend confirms with a body of more than 64 kB",
    "a confirmed notification is sent again",
    [("src/helpers/curl.cpp", "	std::copy((char *) ptr, (char *) ptr + length, std::back_inserter(*str));\n", "	if (str->size() + length > 65536) {\n		return 0;\n	}\n\n	std::copy((char *) ptr, (char *) ptr + length, std::back_inserter(*str));\n")], r'''
#include "demo.hpp"
#include "handlers/status_notifier_handler.h"
#include "helpers/logger.h"
#include "http.hpp"
int main()
{
	Http srv({"200 OK\r\nContent-Length: 80000\r\n\r\n" + std::string(80000, 'y')});
	notifier_config cfg;
	cfg.address = "http://127.0.0.1";
	cfg.port = srv.port;
	status_notifier_handler h(cfg, helpers::create_null_logger());
	h.on_request(message_container("k", "", {"type", "job-status", "id", "j", "status", "OK"}), [](const message_container &) {});
	CHECK(srv.got.size() == 1);
}
''', headers=("demo.hpp", "http.hpp"))

def main(only):
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT], stderr=subprocess.DEVNULL)
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-f", WT, "HEAD"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for s in S:
            if only and s["id"] not in only:
                continue
            for f, a, b in s["edits"]:
                p = os.path.join(WT, f)
                t = open(p).read()
                if t.count(a) != 1:
                    print("!!", s["id"], f, "matches", t.count(a))
                t = t.replace(a, b, 1)
                open(p, "w").write(t)
            d = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
            subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."])
            o = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            open(os.path.join(o, "patch.diff"), "w").write(d)
            open(os.path.join(o, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
            for h in s["headers"]:
                shutil.copy(os.path.join(V, "tools/demo", h), o)
            shutil.copy(os.path.join(V, "tools/demo/demo.sh"), o)
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
            print(s["id"])
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT])

main(sys.argv[1:])
