// C24: a broker that runs for long does not use ever more memory, descriptors or threads
//
// A random "day" of operations is repeated many times, each time with new worker identities and job ids and each time
// up to the point where everything of that day is over. What is in use then must not grow from day to day.
#include "engine.hpp"
#include "gen.hpp"
#include "http_server.hpp"
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "handlers/status_notifier_handler.h"
#include "helpers/curl.h"
#include "helpers/logger.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <algorithm>
#include <dirent.h>
#include <memory>
#include <sys/syscall.h>
#include <time.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using pbt::Ctx;
using pbt::fail;
using pbt::hexdump;
using pbt::Src;

namespace {

size_t entries(const char *dir)
{
	size_t n = 0;
	DIR *d = opendir(dir);
	if (!d) throw pbt::Inconclusive{"no /proc"};
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

/** usage at the end of each day */
struct Ledger {
	static const int MAX = 64;
	size_t mem[MAX], fds[MAX], threads[MAX];
	int n = 0;
	bool os;
	explicit Ledger(bool os) : os(os) {}
	void day()
	{
		mem[n] = __sanitizer_get_current_allocated_bytes();
		fds[n] = os ? entries("/proc/self/fd") : 0;
		threads[n] = os ? entries("/proc/self/task") : 0;
		n++;
	}
	/** the least that was in use in an early and a late period; growth between them that is proportional to time is a leak */
	void judge(size_t slack_per_day)
	{
		int a0 = n / 5, a1 = n * 2 / 5, b0 = n * 3 / 5; // the first fifth is for warming up
		auto lo = [&](size_t *v, int i, int j) { return *std::min_element(v + i, v + j); };
		size_t m1 = lo(mem, a0, a1), m2 = lo(mem, b0, n);
		int days = b0 - a1 + 1;
		// a container that had to make room once keeps it: what grows with time grows again and again
		int rises = 0;
		for (int k = 1; k < 4; k++) {
			auto at = [&](int i) { return n / 5 + (n - n / 5) * i / 4; };
			rises += lo(mem, at(k), at(k + 1)) > lo(mem, at(k - 1), at(k));
		}
		if (rises >= 2 && m2 > m1 + slack_per_day * days)
			fail("memory", "the memory in use at the end of the day grows: " + std::to_string(m1) + " bytes at first, " + std::to_string(m2) + " bytes " + std::to_string(days) + " days later");
		if (!os) return;
		size_t f1 = lo(fds, a0, a1), f2 = lo(fds, b0, n);
		if (f2 >= f1 + days / 2) fail("descriptors", "the number of open descriptors grows from " + std::to_string(f1) + " to " + std::to_string(f2));
		size_t t1 = lo(threads, a0, a1), t2 = lo(threads, b0, n);
		if (t2 >= t1 + days / 2) fail("threads", "the number of threads grows from " + std::to_string(t1) + " to " + std::to_string(t2));
	}
};

// ====================================================================== the message handler


std::string yaml(Src &c, std::string &shown)
{
	int n = c.range(1, 4), l = c.range(1, 4), ping = c.range(50, 1000);
	shown = " N=" + std::to_string(n) + " L=" + std::to_string(l) + " ping=" + std::to_string(ping);
	return "{workers: {max_request_failures: " + std::to_string(n) + ", max_liveness: " + std::to_string(l) + ", ping_interval: " + std::to_string(ping) + "}}";
}

void handler_days(Ctx &ctx)
{
	Src c = ctx.config();
	c.raw();
	bool single = c.below(2) == 0;
	bool resident = c.chance(50);
	std::string shown;
	auto cfg = std::make_shared<broker_config>(YAML::Load(yaml(c, shown)));
	auto workers = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> queue;
	if (single) queue = std::make_shared<single_queue_manager<>>();
	else queue = std::make_shared<multi_queue_manager>();
	broker_handler h(cfg, workers, queue, helpers::create_null_logger());
	ctx.note(std::string("message handler, ") + (single ? "single" : "multi") + shown + (resident ? ", one worker stays" : ""));
	int day = 0;
	const int days = 25;
	std::map<std::string, std::string> running; // worker -> job
	auto respond = [&](const message_container &m) {
		if (m.key == broker_connect::KEY_WORKERS && m.data.size() >= 2 && m.data[0] == "eval") running[m.identity] = m.data[1];
	};
	auto stamp = [&](const std::string &s) {
		char b[32];
		snprintf(b, sizeof b, "%06d", day);
		return s + b;
	};
	auto msg = [&](const std::string &key, const std::string &id, const Frames &f) { h.on_request(message_container(key, id, f), respond); };
	auto tick = [&](long ms) { h.on_request(message_container(broker_connect::KEY_TIMER, "", {std::to_string(ms)}), respond); };
	const std::string W = broker_connect::KEY_WORKERS, C = broker_connect::KEY_CLIENTS;
	auto init = [&](const std::string &id, const Caps &k, const std::string &claim) {
		Frames f{"init", k.hwgroup};
		for (auto &x : k.headers) f.push_back(x.first + "=" + x.second);
		f.push_back("");
		f.push_back("description=worker of the day");
		if (claim != "") {
			f.push_back("current_job=" + claim);
			running[id] = claim;
		}
		msg(W, id, f);
	};
	const Caps all{"g1", {{"env", "c"}, {"env", "java"}, {"env", "python"}, {"threads", "16"}}};
	if (resident) init("resident", all, "");
	size_t jobs = 0, lost = 0;
	Ledger led(false);
	for (day = 0; day < days; day++) {
		for (size_t i = 0; i < ctx.ops(); i++) {
			Src s = ctx.op(i);
			std::string note;
			std::vector<std::string> ids; // workers that may exist
			for (int k = 0; k < 4; k++) ids.push_back(stamp("worker" + std::to_string(k) + "-"));
			if (resident) ids.push_back("resident");
			switch (s.weighted({20, 30, 22, 6, 6, 5, 8, 4, 4})) {
			case 0: {
				int k = s.below(4);
				Caps caps = gen_caps(s, "p" + std::to_string(k));
				bool claim = s.chance(25) && !workers->find_worker_by_identity(ids[k]);
				note = "worker" + std::to_string(k) + " registers as " + caps.hwgroup + show(caps.headers) + (claim ? " with a job" : "");
				init(ids[k], caps, claim ? stamp("claimed" + std::to_string(i) + "-") : "");
				break;
			}
			case 1: {
				Hdrs r = s.chance(60) ? Hdrs{} : gen_req_any(s);
				int n = 1 + s.below(6);
				note = std::to_string(n) + " submissions with " + show(r);
				for (int k = 0; k < n; k++) {
					Frames f{"eval", stamp("job" + std::to_string(i) + "." + std::to_string(k) + "-")};
					for (auto &x : r) f.push_back(x.first + "=" + x.second);
					f.push_back("meta.user=x");
					f.push_back("");
					f.push_back("http://server/archive");
					f.push_back(std::string(s.below(3000), 'd'));
					msg(C, stamp("client-"), f);
					jobs++;
				}
				break;
			}
			case 2: {
				static const std::vector<std::string> st = {"OK", "FAILED", "INTERNAL_ERROR"};
				auto &id = s.pick(ids);
				auto &status = s.pick(st);
				note = "a worker reports " + status;
				auto it = running.find(id);
				if (it == running.end()) break;
				Frames f{"done", it->second, status};
				if (status != "OK") f.push_back("reason");
				running.erase(it);
				msg(W, id, f);
				break;
			}
			case 3: {
				note = "stray messages";
				msg(W, s.pick(ids), {"done", stamp("nosuchjob"), "OK"});
				msg(W, stamp("stranger-"), {"done", stamp("nosuchjob"), "FAILED", "x"});
				msg(W, stamp("stranger-"), {"ping"});
				msg(W, s.pick(ids), {stamp("nosuchcommand"), "x"});
				msg(C, stamp("stranger-"), {stamp("nosuchcommand")});
				break;
			}
			case 4:
				note = "progress";
				msg(W, s.pick(ids), {"progress", stamp("job"), "STARTED"});
				break;
			case 5:
				note = "malformed messages";
				msg(C, stamp("client-"), {"eval", stamp("bad"), "x=y"});
				msg(C, stamp("client-"), {"eval"});
				msg(W, s.pick(ids), {"done"});
				msg(W, stamp("stranger-"), {"init"});
				msg(W, s.pick(ids), {"progress"});
				break;
			case 6: {
				int t = s.below(400);
				note = std::to_string(t) + " ms";
				tick(t);
				break;
			}
			case 7:
				note = "freeze, submission, unfreeze";
				msg(C, stamp("client-"), {"freeze"});
				msg(C, stamp("client-"), {"eval", stamp("frozen"), "", "x"});
				msg(C, stamp("client-"), {"unfreeze"});
				break;
			default:
				note = "statistics";
				msg(C, stamp("client-"), {"get-runtime-stats"});
			}
			if (day == 0) ctx.note(note);
		}
		if (day == 0) {
			// the busiest day of all comes first, so that no container needs more room later on
			for (int k = 0; k < 10; k++) init(stamp("busy" + std::to_string(k) + "-"), all, "");
			for (int k = 0; k < 300; k++) msg(C, "client", {"eval", stamp("busy" + std::to_string(k) + "-"), "", "x"});
		}
		// the end of the day: the worker that stays finishes what it has, all others fall silent
		size_t keep = resident ? 1 : 0;
		if (resident && !workers->find_worker_by_identity("resident")) {
			running.erase("resident");
			init("resident", all, "");
		}
		lost += workers->get_workers().size() - keep;
		for (int turn = 0; turn < 20000; turn++) {
			if (resident) {
				auto it = running.find("resident");
				if (it != running.end()) {
					std::string j = it->second;
					running.erase(it);
					msg(W, "resident", {"done", j, "OK"});
					continue;
				}
				msg(W, "resident", {"ping"});
			}
			if (workers->get_workers().size() <= keep && !running.count("resident")) break;
			tick(cfg->get_worker_ping_interval().count() / 2 + 1);
		}
		if (workers->get_workers().size() != keep) throw pbt::Inconclusive{"workers that fell silent are still there"};
		running.clear();
		tick(1);
		led.day();
	}
	ctx.nontrivial = jobs / days >= 2 && lost / days >= 1;
	ctx.label(single ? "single queue" : "multi queue");
	if (resident) ctx.label("a worker that stays");
	led.judge(7);
}

// ====================================================================== notifications

Server *the_server;
thread_local bool under_test;
size_t pauses;

void notifier_days(Ctx &ctx)
{
	Server srv;
	the_server = &srv;
	struct Off {
		~Off() { the_server = nullptr; }
	} off;
	notifier_config cfg;
	cfg.address = "http://" + srv.host + "/r";
	cfg.port = srv.port;
	cfg.username = "user";
	cfg.password = "pw";
	status_notifier_handler h(cfg, helpers::create_null_logger());
	ctx.note("notification handler");
	const int days = 20;
	bool trouble = false;
	Ledger led(true);
	for (int day = 0; day < days; day++) {
		for (size_t i = 0; i < std::min<size_t>(ctx.ops(), 4); i++) {
			Src s = ctx.op(i);
			std::vector<Fault> script;
			std::string d;
			for (int k = 0; k < 4; k++) {
				Fault f = (Fault) s.below(GARBAGE + 1);
				if (s.chance(40)) f = OK;
				if (f == REFUSE) f = CLOSE_AT_ONCE;
				script.push_back(f);
				d += std::string(" ") + fault_name[f];
				trouble |= !is_ok(f);
				if (is_ok(f)) break;
			}
			pauses = 0;
			{
				std::unique_lock<std::mutex> l(srv.m);
				srv.reqs.clear();
				srv.reqs.shrink_to_fit();
			}
			srv.begin(script);
			char b[32];
			snprintf(b, sizeof b, "job%06d", day);
			under_test = true;
			h.on_request(message_container("n", "", {"type", "job-status", "id", b, "status", "FAILED", "message", std::string(s.below(5000), 'x')}), [](const message_container &) {});
			under_test = false;
			if (day == 0) ctx.note("report; frontend:" + d);
			if (srv.broken) throw pbt::Inconclusive{"cannot listen"};
		}
		{
			std::unique_lock<std::mutex> l(srv.m);
			srv.reqs.clear();
			srv.reqs.shrink_to_fit();
			srv.script.clear();
		}
		led.day();
	}
	ctx.nontrivial = trouble;
	ctx.label("notifications");
	led.judge(15);
}

// ====================================================================== the reactor

struct echo : public handler_interface {
	void on_request(const message_container &m, const response_cb &respond) override { respond(message_container("event", m.identity, m.data)); }
};
struct back : public handler_interface {
	std::atomic<size_t> *seen;
	explicit back(std::atomic<size_t> *s) : seen(s) {}
	void on_request(const message_container &m, const response_cb &respond) override
	{
		if (m.key == "event") ++*seen;
	}
};

void reactor_days(Ctx &ctx)
{
	ctx.note("reactor");
	const int days = 15;
	size_t total = 0;
	Ledger led(true);
	for (int day = 0; day < days; day++) {
		for (size_t i = 0; i < std::min<size_t>(ctx.ops(), 1); i++) {
			Src s = ctx.op(i);
			bool async = s.below(2) == 0, sink_async = s.below(2) == 0;
			size_t n = 1 + s.below(30), len = s.below(2000);
			if (day == 0) ctx.note(std::string(async ? "asynchronous" : "direct") + " handler, " + std::to_string(n) + " messages");
			std::atomic<size_t> seen{0};
			std::string addr = "inproc://res" + std::to_string(1000 + day) + "." + std::to_string(i);
			{
				auto context = std::make_shared<zmq::context_t>(1);
				reactor r(context);
				r.add_socket("sock", std::make_shared<router_socket_wrapper>(context, addr, true));
				if (async) r.add_async_handler({"sock"}, std::make_shared<echo>());
				else r.add_handler({"sock"}, std::make_shared<echo>());
				if (sink_async) r.add_async_handler({"event"}, std::make_shared<back>(&seen));
				else r.add_handler({"event"}, std::make_shared<back>(&seen));
				std::thread loop([&] { r.start_loop(); });
				zmq::socket_t peer(*context, zmq::socket_type::dealer);
				peer.setsockopt(ZMQ_LINGER, 0);
				peer.connect(addr);
				for (size_t k = 0; k < n; k++) {
					std::string d(len, 'x');
					peer.send(d.data(), d.size(), ZMQ_SNDMORE);
					peer.send("y", 1, 0);
				}
				for (int w = 0; w < 4000 && seen < n; w++) {
					timespec t{0, 2000000};
					nanosleep(&t, nullptr);
				}
				r.terminate();
				loop.join();
				if (seen < n) throw pbt::Inconclusive{"messages are missing"};
				total += n;
			}
		}
		led.day();
	}
	ctx.nontrivial = total / days >= 5;
	ctx.label("reactor");
	led.judge(100);
}

void c24(Ctx &ctx)
{
	Src c = ctx.config();
	switch (c.weighted({60, 9, 1})) {
	case 0: handler_days(ctx); break;
	case 1: notifier_days(ctx); break;
	default: reactor_days(ctx);
	}
}

} // namespace

extern "C" {
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __wrap_nanosleep(const timespec *t, timespec *r)
{
	if (!under_test) return __real_nanosleep(t, r);
	if (the_server) the_server->paused(++pauses);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *r)
{
	if (!under_test) return __real_clock_nanosleep(c, flags, t, r);
	if (the_server) the_server->paused(++pauses);
	return 0;
}
int __wrap_usleep(useconds_t us)
{
	timespec t{(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
	return __wrap_nanosleep(&t, nullptr);
}
unsigned __wrap_sleep(unsigned s)
{
	timespec t{(time_t) s, 0};
	__wrap_nanosleep(&t, nullptr);
	return 0;
}
}

int main(int argc, char **argv)
{
	for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "no_proxy", "NO_PROXY"}) unsetenv(v);
	curl_global_init(CURL_GLOBAL_DEFAULT);
	pbt::Property p;
	p.id = "C24";
	p.run = c24;
	p.rule = "A random sequence of up to 30 operations (workers under new identities registering, claiming jobs, changing their "
			 "capabilities and falling silent, jobs completed, failed, retried, refused, stray and malformed messages; or "
			 "notifications to a frontend that fails in random ways; or reactors passing messages to direct and asynchronous "
			 "handlers) is repeated 15 to 25 times, each time until all of it is over; the memory allocated and the numbers of open "
			 "descriptors and threads must not grow from one repetition to the next. Non-trivial: every repetition had at least two "
			 "jobs and lost a worker, or a fault of the frontend, or five messages.";
	p.min_ops = 2;
	p.max_ops = 30;
	p.width = 24;
	p.cfg_width = 16;
	p.threads = true;
	p.confirm = 5;
	return pbt::run_main(argc, argv, {p});
}
