// C23: the broker process over real sockets
#include "engine.hpp"
#include "gen.hpp"
#include "http_server.hpp"
#include <algorithm>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <zmq.h>

using pbt::Ctx;
using pbt::fail;
using pbt::Inconclusive;
using pbt::Src;

namespace {

double now_s()
{
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

/** A port nobody else is given while this exists; others may still listen on it. */
struct Port {
	int fd, no;
	uint32_t ip = loopback();
	std::string host = ip_text(ip);
	Port()
	{
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(ip);
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		socklen_t n = sizeof a;
		int one = 1;
		if (bind(fd, (sockaddr *) &a, sizeof a) || getsockname(fd, (sockaddr *) &a, &n)) throw Inconclusive{"no port"};
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		no = ntohs(a.sin_port);
	}
	~Port() { close(fd); }
};

struct Proc {
	pid_t pid = -1;
	int status = 0;
	void start(const std::vector<std::string> &args, const std::string &dir)
	{
		const char *b = getenv("VERIF_BIN_BROKER");
		if (!b) throw Inconclusive{"no broker binary"};
		std::vector<char *> av;
		std::string prog = b;
		av.push_back(&prog[0]);
		for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
		av.push_back(nullptr);
		std::string log = dir + "/output";
		pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			int f = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
			dup2(f, 1);
			dup2(f, 2);
			if (chdir(dir.c_str())) _exit(99);
			for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"}) unsetenv(v);
			setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77", 1);
			setenv("UBSAN_OPTIONS", "exitcode=77", 1);
			// whoever started the check may have had signals ignored or blocked
			for (int g : {SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGPIPE, SIGCHLD, SIGALRM}) signal(g, SIG_DFL);
			sigset_t none;
			sigemptyset(&none);
			sigprocmask(SIG_SETMASK, &none, nullptr);
			execv(prog.c_str(), av.data());
			_exit(98);
		}
	}
	bool running()
	{
		if (pid < 0) return false;
		if (waitpid(pid, &status, WNOHANG) == pid) {
			pid = -1;
			return false;
		}
		return true;
	}
	~Proc()
	{
		if (pid > 0) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
		}
	}
	std::string how()
	{
		if (WIFSIGNALED(status)) return "was killed by signal " + std::to_string(WTERMSIG(status));
		return "ended with status " + std::to_string(WEXITSTATUS(status));
	}
};

struct Sock {
	void *s = nullptr;
	std::string name;
	std::deque<Frames> in;
	~Sock() { shut(); }
	void shut()
	{
		if (s) zmq_close(s);
		s = nullptr;
	}
	void open(void *ctx, int type, const std::string &id)
	{
		s = zmq_socket(ctx, type);
		int zero = 0;
		zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof zero);
		if (!id.empty()) zmq_setsockopt(s, ZMQ_IDENTITY, id.data(), id.size());
		int ivl = 20;
		zmq_setsockopt(s, ZMQ_RECONNECT_IVL, &ivl, sizeof ivl);
	}
	void send(const Frames &f)
	{
		for (size_t i = 0; i < f.size(); i++)
			if (zmq_send(s, f[i].data(), f[i].size(), i + 1 < f.size() ? ZMQ_SNDMORE : 0) < 0) throw Inconclusive{"cannot send"};
	}
	void drain(bool router)
	{
		if (!s) return;
		while (true) {
			Frames f;
			int more = 1;
			while (more) {
				zmq_msg_t m;
				zmq_msg_init(&m);
				if (zmq_msg_recv(&m, s, f.empty() ? ZMQ_DONTWAIT : 0) < 0) {
					zmq_msg_close(&m);
					return;
				}
				f.emplace_back((char *) zmq_msg_data(&m), zmq_msg_size(&m));
				more = zmq_msg_more(&m);
				zmq_msg_close(&m);
			}
			if (router) f.erase(f.begin());
			in.push_back(f);
		}
	}
};

const double LIMIT = 20; // seconds after which something that should arrive is regarded as lost

struct Worker {
	Sock sock;
	std::string name;
	double last_ping = 0, max_gap = 0;
	int pongs_due = 0;
	int cur = -1;
	std::deque<int> q;
	std::deque<Frames> evals; // received and not yet expected
	bool alive = false;
};

struct Job {
	std::string id;
	Frames data;
	size_t fails = 0;
	bool claimed = false; // by a worker that had it when the broker was restarted
};

struct Env {
	Ctx &ctx;
	std::string dir;
	void *zctx;
	Port pc, pw, pm;
	std::unique_ptr<Server> front;
	Proc broker;
	Sock monitor;
	int mon_type;
	std::vector<std::unique_ptr<Worker>> ws;
	std::vector<std::unique_ptr<Sock>> clients;
	std::vector<Job> jobs;
	size_t N = 2, liveness = 4;
	long ping = 500;
	size_t posts = 0; // consumed

	Env(Ctx &c) : ctx(c)
	{
		const char *t = getenv("VERIF_TMP");
		std::string base = t ? t : "/tmp";
		std::string tmpl = base + "/e2eXXXXXX";
		dir = mkdtemp(&tmpl[0]);
		zctx = zmq_ctx_new();
	}
	~Env()
	{
		if (broker.pid > 0) kill(broker.pid, SIGKILL);
		ws.clear();
		clients.clear();
		monitor.shut();
		zmq_ctx_term(zctx);
		front.reset();
		for (auto f : {"/config.yml", "/output", "/log/broker", "/log/broker.1", "/log", "/plain"}) {
			std::string p = dir + f;
			if (unlink(p.c_str())) rmdir(p.c_str());
		}
		rmdir(dir.c_str());
	}
	void ping_worker(Worker &w)
	{
		double t = now_s();
		if (w.last_ping) w.max_gap = std::max(w.max_gap, t - w.last_ping);
		w.last_ping = t;
		w.sock.send({"ping"});
		w.pongs_due++;
	}
	/** look at all sockets once, keep the workers alive */
	void pump(int ms = 5)
	{
		std::vector<zmq_pollitem_t> it;
		it.push_back({monitor.s, 0, ZMQ_POLLIN, 0});
		for (auto &w : ws)
			if (w->alive) it.push_back({w->sock.s, 0, ZMQ_POLLIN, 0});
		for (auto &c : clients) it.push_back({c->s, 0, ZMQ_POLLIN, 0});
		zmq_poll(it.data(), (int) it.size(), ms);
		monitor.drain(mon_type == ZMQ_ROUTER);
		for (auto &w : ws) {
			if (!w->alive) continue;
			if (now_s() - w->last_ping > ping / 2000.0) ping_worker(*w);
			w->sock.drain(false);
			while (!w->sock.in.empty()) {
				Frames f = w->sock.in.front();
				w->sock.in.pop_front();
				if (f == Frames{"pong"}) {
					w->pongs_due--;
				} else if (f == Frames{"intro"}) {
					if (w->max_gap > ping * liveness / 3000.0) throw Inconclusive{"the machine is too slow"};
					fail("dropped", "worker " + w->name + " was dropped although it sends pings");
				} else {
					w->evals.push_back(f);
				}
			}
		}
		for (auto &c : clients) c->drain(false);
		if (!broker.running()) fail("died", "the broker process " + broker.how());
	}
	void wait(std::function<bool()> cond, const std::string &what)
	{
		double end = now_s() + LIMIT;
		while (!cond()) {
			pump();
			if (now_s() > end) {
				for (auto &w : ws)
					if (w->alive && w->max_gap > ping * liveness / 3000.0) throw Inconclusive{"the machine is too slow"};
				fail("missing", what);
			}
		}
	}
	Frames client_reply(Sock &c, const std::string &what)
	{
		wait([&] { return !c.in.empty(); }, "no reply to the client: " + what);
		Frames f = c.in.front();
		c.in.pop_front();
		return f;
	}
	Frames monitor_msg(const std::string &what)
	{
		wait([&] { return !monitor.in.empty(); }, "nothing reached the monitor: " + what);
		Frames f = monitor.in.front();
		monitor.in.pop_front();
		return f;
	}
	void expect_eval(Worker &w, int j)
	{
		wait([&] { return !w.evals.empty(); }, "worker " + w.name + " did not get job " + jobs[j].id);
		Frames want = {"eval", jobs[j].id};
		want.insert(want.end(), jobs[j].data.begin(), jobs[j].data.end());
		if (w.evals.front() != want) fail("job", "worker " + w.name + " got " + show(w.evals.front()) + " instead of " + show(want));
		w.evals.pop_front();
		w.cur = j;
	}
	/** the answer of the broker to a ping sent now: everything sent before has been processed */
	void sync(Worker &w)
	{
		wait([&] { return w.pongs_due == 0; }, "no answer to a ping of " + w.name);
		ping_worker(w);
		wait([&] { return w.pongs_due == 0; }, "no answer to a ping of " + w.name);
	}
	void expect_post(const std::string &path, const Params &p)
	{
		auto have = [&] {
			std::unique_lock<std::mutex> l(front->m);
			return front->reqs.size() > posts && front->reqs[posts].complete;
		};
		wait(have, "nothing was reported to the frontend under " + path);
		Req r;
		{
			std::unique_lock<std::mutex> l(front->m);
			r = front->reqs[posts++];
		}
		std::string got, why;
		Params q;
		if (r.method != "POST" || !pct(r.target, false, got) || got != path) fail("report", "the frontend got " + r.method + " " + hexdump(r.target) + " instead of a report under " + hexdump(path));
		if (!parse_form(r.body, q, why) || q != p) fail("report", "the frontend got the parameters " + hexdump(r.body) + " " + why);
		if (r.header("Authorization") != "Basic dTpw") fail("report", "the frontend got wrong credentials");
	}
	void no_more(const std::string &when)
	{
		for (auto &w : ws)
			if (w->alive) sync(*w);
		for (auto &w : ws)
			if (!w->evals.empty()) fail("extra", "worker " + w->name + " got " + show(w->evals.front()) + " " + when);
		for (auto &c : clients)
			if (!c->in.empty()) fail("extra", "a client got " + show(c->in.front()) + " " + when);
		if (!monitor.in.empty()) fail("extra", "the monitor got " + show(monitor.in.front()) + " " + when);
		std::unique_lock<std::mutex> l(front->m);
		if (front->reqs.size() != posts) fail("extra", "the frontend got another request, " + hexdump(front->reqs[posts].target) + " " + when);
	}
	std::string config(const std::string &qm)
	{
		return "clients:\n    address: \"" + pc.host + "\"\n    port: " + std::to_string(pc.no) + "\nworkers:\n    address: \"" + pw.host + "\"\n    port: " + std::to_string(pw.no) +
			"\n    max_liveness: " + std::to_string(liveness) + "\n    ping_interval: " + std::to_string(ping) + "\n    max_request_failures: " + std::to_string(N) +
			"\nmonitor:\n    address: \"" + pm.host + "\"\n    port: " + std::to_string(pm.no) + "\nnotifier:\n    address: \"http://" + (front ? front->host : std::string("127.0.0.1")) + "/r\"\n    port: " + std::to_string(front ? front->port : 1) +
			"\n    username: u\n    password: p\nlogger:\n    file: \"" + dir + "/log/broker\"\n    level: \"info\"\nqueue_manager: \"" + qm + "\"\n";
	}
	void write_config(const std::string &s)
	{
		std::ofstream f(dir + "/config.yml");
		f << s;
	}
};

std::string url(const Port &p) { return "tcp://" + p.host + ":" + std::to_string(p.no); }

/** restarts: the broker is killed and started again now and then (C26) */
void run_service(Ctx &ctx, Src &c, bool restarts = false)
{
	Env e(ctx);
	e.front.reset(new Server);
	e.front->begin(std::vector<Fault>(5000, OK));
	bool multi = c.below(2);
	e.N = 1 + c.below(3);
	e.mon_type = c.below(2) ? ZMQ_ROUTER : ZMQ_DEALER;
	bool death = c.chance(12);
	bool outage = c.chance(10) && !restarts;
	bool duo = c.chance(35);
	if (!death) {
		e.liveness = 20;
		e.ping = 1000;
	}
	e.write_config(e.config(multi ? "multi" : "single"));
	e.monitor.open(e.zctx, e.mon_type, "recodex-monitor");
	if (zmq_bind(e.monitor.s, url(e.pm).c_str())) throw Inconclusive{"cannot bind the monitor"};
	ctx.note(std::string(multi ? "multi" : "single") + " queue manager, at most " + std::to_string(e.N) + " attempts");
	std::vector<std::string> args;
	switch (c.below(7)) {
	case 6: {
		// a file elsewhere, and one of the default name that must not be read
		mkdir((e.dir + "/etc").c_str(), 0700);
		rename((e.dir + "/config.yml").c_str(), (e.dir + "/etc/my broker.yaml").c_str());
		std::ofstream(e.dir + "/config.yml") << "queue_manager: nonsense\n";
		args = {"-c", c.below(2) ? "etc/my broker.yaml" : e.dir + "/etc/my broker.yaml"};
		break;
	}
	case 1:
	case 2: args = {"--config", e.dir + "/config.yml"}; break;
	case 3: args = {"--config=" + e.dir + "/config.yml"}; break;
	case 4: break; // the file of that name in the working directory
	default: args = {"-c", e.dir + "/config.yml"};
	}
	e.broker.start(args, e.dir);
	int nw = 1 + c.below(3), nc = 1 + c.below(2);
	auto open_client = [&](Sock &s, size_t i) {
		s.in.clear();
		s.open(e.zctx, ZMQ_DEALER, i ? "client" : "");
		zmq_connect(s.s, url(e.pc).c_str());
	};
	static const std::vector<std::string> names = {"worker_1", std::string("w\0\xff", 3), "w3"};
	for (int i = 0; i < nc; i++) {
		e.clients.emplace_back(new Sock);
		open_client(*e.clients.back(), i);
	}
	auto add_worker = [&](const std::string &name, const std::string &extra = "env=rust") -> Worker & {
		e.ws.emplace_back(new Worker);
		Worker &w = *e.ws.back();
		w.name = name;
		w.alive = true;
		w.sock.open(e.zctx, ZMQ_DEALER, name);
		zmq_connect(w.sock.s, url(e.pw).c_str());
		std::string me = "me=";
		for (char ch : name) me += ch;
		w.sock.send({"init", "group1", "env=c", "threads=2", me, extra, "", "description=" + name});
		e.ping_worker(w);
		e.wait([&] { return w.pongs_due == 0; }, "a worker that registered is not answered");
		return w;
	};
	for (int i = 0; i < nw; i++) add_worker(names[i]);
	// the monitor connection comes up some time
	int warm = 0;
	auto warm_up = [&] {
		double end = now_s() + LIMIT;
		Frames over = {"warm", "over", std::to_string(++warm)};
		while (e.monitor.in.empty()) {
			e.ws[0]->sock.send({"progress", "warm-up"});
			for (int k = 0; k < 10 && e.monitor.in.empty(); k++) e.pump(5);
			if (now_s() > end) fail("monitor", "the monitor is not reached");
		}
		e.sync(*e.ws[0]);
		Frames f = {"progress"};
		f.insert(f.end(), over.begin(), over.end());
		e.ws[0]->sock.send(f);
		while (e.monitor_msg("progress") != over) {}
	};
	warm_up();
	bool frozen = false;
	int served = 0, queued = 0, retried = 0, odd = 0, crashes = 0, taken_over = 0;
	auto submit = [&](Sock &cl, const Hdrs &req, const Frames &data, int &job, const std::string &id) {
		Frames f = {"eval", id};
		for (auto &h : req) f.push_back(h.first + "=" + h.second);
		f.push_back("");
		f.insert(f.end(), data.begin(), data.end());
		cl.send(f);
		if (e.client_reply(cl, "to a submission") != Frames{"ack"}) fail("reply", "a submission was not answered with ack first");
		Frames r = e.client_reply(cl, "to a submission");
		if (r == Frames{"accept"}) {
			job = (int) e.jobs.size();
			e.jobs.push_back({id, data});
		} else if (r.size() == 2 && r[0] == "reject") {
			job = -1;
		} else {
			fail("reply", "a submission was answered with " + show(r));
		}
	};
	// the text of the report is up to the broker
	auto any_report = [&](int j, const std::string &status, const std::string &what) {
		auto have = [&] {
			std::unique_lock<std::mutex> l(e.front->m);
			return e.front->reqs.size() > e.posts && e.front->reqs[e.posts].complete;
		};
		e.wait(have, what + " was not reported");
		std::unique_lock<std::mutex> l(e.front->m);
		Req r = e.front->reqs[e.posts++];
		std::string got, why;
		Params q;
		if (!pct(r.target, false, got) || got != "/r/job-status/" + e.jobs[j].id || !parse_form(r.body, q, why) || q["status"] != status) fail("report", what + " was reported as " + hexdump(r.target) + " " + hexdump(r.body));
	};
	auto finish = [&](Worker &w, const std::string &st, const std::string &text) {
		int j = w.cur;
		if (e.jobs[j].claimed) taken_over++;
		Frames f = {"done", e.jobs[j].id, st};
		if (st != "OK") f.push_back(text);
		w.sock.send(f);
		w.cur = -1;
		if (st == "OK") e.expect_post("/r/job-status/" + e.jobs[j].id, {{"status", "OK"}});
		else if (st == "FAILED") e.expect_post("/r/job-status/" + e.jobs[j].id, {{"status", "FAILED"}, {"message", text}});
		else if (e.jobs[j].claimed) {
			any_report(j, "FAILED", "a claimed job that ended with an internal error");
			e.sync(w);
			if (!e.monitor.in.empty() && e.monitor.in.front().size() == 2 && e.monitor.in.front()[0] == e.jobs[j].id) e.monitor.in.pop_front(); // may be
		} else if (++e.jobs[j].fails < e.N) {
			retried++;
			w.q.push_back(j);
		} else {
			any_report(j, "FAILED", "a job that failed too many times");
			Frames m = e.monitor_msg("a job that failed too many times");
			if (m.size() < 2 || m[0] != e.jobs[j].id || m[1] != "FAILED") fail("monitor", "the monitor got " + show(m));
		}
		if (!w.q.empty()) {
			int n = w.q.front();
			w.q.pop_front();
			e.expect_eval(w, n);
		}
		served++;
	};
	auto crash = [&](Src &s) {
		static const std::vector<int> sigs = {SIGKILL, SIGTERM, SIGINT};
		for (auto &w : e.ws)
			if (w->alive) e.sync(*w);
		e.no_more("although nothing is going on");
		int sig = s.pick(sigs);
		ctx.note("the broker is ended by signal " + std::to_string(sig) + " and started again");
		crashes++;
		kill(e.broker.pid, sig);
		waitpid(e.broker.pid, &e.broker.status, 0);
		e.broker.pid = -1;
		frozen = false;
		for (auto &w : e.ws) w->sock.shut();
		for (auto &k : e.clients) k->shut();
		bool early = s.below(2); // they may try to connect before the broker is there
		if (!early) e.broker.start(args, e.dir);
		for (size_t i = 0; i < e.clients.size(); i++) open_client(*e.clients[i], i);
		for (auto &w : e.ws) {
			w->sock.in.clear();
			w->evals.clear();
			w->pongs_due = 0;
			w->max_gap = 0;
			w->sock.open(e.zctx, ZMQ_DEALER, w->name);
			zmq_connect(w->sock.s, url(e.pw).c_str());
		}
		if (early) e.broker.start(args, e.dir);
		for (auto &w : e.ws) {
			w->q.clear(); // what only waited is gone
			w->alive = false;
		}
		bool between = e.ws.size() > 1 && e.ws[0]->cur >= 0 && e.ws[1]->cur >= 0 && s.below(2);
		for (auto &w : e.ws) {
			if (s.chance(70)) { // asked to introduce itself
				w->sock.send({"ping"});
				double end = now_s() + LIMIT;
				while (w->sock.in.empty()) {
					w->sock.drain(false);
					usleep(1000);
					if (!e.broker.running()) fail("died", "the broker process " + e.broker.how() + " when started again");
					if (now_s() > end) fail("missing", "a worker gets no answer from a broker that was started again");
				}
				if (w->sock.in.front() != Frames{"intro"}) fail("intro", "a worker that pings a broker that was started again gets " + show(w->sock.in.front()));
				w->sock.in.pop_front();
			}
			Frames f = {"init", "group1", "env=c", "threads=2", "me=" + w->name, "", "description=" + w->name};
			if (w->cur >= 0) {
				e.jobs[w->cur].claimed = true;
				f.push_back("current_job=" + e.jobs[w->cur].id);
			}
			w->sock.send(f);
			w->last_ping = 0;
			w->alive = true;
			if (between && w == e.ws[0]) {
				// a job is queued behind the first claimed job, then comes a worker that could process it but has a claimed job too
				ctx.label("submission before all are back");
				e.sync(*w);
				int j;
				submit(*e.clients[0], {{"hwgroup", "group1"}}, {"x"}, j, "between" + std::to_string(crashes));
				if (j < 0) fail("reply", "a job was rejected although a worker that came back can process it");
				w->q.push_back(j);
			}
			if (between && w == e.ws[1]) {
				e.sync(*w);
				if (!w->evals.empty()) fail("eval", "a worker that claimed a job was sent " + show(w->evals.front()));
				finish(*e.ws[0], "OK", "");
				finish(*e.ws[0], "OK", "");
			}
		}
		for (auto &w : e.ws) {
			e.ping_worker(*w);
			e.wait([&] { return w->pongs_due == 0; }, "a worker that registered again is not answered");
		}
		e.monitor.in.clear();
		warm_up();
		e.no_more("after the broker was started again");
	};
	int serial = 0;
	static const std::vector<std::string> idforms = {"job", "j/o b", "j&b=1", "\xc5\xbe", "j%41"};
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		Worker &w = *e.ws[s.below((uint32_t) e.ws.size())];
		Sock &cl = *e.clients[s.below((uint32_t) e.clients.size())];
		switch (s.weighted({8, 2, 4, 8, 2, 3, 2, 1, restarts && crashes < 3 ? 4u : 0u, death ? 0u : 1u})) {
		case 8: crash(s); break;
		case 9: {
			// the process is suspended for a while and goes on
			ctx.note("the broker is suspended and resumed");
			ctx.label("suspended");
			kill(e.broker.pid, SIGSTOP);
			usleep(1000 + s.below(60000));
			w.sock.send({"ping"});
			w.pongs_due++;
			usleep(s.below(60000));
			kill(e.broker.pid, SIGCONT);
			e.sync(w);
			break;
		}
		case 0: {
			std::string id = s.pick(idforms) + std::to_string(++serial);
			Frames data;
			int n = s.below(4);
			for (int k = 0; k < n; k++) data.push_back(gen_bytes(s, 50));
			if (s.chance(5)) data.push_back(std::string(300000, 'd'));
			Hdrs req = {{"me", w.name}};
			if (s.below(2)) req.push_back({"env", "c"});
			if (s.below(2)) req.push_back({"hwgroup", s.below(2) ? "group1" : "x|group1"});
			if (s.below(2)) req.push_back({"threads", "2"});
			int j;
			submit(cl, req, data, j, id);
			ctx.note("submit " + hexdump(id) + " for " + hexdump(w.name) + ", " + std::to_string(data.size()) + " frames -> " + (j >= 0 ? "accepted" : "rejected"));
			if ((j >= 0) == frozen) fail("reply", frozen ? "a frozen broker accepted a job" : "a job was rejected although its worker is there");
			if (j < 0) break;
			if (w.cur < 0) e.expect_eval(w, j);
			else {
				w.q.push_back(j);
				queued++;
			}
			break;
		}
		case 1: {
			int j;
			std::string id = "no" + std::to_string(++serial);
			submit(cl, {{"me", "nobody"}}, {"d"}, j, id);
			ctx.note("submit " + id + " for nobody");
			if (j >= 0) fail("reply", "a job was accepted although no worker can process it");
			if (!frozen) {
				Frames m = e.monitor_msg("a rejected job");
				if (m.size() < 2 || m[0] != id || m[1] != "FAILED") fail("monitor", "the monitor got " + show(m) + " about rejected job " + id);
			}
			break;
		}
		case 2: {
			Frames f = {w.cur >= 0 ? e.jobs[w.cur].id : "x"};
			int n = s.below(4);
			for (int k = 0; k < n; k++) f.push_back(gen_bytes(s, 30));
			Frames m = {"progress"};
			m.insert(m.end(), f.begin(), f.end());
			ctx.note("progress of " + hexdump(w.name));
			w.sock.send(m);
			if (e.monitor_msg("progress") != f) fail("monitor", "the monitor did not get the frames " + show(f));
			break;
		}
		case 3: {
			if (w.cur < 0) break;
			std::string st = s.weighted({4, 2}) == 0 ? "OK" : "FAILED";
			if (w.q.empty() && s.chance(25)) st = "INTERNAL_ERROR";
			static const std::vector<std::string> texts = {"it failed", "a&b=c", "100%", ""};
			std::string text = s.pick(texts);
			ctx.note(hexdump(w.name) + " finishes " + hexdump(e.jobs[w.cur].id) + " " + st);
			finish(w, st, text);
			break;
		}
		case 4: {
			bool to = s.below(2);
			ctx.note(to ? "freeze" : "unfreeze");
			cl.send({to ? "freeze" : "unfreeze"});
			if (e.client_reply(cl, "to freeze") != Frames{"ack"}) fail("reply", "freezing was not acknowledged");
			frozen = to;
			break;
		}
		case 5: {
			ctx.note("junk");
			odd++;
			if (e.mon_type == ZMQ_DEALER && s.below(4) == 0) {
				// what the monitor says is of no interest to anybody
				static const std::vector<Frames> said = {{""}, {"ping"}, {"freeze"}, {"eval", "m", "", "x"}, {"init", "group1", "env=c"}, {"done", "m", "OK"}, {"TERMINATE"}, {"progress", "x", "y"}};
				e.monitor.send(s.pick(said));
			}
			switch (s.below(8)) {
			case 0: w.sock.send({"done", "nonsense", "OK"}); break;
			case 1: w.sock.send({gen_bytes(s, 20) + "?", gen_bytes(s, 20)}); break;
			case 2: w.sock.send({"progress"}); break;
			case 3: w.sock.send({"init"}); break;
			case 4: w.sock.send({""}); break;
			case 5: cl.send({"", "x"}); break;
			case 6: cl.send({"eval"}); break;
			default: w.sock.send({"done"}); break;
			}
			e.sync(w);
			cl.send({"get-runtime-stats"});
			Frames r = e.client_reply(cl, "to a request for statistics");
			while (r == Frames{"ack"} || (r.size() >= 1 && r[0] == "reject")) r = e.client_reply(cl, "to a request for statistics");
			break;
		}
		case 6: {
			ctx.note("statistics");
			cl.send({"get-runtime-stats"});
			Frames r = e.client_reply(cl, "to a request for statistics");
			if (r.size() % 2) fail("reply", "statistics are not pairs: " + show(r));
			break;
		}
		default: {
			if (e.ws.size() >= 5) break;
			std::string n = "late" + std::to_string(e.ws.size());
			ctx.note("another worker registers");
			add_worker(n);
		}
		}
	}
	if (restarts && !crashes) crash(c);
	if (restarts && death)
		for (auto &w : e.ws)
			if (w->cur >= 0 && w->q.empty() && e.jobs[w->cur].claimed && e.ws.size() > 1) {
				ctx.note("a worker that claimed a job disconnects");
				ctx.label("claimed job lost");
				w->alive = false;
				w->sock.shut();
				any_report(w->cur, "FAILED", "a claimed job that was lost with its worker");
				Frames m = e.monitor_msg("a claimed job that was lost with its worker");
				if (m.size() < 2 || m[0] != e.jobs[w->cur].id || m[1] != "FAILED") fail("monitor", "the monitor got " + show(m));
				w->cur = -1;
				taken_over++;
				break;
			}
	if (frozen) {
		e.clients[0]->send({"unfreeze"});
		if (e.client_reply(*e.clients[0], "to unfreeze") != Frames{"ack"}) fail("reply", "unfreezing was not acknowledged");
		frozen = false;
	}
	ctx.note("all jobs are finished");
	for (size_t k = 0; k < e.ws.size(); k++)
		while (e.ws[k]->cur >= 0) finish(*e.ws[k], "OK", "");
	e.no_more("although nothing is going on");
	if (duo) {
		// the configured queue manager is the one in use: two workers for the same jobs, one of them gets free
		ctx.note("two workers for the same jobs");
		ctx.label("configured manager told apart");
		Worker &a = add_worker("duo_a", "duo=1"), &b = add_worker("duo_b", "duo=1");
		int j[3];
		Worker *on[2] = {nullptr, nullptr};
		for (int k = 0; k < 3; k++) {
			submit(*e.clients[0], {{"duo", "1"}}, {"x"}, j[k], "duo" + std::to_string(k));
			if (j[k] < 0) fail("reply", "a job was rejected although a worker is there");
			if (k < 2) {
				e.wait([&] { return !a.evals.empty() || !b.evals.empty(); }, "a job was not sent to an idle worker");
				on[k] = a.evals.empty() ? &b : &a;
				e.expect_eval(*on[k], j[k]);
				if (k == 1 && on[0] == on[1]) fail("eval", "a busy worker was sent another job");
				if (k == 1) finish(*on[1], "OK", "");
			}
		}
		if (!multi) {
			// the one queue serves whoever is free
			e.expect_eval(*on[1], j[2]);
			finish(*on[1], "OK", "");
			finish(*on[0], "OK", "");
		} else {
			// it is the turn of the first one, which gets it as soon as it is done with its own
			finish(*on[0], "OK", "");
			e.wait([&] { return !a.evals.empty() || !b.evals.empty(); }, "a queued job was not sent");
			e.expect_eval(*on[0], j[2]);
			finish(*on[0], "OK", "");
		}
		e.no_more("after two workers shared jobs");
	}
	if (outage && nw >= 1) {
		// the frontend fails once: the report is repeated
		int j;
		submit(*e.clients[0], {{"me", e.ws[0]->name}}, {"x"}, j, "outage");
		e.expect_eval(*e.ws[0], j);
		{
			std::unique_lock<std::mutex> l(e.front->m);
			e.front->script = std::vector<Fault>(6000, OK);
			e.front->script[e.front->attempt] = S500;
		}
		ctx.note("the frontend fails once");
		ctx.label("frontend fails");
		e.ws[0]->sock.send({"done", "outage", "OK"});
		e.ws[0]->cur = -1;
		e.expect_post("/r/job-status/outage", {{"status", "OK"}});
		e.expect_post("/r/job-status/outage", {{"status", "OK"}});
		e.no_more("after a failure of the frontend");
	}
	if (death && !restarts) {
		while (e.ws.size() < 2) add_worker("twin");
		int j;
		submit(*e.clients[0], {{"env", "c"}}, {"x", "", std::string("\0y", 2)}, j, "pair");
		if (j < 0) fail("reply", "a job was rejected although a worker is there");
		Worker *x = nullptr;
		e.wait([&] {
			for (auto &w : e.ws)
				if (!w->evals.empty()) x = w.get();
			return x != nullptr;
		}, "a job was not sent to any worker");
		e.expect_eval(*x, j);
		ctx.note("the worker that got the job disconnects");
		ctx.label("worker lost");
		x->alive = false;
		x->sock.shut();
		if (e.N > 1) {
			Worker *y = nullptr;
			e.wait([&] {
				for (auto &w : e.ws)
					if (w->alive && !w->evals.empty()) y = w.get();
				return y != nullptr;
			}, "the job of a lost worker was not sent to another one");
			e.expect_eval(*y, j);
			Frames m = e.monitor_msg("a restarted job");
			if (m.size() < 2 || m[0] != "pair" || m[1] != "ABORTED") fail("monitor", "the monitor got " + show(m) + " about a restarted job");
			y->sock.send({"done", "pair", "OK"});
			e.expect_post("/r/job-status/pair", {{"status", "OK"}});
		} else {
			auto have = [&] {
				std::unique_lock<std::mutex> l(e.front->m);
				return e.front->reqs.size() > e.posts && e.front->reqs[e.posts].complete;
			};
			e.wait(have, "the job of a lost worker was not reported");
			e.posts++;
			Frames m = e.monitor_msg("a job lost with its worker");
			if (m.size() < 2 || m[0] != "pair" || m[1] != "FAILED") fail("monitor", "the monitor got " + show(m));
		}
		e.no_more("after a worker was lost");
	}
	ctx.nontrivial = served >= 3 && (queued || retried || odd);
	if (restarts) ctx.nontrivial = served >= 2 && taken_over;
	if (crashes) ctx.label("restarted");
	if (taken_over) ctx.label("job taken over");
	ctx.label(multi ? "multi" : "single");
	if (queued) ctx.label("queued");
	if (retried) ctx.label("retried");
}

void run_startup(Ctx &ctx, Src &c)
{
	Env e(ctx);
	std::string good = e.config("single");
	std::vector<std::string> args = {"-c", e.dir + "/config.yml"};
	int busy = -1;
	auto occupy = [&](const Port &p) {
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(p.ip);
		a.sin_port = htons(p.no);
		busy = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		int one = 1;
		setsockopt(busy, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		if (bind(busy, (sockaddr *) &a, sizeof a) || listen(busy, 5)) throw Inconclusive{"cannot occupy a port"};
	};
	auto replace = [&](const std::string &a, const std::string &b) {
		size_t i = good.find(a);
		if (i != std::string::npos) good.replace(i, a.size(), b);
	};
	int what = c.below(12);
	static const char *names[] = {"no such file", "not YAML", "not a map", "a port that is not a number", "a port out of range", "unknown queue manager", "client address in use", "worker address in use", "invalid address", "log directory cannot be made", "unknown option", "negative limit"};
	ctx.note(std::string("start with: ") + names[what]);
	switch (what) {
	case 0: args[1] = e.dir + "/nothing.yml"; break;
	case 1: {
		static const std::vector<std::string> t = {"clients: [", "a: b: c", "\t- x", "{", "%%%", "'"};
		good = c.pick(t);
		break;
	}
	case 2: {
		static const std::vector<std::string> t = {"", "- a\n- b\n", "42", "text", "[]"};
		good = c.pick(t);
		break;
	}
	case 3: replace("port: " + std::to_string(e.pc.no), "port: eighty"); break;
	case 4: replace("port: " + std::to_string(c.below(2) ? e.pw.no : e.pm.no), c.below(2) ? "port: 65536" : "port: -1"); break;
	case 5: {
		static const std::vector<std::string> t = {"", "Multi", "multi ", "round-robin", "singl"};
		replace("queue_manager: \"single\"", "queue_manager: \"" + c.pick(t) + "\"");
		break;
	}
	case 6: occupy(e.pc); break;
	case 7: occupy(e.pw); break;
	case 8: replace("address: \"" + (c.below(2) ? e.pc.host : e.pw.host) + "\"", c.below(2) ? "address: \"999.1.1.1\"" : "address: \"not an address\""); break;
	case 9: {
		std::ofstream f(e.dir + "/plain");
		f << "x";
		f.close();
		replace("/log/broker", "/plain/x/broker");
		break;
	}
	case 10: args.push_back("--nonsense"); break;
	default:
		if (c.below(2)) replace("max_liveness: 4", "max_liveness: -4");
		else replace("max_request_failures: 2", "max_request_failures: many");
		break;
	}
	e.write_config(good);
	e.broker.start(args, e.dir);
	double end = now_s() + 30;
	while (e.broker.running()) {
		if (now_s() > end) {
			if (busy >= 0) close(busy);
			fail("startup", std::string("the broker keeps running with: ") + names[what]);
		}
		usleep(2000);
	}
	if (busy >= 0) close(busy);
	if (!WIFEXITED(e.broker.status) || WEXITSTATUS(e.broker.status) == 77) {
		std::ifstream f(e.dir + "/output");
		std::string o((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		fail("crash-at-start", std::string("with ") + names[what] + " the broker crashed: it " + e.broker.how() + "; " + hexdump(o.substr(0, 300)));
	}
	if (WEXITSTATUS(e.broker.status) == 0) fail("startup", std::string("the broker ended successfully with: ") + names[what]);
	ctx.label("refused to start");
	ctx.nontrivial = true;
}

// ====================================================================== C27: partners that are slow, fail or are not there

void run_partners(Ctx &ctx, Src &c)
{
	Env e(ctx);
	e.front.reset(new Server);
	e.front->begin({});
	bool multi = c.below(2);
	bool death = c.chance(12), flood = c.chance(4);
	e.N = 2;
	if (!death) {
		e.liveness = 20;
		e.ping = 1000;
	}
	e.mon_type = c.below(2) ? ZMQ_ROUTER : ZMQ_DEALER;
	e.write_config(e.config(multi ? "multi" : "single"));
	ctx.note(std::string(multi ? "multi" : "single") + " queue manager");
	bool mon_up = false;
	std::vector<Frames> mon_all; // everything the monitor should have been sent
	size_t mon_seen = 0; // received so far; what was sent while it was not there may be missing
	auto mon_open = [&] {
		e.monitor.open(e.zctx, e.mon_type, "recodex-monitor");
		for (int k = 0; zmq_bind(e.monitor.s, url(e.pm).c_str()); k++) {
			if (k > 500) throw Inconclusive{"cannot bind the monitor"};
			usleep(2000);
		}
		mon_up = true;
	};
	// the jobs of a client that does not wait for replies are in no order with the rest
	auto strip = [&] {
		auto deaf = [](const Frames &f) { return f.size() == 2 && f[0].compare(0, 4, "deaf") == 0 && f[1] == "FAILED"; };
		auto &in = e.monitor.in;
		in.erase(std::remove_if(in.begin(), in.end(), deaf), in.end());
	};
	auto mon_check = [&] {
		strip();
		while (!e.monitor.in.empty()) {
			Frames f = e.monitor.in.front();
			e.monitor.in.pop_front();
			size_t k = mon_seen;
			while (k < mon_all.size() && mon_all[k] != f) k++;
			if (k == mon_all.size()) fail("monitor", "the monitor got " + show(f) + ", which it should not have got, or not now");
			mon_seen = k + 1;
		}
	};
	mon_open();
	if (c.below(2)) {
		e.monitor.shut();
		mon_up = false;
	}
	e.broker.start({"-c", e.dir + "/config.yml"}, e.dir);
	int nw = 1 + c.below(3);
	for (int i = 0; i < 2; i++) {
		e.clients.emplace_back(new Sock);
		e.clients.back()->open(e.zctx, ZMQ_DEALER, i ? "client" : "");
		zmq_connect(e.clients.back()->s, url(e.pc).c_str());
	}
	for (int i = 0; i < nw; i++) {
		e.ws.emplace_back(new Worker);
		Worker &w = *e.ws.back();
		w.name = "w" + std::to_string(i);
		w.alive = true;
		w.sock.open(e.zctx, ZMQ_DEALER, w.name);
		zmq_connect(w.sock.s, url(e.pw).c_str());
		w.sock.send({"init", "group1", "env=c", "me=" + w.name});
		e.ping_worker(w);
		e.wait([&] { return w.pongs_due == 0; }, "a worker that registered is not answered");
	}
	std::unique_ptr<Sock> mute;
	std::vector<std::pair<std::string, Params>> due; // the reports, in order
	int troubled = 0, absent = 0, muted = 0;
	double down_since = 0;
	int fails_ahead = 0, downs = 0;
	auto in_trouble = [&] {
		std::unique_lock<std::mutex> l(e.front->m);
		return e.front->holding || down_since > 0 || e.front->attempt < e.front->script.size();
	};
	// a request that is held, and not confirmed before it is released
	auto hold = [&] {
		std::unique_lock<std::mutex> l(e.front->m);
		if (e.front->released == false && e.front->attempt < e.front->script.size()) return;
		e.front->released = false;
		e.front->script.resize(e.front->attempt, OK);
		e.front->script.push_back(HOLD);
	};
	auto front_up = [&] {
		if (down_since <= 0) return;
		double was = now_s() - down_since;
		down_since = 0;
		{
			std::unique_lock<std::mutex> l(e.front->m);
			for (int k = 0; k < 200; k++) {
				e.front->broken = false;
				e.front->listen_on();
				if (!e.front->broken) break;
				usleep(1000);
			}
			if (e.front->broken) throw Inconclusive{"cannot listen again"};
			e.front->poke();
		}
		if (was > 4) throw Inconclusive{"the machine is too slow"};
	};
	int serial = 0;
	auto submit = [&](const Hdrs &req, const std::string &id) {
		Sock &cl = *e.clients[serial % 2];
		Frames f = {"eval", id};
		for (auto &h : req) f.push_back(h.first + "=" + h.second);
		f.push_back("");
		f.push_back("data of " + id);
		cl.send(f);
		if (e.client_reply(cl, "to a submission") != Frames{"ack"}) fail("reply", "a submission was not answered with ack first");
		return e.client_reply(cl, "to a submission");
	};
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		Worker &w = *e.ws[s.below((uint32_t) e.ws.size())];
		// nothing may have to wait for longer than a failing frontend is tried
		if (down_since > 0 && now_s() - down_since > 0.5) front_up();
		switch (s.weighted({8, 8, 4, 4, 3, 2, 1, 1})) {
		case 0: {
			std::string id = "job" + std::to_string(++serial);
			ctx.note("submit " + id + " for " + w.name);
			if (submit({{"me", w.name}}, id) != Frames{"accept"}) fail("reply", "a job was not accepted although its worker is there");
			e.jobs.push_back({id, {"data of " + id}});
			if (w.cur < 0) e.expect_eval(w, (int) e.jobs.size() - 1);
			else w.q.push_back((int) e.jobs.size() - 1);
			break;
		}
		case 1: {
			if (w.cur < 0) break;
			bool ok = s.below(3);
			std::string id = e.jobs[w.cur].id;
			ctx.note(w.name + " finishes " + id + (ok ? " OK" : " FAILED"));
			if (ok) {
				w.sock.send({"done", id, "OK"});
				due.push_back({"/r/job-status/" + id, {{"status", "OK"}}});
			} else {
				w.sock.send({"done", id, "FAILED", "text of " + id});
				due.push_back({"/r/job-status/" + id, {{"status", "FAILED"}, {"message", "text of " + id}}});
			}
			if (in_trouble()) troubled++;
			w.cur = -1;
			if (!w.q.empty()) {
				int j = w.q.front();
				w.q.pop_front();
				e.expect_eval(w, j);
			}
			e.sync(w);
			break;
		}
		case 2: {
			Frames f = {"p" + std::to_string(++serial), "x"};
			ctx.note("progress " + f[0]);
			w.sock.send({"progress", f[0], f[1]});
			mon_all.push_back(f);
			e.sync(w);
			if (!mon_up) absent++;
			break;
		}
		case 3: { // the frontend changes its ways
			switch (s.below(4)) {
			case 0:
				ctx.note("the frontend answers no longer");
				front_up();
				hold();
				break;
			case 1:
				ctx.note("the frontend answers again");
				e.front->released = true;
				break;
			case 2:
				// no report may fail so often that it is given up
				if (downs || fails_ahead || e.front->holding) break;
				downs++;
				ctx.note("the frontend is down");
				{
					std::unique_lock<std::mutex> l(e.front->m);
					e.front->listen_off();
					e.front->poke();
				}
				down_since = now_s();
				break;
			default: {
				static const std::vector<Fault> bad = {S500, S503, RESET, CLOSE_AFTER_REQUEST, S404};
				if (fails_ahead >= 2 || downs) break;
				fails_ahead++;
				Fault f = s.pick(bad);
				ctx.note(std::string("the frontend: ") + fault_name[f]);
				std::unique_lock<std::mutex> l(e.front->m);
				e.front->script.resize(std::max(e.front->attempt, e.front->script.size()), OK);
				e.front->script.push_back(f);
			}
			}
			break;
		}
		case 4:
			if (mon_up) {
				ctx.note("the monitor goes away");
				e.monitor.drain(e.mon_type == ZMQ_ROUTER);
				mon_check();
				e.monitor.shut();
				mon_up = false;
			} else {
				ctx.note("the monitor is there");
				mon_open();
			}
			break;
		case 5: {
			std::string id = "no" + std::to_string(++serial);
			ctx.note("submit " + id + " for nobody");
			Frames r = submit({{"me", "nobody"}}, id);
			if (r.size() != 2 || r[0] != "reject") fail("reply", "a submission no worker can process was answered with " + show(r));
			mon_all.push_back({id, "FAILED"});
			if (!mon_up) absent++;
			break;
		}
		case 6: {
			if (!mute) {
				mute.reset(new Sock);
				mute->open(e.zctx, ZMQ_DEALER, "mute");
				int one = 1;
				zmq_setsockopt(mute->s, ZMQ_RCVHWM, &one, sizeof one);
				zmq_connect(mute->s, url(e.pc).c_str());
			}
			int k = 1 + (int) s.below(400);
			ctx.note("a client that reads nothing asks " + std::to_string(k) + " times");
			for (int n = 0; n < k; n++) mute->send({"get-runtime-stats"});
			muted++;
			e.sync(w);
			break;
		}
		default:
			ctx.note("statistics");
			e.clients[0]->send({"get-runtime-stats"});
			if (e.client_reply(*e.clients[0], "to a request for statistics").size() % 2) fail("reply", "statistics are not pairs");
			for (auto &x : e.ws) e.sync(*x);
		}
		mon_check();
	}
	if (death) {
		// a worker is lost while the frontend does not answer
		while (e.ws[0]->cur >= 0 || !e.ws[0]->q.empty()) {
			std::string id = e.jobs[e.ws[0]->cur].id;
			e.ws[0]->sock.send({"done", id, "OK"});
			due.push_back({"/r/job-status/" + id, {{"status", "OK"}}});
			e.ws[0]->cur = -1;
			if (e.ws[0]->q.empty()) break;
			int j = e.ws[0]->q.front();
			e.ws[0]->q.pop_front();
			e.expect_eval(*e.ws[0], j);
		}
		front_up();
		hold();
		Worker *x = e.ws[0].get();
		e.ws.emplace_back(new Worker);
		Worker &y = *e.ws.back();
		y.name = "other";
		y.alive = true;
		y.sock.open(e.zctx, ZMQ_DEALER, y.name);
		zmq_connect(y.sock.s, url(e.pw).c_str());
		y.sock.send({"init", "group2", "env=c", "me=w0", "me=other"});
		e.ping_worker(y);
		e.wait([&] { return y.pongs_due == 0; }, "a worker that registered is not answered");
		for (int k = 0; k < 2; k++) {
			std::string id = "pair" + std::to_string(k);
			if (submit({{"me", "w0"}}, id) != Frames{"accept"}) fail("reply", "a job was not accepted although its worker is there");
			e.jobs.push_back({id, {"data of " + id}});
			e.wait([&] { return !x->evals.empty() || !y.evals.empty(); }, "a job was not sent to an idle worker");
			e.expect_eval(x->evals.empty() ? y : *x, (int) e.jobs.size() - 1);
		}
		if (x->cur < 0 || y.cur < 0) fail("job", "a busy worker was sent another job");
		ctx.note("w0 disconnects");
		ctx.label("worker lost meanwhile");
		int lost = x->cur;
		x->alive = false;
		x->sock.shut();
		mon_all.push_back({e.jobs[lost].id, "ABORTED"});
		y.sock.send({"done", e.jobs[y.cur].id, "OK"});
		due.push_back({"/r/job-status/" + e.jobs[y.cur].id, {{"status", "OK"}}});
		e.expect_eval(y, lost);
		y.sock.send({"done", e.jobs[lost].id, "OK"});
		due.push_back({"/r/job-status/" + e.jobs[lost].id, {{"status", "OK"}}});
		y.cur = -1;
		e.sync(y);
		troubled++;
	}
	if (flood) {
		Worker &w = *e.ws.back();
		Sock &cl = *e.clients[0];
		int total = 300 + (int) c.below(2400);
		ctx.note(std::to_string(total) + " jobs are finished while the frontend does not answer");
		ctx.label("flood of reports");
		while (w.cur >= 0) { // of the random part
			std::string id = e.jobs[w.cur].id;
			w.sock.send({"done", id, "OK"});
			due.push_back({"/r/job-status/" + id, {{"status", "OK"}}});
			w.cur = -1;
			if (w.q.empty()) break;
			int j = w.q.front();
			w.q.pop_front();
			e.expect_eval(w, j);
		}
		front_up();
		hold();
		if (c.below(2)) {
			Sock deaf;
			deaf.open(e.zctx, ZMQ_DEALER, "deaf");
			int one = 1;
			zmq_setsockopt(deaf.s, ZMQ_RCVHWM, &one, sizeof one);
			zmq_connect(deaf.s, url(e.pc).c_str());
			// the replies repeat the headers, so that no buffer takes them all
			int asks = 2500;
			ctx.note("a client that reads nothing submits " + std::to_string(asks) + " jobs");
			double end = now_s() + LIMIT;
			std::string big = "env=" + std::string(8000, 'b');
			for (int n = 0; n < asks;) {
				std::string id = "deaf" + std::to_string(n);
				if (zmq_send(deaf.s, "eval", 4, ZMQ_DONTWAIT | ZMQ_SNDMORE) >= 0) {
					for (auto f : {&id, &big}) zmq_send(deaf.s, f->data(), f->size(), ZMQ_SNDMORE);
					zmq_send(deaf.s, "", 0, 0);
					n++;
					end = now_s() + LIMIT;
				} else {
					e.pump(1);
					if (now_s() > end) fail("missing", "the broker receives nothing any more from a client that does not read its replies");
				}
				if (n % 100 == 0) {
					e.pump(0);
					mon_check();
				}
			}
			e.sync(w);
		}
		for (int n = 0; n < total;) {
			int first = n;
			for (int k = 0; k < 100 && n < total; k++, n++) cl.send({"eval", "f" + std::to_string(n), "me=" + w.name, "", "d"});
			for (int k = first; k < n; k++) {
				if (e.client_reply(cl, "to a submission") != Frames{"ack"} || e.client_reply(cl, "to a submission") != Frames{"accept"}) fail("reply", "a job was not accepted although its worker is there");
				std::string id = "f" + std::to_string(k);
				e.jobs.push_back({id, {"d"}});
				e.expect_eval(w, (int) e.jobs.size() - 1);
				w.sock.send({"done", id, "OK"});
				w.cur = -1;
				due.push_back({"/r/job-status/" + id, {{"status", "OK"}}});
			}
		}
		e.sync(w);
		troubled += 2;
	}
	ctx.note("the partners are back");
	e.front->released = true;
	front_up();
	if (!mon_up) mon_open();
	// after this it is connected for certain
	{
		Worker *w = nullptr;
		for (auto &x : e.ws)
			if (x->alive) w = x.get();
		double end = now_s() + LIMIT;
		bool there = false;
		for (int n = 0; !there; n++) {
			Frames f = {"warm", std::to_string(n)};
			mon_all.push_back(f);
			w->sock.send({"progress", f[0], f[1]});
			for (int k = 0; k < 10 && !there; k++) {
				e.pump(5);
				for (auto &m : e.monitor.in) there |= m[0] == "warm";
			}
			if (now_s() > end) fail("monitor", "the monitor is not reached after it came back");
		}
		for (int n = 0; n < 3; n++) {
			Frames f = {"last", std::to_string(n)};
			mon_all.push_back(f);
			w->sock.send({"progress", f[0], f[1]});
		}
		e.wait([&] {
			strip();
			return !e.monitor.in.empty() && e.monitor.in.back() == Frames{"last", "2"};
		}, "progress did not reach the monitor");
		std::vector<Frames> tail(e.monitor.in.end() - std::min<size_t>(3, e.monitor.in.size()), e.monitor.in.end());
		if (tail.size() < 3 || tail[0][0] != "last" || tail[1][0] != "last") fail("monitor", "progress did not reach the monitor");
		mon_check();
	}
	auto confirmed = [&] {
		std::unique_lock<std::mutex> l(e.front->m);
		size_t n = 0;
		for (auto &r : e.front->reqs) n += r.complete && is_ok(r.fault);
		return n;
	};
	for (size_t k = confirmed(); k < due.size(); k = confirmed()) e.wait([&] { return confirmed() > k; }, "only " + std::to_string(k) + " of " + std::to_string(due.size()) + " reports were confirmed after the frontend came back, not " + due[k].first);
	for (auto &w : e.ws)
		if (w->alive) e.sync(*w);
	{
		std::unique_lock<std::mutex> l(e.front->m);
		size_t k = 0;
		for (auto &r : e.front->reqs) {
			if (!r.complete) continue;
			std::string got, why;
			Params q;
			if (k == due.size()) fail("report", "the frontend got one more request, " + hexdump(r.target));
			if (r.method != "POST" || !pct(r.target, false, got) || got != due[k].first || !parse_form(r.body, q, why) || q != due[k].second) fail("report", "the frontend got " + hexdump(r.target) + " " + hexdump(r.body) + " where the report " + due[k].first + " was due");
			if (is_ok(r.fault)) k++;
		}
		if (k != due.size()) fail("report", "the frontend did not get " + due[k].first);
	}
	for (auto &w : e.ws)
		if (!w->evals.empty()) fail("extra", "worker " + w->name + " got " + show(w->evals.front()));
	for (auto &k : e.clients)
		if (!k->in.empty()) fail("extra", "a client got " + show(k->in.front()));
	ctx.label(multi ? "multi" : "single");
	if (troubled) ctx.label("completions while the frontend is in trouble");
	if (absent) ctx.label("monitor messages while it is absent");
	if (muted) ctx.label("a client that reads nothing");
	ctx.nontrivial = troubled >= 2 || (troubled && absent);
}

// ====================================================================== C25: the log

struct Line {
	int level;
	std::string text;
	size_t size;
	bool operator==(const Line &o) const { return level == o.level && text == o.text; }
};
const std::vector<std::string> LEVELS = {"trace", "debug", "info", "warning", "error", "critical"};
struct LogFile {
	int no;
	std::string name;
	std::vector<Line> lines;
	size_t size, longest = 0;
};

/** reads the log files with the given base name in a directory, oldest first */
std::vector<LogFile> read_log(const std::string &dir, const std::string &base)
{
	std::vector<LogFile> r;
	DIR *d = opendir(dir.c_str());
	if (!d) return r;
	while (dirent *x = readdir(d)) {
		std::string n = x->d_name;
		if (n == "." || n == "..") continue;
		std::string stem = base.substr(0, base.rfind('.'));
		if (n.compare(0, stem.size(), stem) != 0) {
			closedir(d);
			fail("log-file", "there is a file " + n + " beside the log");
		}
		LogFile f;
		f.name = n;
		f.no = 0;
		for (size_t i = stem.size(); i + 1 < n.size(); i++)
			if (n[i] == '.' && isdigit((unsigned char) n[i + 1])) f.no = atoi(n.c_str() + i + 1);
		if (f.no == 0 && n != base) {
			closedir(d);
			fail("log-file", "the log is not in the configured file " + base + " but in " + n);
		}
		std::ifstream in(dir + "/" + n);
		std::string l;
		f.size = 0;
		while (std::getline(in, l)) {
			f.size += l.size() + 1;
			f.longest = std::max(f.longest, l.size() + 1);
			// [time] [name] [level] text
			size_t a = l.find("] ["), b = a == std::string::npos ? a : l.find("] [", a + 1), e = b == std::string::npos ? b : l.find(']', b + 2);
			if (e == std::string::npos) throw Inconclusive{"the log has an unknown format"};
			std::string lev = l.substr(b + 3, e - b - 3);
			auto it = std::find(LEVELS.begin(), LEVELS.end(), lev);
			if (it == LEVELS.end()) throw Inconclusive{"the log has an unknown format"};
			f.lines.push_back({(int) (it - LEVELS.begin()), l.substr(std::min(l.size(), e + 2)), l.size() + 1});
		}
		r.push_back(f);
	}
	closedir(d);
	std::sort(r.begin(), r.end(), [](const LogFile &a, const LogFile &b) { return a.no > b.no; });
	return r;
}
void remove_log(const std::string &dir)
{
	DIR *d = opendir(dir.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent *x = readdir(d)) names.push_back(x->d_name);
	closedir(d);
	for (auto &n : names)
		if (n != "." && n != "..") unlink((dir + "/" + n).c_str());
	rmdir(dir.c_str());
}

void c25(Ctx &ctx)
{
	Src c = ctx.config();
	static const std::vector<std::string> names = {"off", "critical", "err", "warn", "info", "debug"};
	static const std::vector<int> mins = {6, 5, 4, 3, 2, 1};
	int lev = c.below((uint32_t) names.size());
	bool small = c.below(2);
	size_t max = 200 + c.below(c.below(3) ? 4000 : 300), rot = 1 + c.below(c.below(3) ? 5 : 16);
	static const std::vector<std::string> bases = {"broker", "broker.log", "b", "broker.txt", "log of broker", "b.2.log"};
	std::string base = c.pick(bases);
	int depth = c.below(3);
	bool dflt = !small && c.below(4) == 0;
	ctx.note("level " + names[lev] + (small ? ", at most " + std::to_string(max) + " bytes in " + std::to_string(rot) + " rotations" : "") + ", file " + base + ", " + std::to_string(depth) + " directories to be made");
	struct Item {
		bool worker;
		Frames f;
	};
	std::vector<Item> script;
	std::string last = "job";
	int told = 0;
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		std::string id = "job" + std::to_string(i) + std::string(s.below(40), 'x');
		Frames f;
		bool w = false;
		switch (s.below(16)) {
		case 0: f = {"eval", id, "env=nowhere", "", "data"}; break;
		case 1:
		case 7:
		case 8:
			f = {"eval", id, "hwgroup=h", "", "data"};
			last = id;
			break;
		case 2: f = {"eval", id}; break;
		case 3: f = {"eval", id, "no=end"}; break;
		case 4: f = {s.below(2) ? "freeze" : "unfreeze"}; break;
		case 5: f = {"init", s.below(4) ? "h" : "other", "env=c"}; w = true; break;
		case 6: f = {"init", "h", "env=c", "", "description=text", "current_job=" + id}; w = true; last = id; break;
		case 9: f = {"done", last, "OK"}; w = true; break;
		case 10: f = {"done", last, "FAILED", "text"}; w = true; break;
		case 11: f = {"done", last, "INTERNAL_ERROR", "text"}; w = true; break;
		case 12: {
			static const std::vector<Frames> odd = {{"done"}, {"done", "x"}, {"done", "x", "OK"}, {"init"}, {"progress"}, {"progress", "x", "y"}, {"whatever"}};
			f = s.pick(odd);
			w = true;
			break;
		}
		case 13: f = {"done", last, "SOMETHING"}; w = true; break;
		default: f = {"get-runtime-stats"};
		}
		ctx.note((w ? "worker: " : "client: ") + show(f));
		script.push_back({w, f});
		if (w) told++;
	}
	// the broker may be started again in between, and goes on with the same log
	int again = c.chance(20) ? (int) c.below((uint32_t) script.size() + 1) : -1;
	if (again >= 0) ctx.note("started again before message " + std::to_string(again));
	// the same is done twice: with the settings under test, and with everything logged into one file
	std::vector<LogFile> got, all;
	for (int pass = 0; pass < 2; pass++) {
		Env e(ctx);
		e.front.reset(new Server);
		e.front->begin(std::vector<Fault>(5000, OK));
		e.liveness = 100;
		e.ping = 60000;
		std::string dir = e.dir;
		for (int i = 0; i < depth; i++) dir += "/d" + std::to_string(i);
		std::string cfg = e.config("single");
		size_t at = cfg.find("logger:"), to = cfg.find("queue_manager:");
		std::string log = "logger:\n    file: \"" + dir + "/log/" + base + "\"\n";
		if (pass == 0) {
			log += "    level: \"" + names[lev] + "\"\n";
			if (small) log += "    max-size: " + std::to_string(max) + "\n    rotations: " + std::to_string(rot) + "\n";
		} else if (!dflt) {
			log += "    level: \"debug\"\n";
		} // debug is the default
		cfg.replace(at, to - at, log);
		e.write_config(cfg);
		struct Clean {
			Env &e;
			std::string dir;
			int depth;
			~Clean()
			{
				if (e.broker.pid > 0) {
					kill(e.broker.pid, SIGKILL);
					waitpid(e.broker.pid, &e.broker.status, 0);
					e.broker.pid = -1;
				}
				remove_log(dir + "/log");
				for (int i = depth - 1; i >= 0; i--) {
					rmdir(dir.c_str());
					dir.erase(dir.rfind('/'));
				}
			}
		} clean{e, dir, depth};
		e.monitor.open(e.zctx, ZMQ_DEALER, "recodex-monitor");
		e.mon_type = ZMQ_DEALER;
		e.broker.start({"-c", e.dir + "/config.yml"}, e.dir);
		e.clients.emplace_back(new Sock);
		Sock &cl = *e.clients[0];
		cl.open(e.zctx, ZMQ_DEALER, "client");
		zmq_connect(cl.s, url(e.pc).c_str());
		auto sync = [&] {
			cl.send({"get-runtime-stats"});
			double end = now_s() + LIMIT;
			while (true) {
				e.wait([&] { return !cl.in.empty(); }, "a request for statistics is not answered");
				Frames f = cl.in.front();
				cl.in.pop_front();
				if (f.size() > 4) break;
				if (now_s() > end) fail("missing", "a request for statistics is not answered");
			}
		};
		sync();
		Sock wk;
		wk.open(e.zctx, ZMQ_DEALER, "worker");
		zmq_connect(wk.s, url(e.pw).c_str());
		// in lock step, so that both runs are the same
		auto wsync = [&] {
			wk.send({"ping"});
			double end = now_s() + LIMIT;
			while (true) {
				e.pump(1);
				wk.drain(false);
				while (!wk.in.empty()) {
					Frames f = wk.in.front();
					wk.in.pop_front();
					if (f == Frames{"pong"} || f == Frames{"intro"}) return;
				}
				if (now_s() > end) fail("missing", "a ping is not answered");
			}
		};
		for (int i = 0; i <= (int) script.size(); i++) {
			if (i == again) {
				sync();
				kill(e.broker.pid, SIGTERM);
				waitpid(e.broker.pid, &e.broker.status, 0);
				e.broker.pid = -1;
				e.broker.start({"-c", e.dir + "/config.yml"}, e.dir);
				sync();
				wsync();
			}
			if (i == (int) script.size()) break;
			auto &it = script[i];
			if (it.worker) {
				wk.send(it.f);
				wsync();
			} else {
				cl.send(it.f);
				if (it.f[0] != "get-runtime-stats") {
					sync();
					continue;
				}
				e.wait([&] { return !cl.in.empty() && cl.in.back().size() > 4; }, "a request for statistics is not answered");
				cl.in.clear();
			}
		}
		sync();
		if (!e.broker.running()) fail("died", "the broker process " + e.broker.how());
		(pass ? all : got) = read_log(dir + "/log", base);
		// addresses are different every time
		for (auto &f : pass ? all : got)
			for (auto &l : f.lines) {
				size_t i = l.text.find("tcp://");
				if (i != std::string::npos) l.text.erase(i);
			}
	}
	auto flat = [](std::vector<LogFile> &v) {
		std::vector<Line> r;
		for (auto &f : v) r.insert(r.end(), f.lines.begin(), f.lines.end());
		return r;
	};
	auto mine = flat(got), full = flat(all);
	bool started = false;
	auto starts = [](const std::vector<Line> &v) {
		return std::count_if(v.begin(), v.end(), [](const Line &l) { return l.text.find("Started ReCodEx broker") != std::string::npos; });
	};
	for (size_t i = 0; i < std::min<size_t>(full.size(), 4); i++) started |= full[i].text.find("Started ReCodEx broker") != std::string::npos;
	if (starts(full) != (again >= 0 ? 2 : 1)) fail("log-start", "the log has " + std::to_string(starts(full)) + " lines saying that the broker was started");
	if (!started) fail("log-start", "the log does not begin with a line saying that the broker was started");
	if (got.empty()) fail("log-file", "there is no log file");
	for (auto &l : mine)
		if (l.level < mins[lev]) fail("log-level", "at level " + names[lev] + " the log has a " + LEVELS[l.level] + " message: " + l.text);
	// what is said at the start depends on the level
	auto body = [&](const std::vector<Line> &v, int min) {
		std::vector<Line> r;
		for (auto &l : v)
			if (l.level >= min && l.text.find("Started ReCodEx") == std::string::npos && l.text.find("-----") == std::string::npos) r.push_back(l);
		return r;
	};
	auto want = body(full, mins[lev]), have = body(mine, mins[lev]);
	size_t longest = 0;
	for (auto &f : got) longest = std::max(longest, f.longest);
	if (!small) {
		if (got.size() != 1) fail("log-rotation", "there are " + std::to_string(got.size()) + " log files");
		if (lev != 0) {
			started = false;
			for (size_t i = 0; i < std::min<size_t>(mine.size(), 4); i++) started |= mine[i].text.find("Started ReCodEx broker") != std::string::npos;
			if (!started) fail("log-start", "at level " + names[lev] + " the log does not begin with a line saying that the broker was started");
			if (starts(mine) != (again >= 0 ? 2 : 1)) fail("log-start", "at level " + names[lev] + " the log has " + std::to_string(starts(mine)) + " lines saying that the broker was started");
		}
		if (have != want) fail("log-content", "at level " + names[lev] + " the log has " + std::to_string(have.size()) + " messages where there should be " + std::to_string(want.size()));
	} else {
		if (got.size() > rot + 1) fail("log-rotation", "there are " + std::to_string(got.size()) + " log files with " + std::to_string(rot) + " rotations");
		for (auto &f : got)
			if (f.size > std::max(max, longest)) fail("log-size", "a log file has " + std::to_string(f.size) + " bytes, at most " + std::to_string(max) + " were configured");
		if (have.size() > want.size() || !std::equal(have.rbegin(), have.rend(), want.rbegin())) fail("log-content", "the log is not the end of what was to be logged");
		// nothing is thrown away that there is room for
		size_t lost = want.size() - have.size();
		if (lost && got.size() < rot + 1) fail("log-content", std::to_string(lost) + " messages are missing although there are only " + std::to_string(got.size()) + " files");
	}
	if (got.size() > 1) ctx.label("rotated");
	if (got.size() > 6) ctx.label("rotated more than five times");
	if (again >= 0) ctx.label("started again");
	if (told) ctx.label("worker talked");
	ctx.label("level " + names[lev]);
	ctx.nontrivial = !want.empty() && want.size() < full.size() && script.size() >= 3;
}

void c23(Ctx &ctx)
{
	Src c = ctx.config();
	if (c.weighted({4, 1}) == 1) run_startup(ctx, c);
	else run_service(ctx, c);
}

} // namespace

int main(int argc, char **argv)
{
	pbt::Property p;
	p.id = "C23";
	p.run = c23;
	p.rule = "The real broker program is started with a generated configuration and driven over TCP by clients, workers, a monitor and a "
			 "frontend in the harness: random submissions, completions, progress, freezing, junk, late workers, failures of the "
			 "frontend and loss of a worker, in lock step with a model of who has which job; one case in five starts it with "
			 "something unusable. Non-trivial: at least three completions and a queued or retried job or junk, or a refused start.";
	p.min_ops = 4;
	p.max_ops = 40;
	p.width = 16;
	p.cfg_width = 12;
	p.threads = true;
	p.confirm = 6;
	p.case_timeout = 120;
	pbt::Property q = p;
	q.id = "C25";
	q.run = c25;
	q.rule = "The real broker program is started with a random log level, log file (directories missing), size and number of rotations "
			 "and is sent a random sequence of submissions, registrations, completions, malformed messages, freezing and statistics requests; "
			 "the log is compared with that of a second run of the same with everything logged into one file. Non-trivial: at least "
			 "three messages, and a level that lets some but not all messages through.";
	q.min_ops = 1;
	q.max_ops = 40;
	q.width = 4;
	q.cfg_width = 12;
	pbt::Property r = p;
	r.id = "C26";
	r.run = [](Ctx &ctx) {
		Src c = ctx.config();
		run_service(ctx, c, true);
	};
	r.rule = "As for C23, the real broker program is driven over TCP by a random history, in which it is killed at random points "
			 "(between messages) and started again with the same configuration up to three times; workers are asked to introduce "
			 "themselves and claim the jobs they process. Non-trivial: at least two completions, one of them of a job that was "
			 "claimed after a restart.";
	pbt::Property t = p;
	t.id = "C27";
	t.run = [](Ctx &ctx) {
		Src c = ctx.config();
		run_partners(ctx, c);
	};
	t.rule = "The real broker program is driven over TCP by a random history of submissions, completions and progress messages during "
			 "which the frontend stops answering, fails, is down and comes back, the monitor goes away and comes back, and a client "
			 "reads none of its replies; every reply to clients and workers is awaited while the trouble lasts, and what reached the "
			 "frontend and the monitor is compared with what was due. Non-trivial: at least two completions while the frontend was "
			 "in trouble, or one and a message for the monitor while it was away.";
	return pbt::run_main(argc, argv, {p, q, r, t});
}
