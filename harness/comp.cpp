// C07 (rotation), C15 (arbitrary messages), C16 (capability matching)
#include "world.hpp"
#include "clock.hpp"
#include "gen.hpp"
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <deque>
#include <memory>

using pbt::Ctx;
using pbt::fail;
using pbt::hexdump;
using pbt::Src;

namespace {

// ====================================================================== C07: reference model of rotation

struct MW {
	int id;
	Caps caps;
	long chosen = 0; // 0: never
	int cur = -1;
	std::deque<int> q;
};
struct Model {
	std::vector<MW> ws;
	long clock = 0;
	MW *get(int id)
	{
		for (auto &w : ws)
			if (w.id == id) return &w;
		return nullptr;
	}
};
/** a possible course of one step: the state reached and the jobs sent */
struct Course {
	Model m;
	std::vector<std::pair<int, int>> sent; // job, worker
	std::vector<int> refused;
};

/** deal a job; several courses are possible only if several workers have never been chosen */
void deal(const Course &c, int job, const Hdrs &req, std::vector<Course> &out)
{
	long best = -1;
	std::vector<int> pick;
	for (auto &w : c.m.ws) {
		if (!ref_match(w.caps, req)) continue;
		if (best == -1 || w.chosen < best) {
			best = w.chosen;
			pick.clear();
		}
		if (w.chosen == best) pick.push_back(w.id);
	}
	if (pick.empty()) {
		Course n = c;
		n.refused.push_back(job);
		out.push_back(n);
		return;
	}
	for (int id : pick) {
		Course n = c;
		MW *w = n.m.get(id);
		w->chosen = ++n.m.clock;
		if (w->cur == -1) {
			w->cur = job;
			n.sent.push_back({job, id});
		} else {
			w->q.push_back(job);
		}
		out.push_back(n);
	}
}
void next_job(Course &c, int id)
{
	MW *w = c.m.get(id);
	if (w->cur != -1 || w->q.empty()) return;
	w->cur = w->q.front();
	w->q.pop_front();
	c.sent.push_back({w->cur, id});
}

const size_t MAX_WORLDS = 64;

void c07_component(Ctx &ctx)
{
	multi_queue_manager mgr;
	std::vector<Model> worlds(1);
	struct J {
		request_ptr r;
		Hdrs req;
	};
	std::vector<J> jobs;
	std::map<int, worker_ptr> ws;
	std::map<int, Caps> caps;
	int next = 0;
	size_t dealt = 0, queued = 0, maxw = 0;
	auto wid = [&](const worker_ptr &p) {
		for (auto &x : ws)
			if (x.second == p) return x.first;
		return -1;
	};
	auto jid = [&](const request_ptr &p) {
		if (!p) return -1;
		for (size_t i = 0; i < jobs.size(); i++)
			if (jobs[i].r == p) return (int) i;
		return -2;
	};
	auto new_job = [&](const Hdrs &req) {
		request::headers_t h;
		for (auto &x : req) h.emplace(x.first, x.second);
		std::string id = "job" + std::to_string(jobs.size());
		jobs.push_back({std::make_shared<request>(h, request::metadata_t{}, job_request_data(id, {})), req});
		return (int) jobs.size() - 1;
	};
	auto keep = [&](std::vector<Course> cs, std::function<bool(Course &)> ok, const std::string &what) {
		std::vector<Model> n;
		for (auto &c : cs)
			if (ok(c) && n.size() < MAX_WORLDS) n.push_back(c.m);
		if (n.empty()) fail("rotation", what);
		worlds = n;
	};
	auto each = [&](std::function<void(Course &)> f) {
		std::vector<Course> cs;
		for (auto &m : worlds) {
			Course c{m, {}, {}};
			f(c);
			cs.push_back(c);
		}
		return cs;
	};
	auto enqueue = [&](int j, const char *why) {
		std::vector<Course> cs;
		for (auto &m : worlds) deal(Course{m, {}, {}}, j, jobs[j].req, cs);
		auto r = mgr.enqueue_request(jobs[j].r);
		int to = r.assigned_to ? wid(r.assigned_to) : -1;
		ctx.note(std::string(why) + " job" + std::to_string(j) + " " + show(jobs[j].req) + " -> " + (r.enqueued ? to >= 0 ? "sent to w" + std::to_string(to) : "queued" : "refused"));
		dealt += r.enqueued;
		queued += r.enqueued && to < 0;
		keep(cs, [&](Course &c) {
			if (!c.refused.empty()) return !r.enqueued;
			if (!r.enqueued) return false;
			if (c.sent.empty()) return r.assigned_to == nullptr;
			return to == c.sent[0].second;
		}, "job" + std::to_string(j) + " was " + (r.enqueued ? to >= 0 ? "sent to w" + std::to_string(to) : "queued" : "refused") + ", which is not what rotation among the capable workers gives");
	};

	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		std::vector<int> ids;
		for (auto &x : ws) ids.push_back(x.first);
		std::vector<int> busy;
		for (int id : ids)
			if (worlds[0].get(id)->cur != -1) busy.push_back(id);
		size_t op = i == 0 ? 0 : s.weighted({4, 12, 5, 3, 2});
		if (ws.size() >= 7 && op == 0) op = 1;
		maxw = std::max(maxw, ws.size());
		if (op == 0) {
			int id = next++;
			Caps c = gen_caps(s, "w" + std::to_string(id));
			if (s.chance(40)) c = Caps{"g1", {{"env", "c"}}};
			request::headers_t h;
			for (auto &x : c.headers) h.emplace(x.first, x.second);
			auto p = std::make_shared<worker>("w" + std::to_string(id), c.hwgroup, h);
			int cur = s.chance(20) ? new_job({}) : -1;
			ws[id] = p;
			caps[id] = c;
			ctx.note("add w" + std::to_string(id) + " " + c.hwgroup + " " + show(c.headers) + (cur >= 0 ? " busy with job" + std::to_string(cur) : ""));
			auto r = mgr.add_worker(p, cur >= 0 ? jobs[cur].r : nullptr);
			if (r) fail("add-worker", "a new worker was assigned a job although no job can be queued for it");
			for (auto &m : worlds) m.ws.push_back(MW{id, c, 0, cur, {}});
		} else if (op == 1) {
			Hdrs req = !ids.empty() && s.chance(85) ? gen_req_for(s, caps[ids[s.below((uint32_t) ids.size())]]) : gen_req_any(s);
			if (s.chance(40)) req.clear();
			enqueue(new_job(req), "enqueue");
		} else if (op == 2 && !busy.empty()) {
			int id = busy[s.below((uint32_t) busy.size())];
			auto cs = each([&](Course &c) {
				c.m.get(id)->cur = -1;
				next_job(c, id);
			});
			int got = jid(mgr.worker_finished(ws[id]));
			ctx.note("w" + std::to_string(id) + " finished -> job" + std::to_string(got));
			keep(cs, [&](Course &c) { return got == (c.sent.empty() ? -1 : c.sent[0].first); }, "w" + std::to_string(id) + " finished and was given job" + std::to_string(got) + " (-1: none) instead of the next job queued for it");
		} else if (op == 3 && !busy.empty()) {
			int id = busy[s.below((uint32_t) busy.size())];
			int was = worlds[0].get(id)->cur;
			int got = jid(mgr.worker_cancelled(ws[id]));
			ctx.note("w" + std::to_string(id) + " cancelled job" + std::to_string(got));
			for (auto &m : worlds) {
				was = m.get(id)->cur;
				m.get(id)->cur = -1;
			}
			if (got != was && worlds.size() == 1) fail("cancel", "cancelling returned the wrong job");
			if (mgr.get_current_request(ws[id]) != nullptr) fail("cancel", "a worker is still busy after its job was cancelled");
			bool again = s.chance(50);
			if (again && got >= 0) enqueue(got, "enqueue again");
			if (mgr.get_current_request(ws[id]) == nullptr) {
				auto cs = each([&](Course &c) { next_job(c, id); });
				int g = jid(mgr.assign_request(ws[id]));
				ctx.note("assign to w" + std::to_string(id) + " -> job" + std::to_string(g));
				keep(cs, [&](Course &c) { return g == (c.sent.empty() ? -1 : c.sent[0].first); }, "w" + std::to_string(id) + " was given job" + std::to_string(g) + " (-1: none) instead of the next job queued for it");
			}
		} else if (op == 4 && !ids.empty()) {
			int id = ids[s.below((uint32_t) ids.size())];
			auto l = mgr.worker_terminated(ws[id]);
			std::vector<int> got;
			for (auto &x : *l) got.push_back(jid(x));
			std::string g;
			for (int x : got) g += " job" + std::to_string(x);
			ctx.note("w" + std::to_string(id) + " lost, hands back:" + g);
			std::vector<Course> cs;
			for (auto &m : worlds) cs.push_back({m, {}, {}});
			keep(cs, [&](Course &c) {
				MW *w = c.m.get(id);
				std::vector<int> want;
				if (w->cur != -1) want.push_back(w->cur);
				want.insert(want.end(), w->q.begin(), w->q.end());
				for (auto it = c.m.ws.begin(); it != c.m.ws.end(); ++it)
					if (it->id == id) {
						c.m.ws.erase(it);
						break;
					}
				return want == got;
			}, "the jobs handed back by a lost worker are not its current job followed by its queue in order");
			ws.erase(id);
			caps.erase(id);
			if (s.chance(60))
				for (int j : got) enqueue(j, "enqueue again");
		}
		// what the manager says about itself
		size_t cnt = mgr.get_queued_request_count();
		std::map<int, int> cur;
		for (auto &x : ws) cur[x.first] = jid(mgr.get_current_request(x.second));
		std::vector<Course> cs;
		for (auto &m : worlds) cs.push_back({m, {}, {}});
		keep(cs, [&](Course &c) {
			size_t n = 0;
			for (auto &w : c.m.ws) {
				n += w.q.size();
				if (cur[w.id] != w.cur) return false;
			}
			return n == cnt;
		}, "the queue manager's own account (queued jobs or current jobs) does not match what happened to the jobs");
	}
	ctx.nontrivial = maxw >= 3 && dealt >= 4 && queued > 0;
	if (queued) ctx.label("queued behind a busy worker");
	ctx.label("queue manager");
}

void c07_broker(Ctx &ctx)
{
	Src cs0 = ctx.config();
	cs0.raw();
	size_t N = 1 + cs0.below(3);
	YAML::Node y;
	y["workers"]["max_liveness"] = 1;
	y["workers"]["max_request_failures"] = N;
	y["workers"]["ping_interval"] = 1000;
	auto cfg = std::make_shared<broker_config>(y);
	auto reg = std::make_shared<worker_registry>();
	auto mgr = std::make_shared<multi_queue_manager>();
	broker_handler h(cfg, reg, mgr, nullptr);
	std::vector<Model> worlds(1);
	struct J {
		Hdrs req;
		size_t fails = 0;
	};
	std::vector<J> jobs;
	std::map<int, Caps> ws;
	int next = 0;
	size_t dealt = 0, queued = 0, maxw = 0, losses = 0;
	auto name = [](int id) { return "w" + std::to_string(id); };
	auto call = [&](const std::string &key, const std::string &ident, const Frames &f) {
		std::vector<std::pair<int, int>> sent;
		try {
			h.on_request(message_container(key, ident, f), [&](const message_container &m) {
				if (m.key != broker_connect::KEY_WORKERS || m.data.size() < 2 || m.data[0] != "eval") return;
				sent.push_back({atoi(m.data[1].c_str()), atoi(m.identity.c_str() + 1)});
				ctx.note("      -> job " + m.data[1] + " to " + m.identity);
			});
		} catch (const std::exception &e) {
			fail("died", std::string("the broker threw: ") + e.what());
		}
		return sent;
	};
	auto keep = [&](const std::vector<Course> &cs, std::vector<std::pair<int, int>> sent) {
		std::sort(sent.begin(), sent.end());
		std::vector<Model> n;
		std::string want;
		for (auto &c : cs) {
			auto x = c.sent;
			std::sort(x.begin(), x.end());
			if (want.empty() || want.size() < 400) {
				want += want.empty() ? "" : " or ";
				for (auto &p : x) want += "job " + std::to_string(p.first) + " to w" + std::to_string(p.second) + " ";
				if (x.empty()) want += "nothing";
			}
			if (x == sent && n.size() < MAX_WORLDS) n.push_back(c.m);
		}
		std::string got;
		for (auto &p : sent) got += "job " + std::to_string(p.first) + " to w" + std::to_string(p.second) + " ";
		if (n.empty()) fail("rotation", "the broker sent " + (got.empty() ? std::string("nothing") : got) + "; dealing in rotation gives " + want);
		worlds = n;
	};
	auto start = [&]() {
		std::vector<Course> cs;
		for (auto &m : worlds) cs.push_back({m, {}, {}});
		return cs;
	};
	auto deal_all = [&](std::vector<Course> cs, int j) {
		std::vector<Course> r;
		for (auto &c : cs) deal(c, j, jobs[j].req, r);
		if (r.size() > MAX_WORLDS) throw pbt::Inconclusive{"too many ties"};
		return r;
	};
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		std::vector<int> ids, busy;
		for (auto &x : ws) ids.push_back(x.first);
		for (int id : ids)
			if (worlds[0].get(id)->cur >= 0) busy.push_back(id);
		size_t op = i == 0 ? 0 : s.weighted({4, 12, 4, 2, 3, 2});
		if (ws.size() >= 6 && op == 0) op = 1;
		maxw = std::max(maxw, ws.size());
		if (op == 0) {
			int id = next++;
			Caps c = gen_caps(s, name(id));
			if (s.chance(40)) c = Caps{"g1", {{"env", "c"}}};
			Frames f = {"init", c.hwgroup};
			for (auto &x : c.headers) f.push_back(x.first + "=" + x.second);
			bool claim = s.chance(20);
			if (claim) {
				f.push_back("");
				f.push_back("current_job=claimed" + name(id));
			}
			ctx.note(name(id) + ": " + show(f));
			auto sent = call(broker_connect::KEY_WORKERS, name(id), f);
			ws[id] = c;
			auto cs = start();
			for (auto &x : cs) x.m.ws.push_back(MW{id, c, 0, claim ? -100 - id : -1, {}});
			keep(cs, sent);
		} else if (op == 1) {
			Hdrs req = !ids.empty() && s.chance(85) ? gen_req_for(s, ws[ids[s.below((uint32_t) ids.size())]]) : gen_req_any(s);
			if (s.chance(40)) req.clear();
			int j = (int) jobs.size();
			jobs.push_back({req});
			Frames f = {"eval", std::to_string(j)};
			for (auto &x : req) f.push_back(x.first + "=" + x.second);
			f.push_back("");
			ctx.note("client: eval " + std::to_string(j) + " " + show(req));
			auto sent = call(broker_connect::KEY_CLIENTS, "client", f);
			dealt++;
			queued += sent.empty();
			keep(deal_all(start(), j), sent);
		} else if (op == 2 && !ids.empty()) {
			// any busy worker, also one with a claimed job
			std::vector<int> b;
			for (int id : ids)
				if (worlds[0].get(id)->cur != -1) b.push_back(id);
			if (b.empty()) continue;
			int id = b[s.below((uint32_t) b.size())];
			int cur = worlds[0].get(id)->cur;
			bool amb = false;
			for (auto &m : worlds) amb |= m.get(id)->cur != cur;
			if (amb) continue;
			std::string jn = cur < 0 ? "claimed" + name(id) : std::to_string(cur);
			bool ok = s.chance(70);
			Frames f = {"done", jn, ok ? "OK" : "FAILED"};
			if (!ok) f.push_back("failed");
			ctx.note(name(id) + ": " + show(f));
			auto sent = call(broker_connect::KEY_WORKERS, name(id), f);
			auto cs = start();
			for (auto &c : cs) {
				c.m.get(id)->cur = -1;
				next_job(c, id);
			}
			keep(cs, sent);
		} else if (op == 3 && !busy.empty()) {
			int id = busy[s.below((uint32_t) busy.size())];
			int cur = worlds[0].get(id)->cur;
			bool amb = false;
			for (auto &m : worlds) amb |= m.get(id)->cur != cur;
			if (amb) continue;
			ctx.note(name(id) + ": internal error in job " + std::to_string(cur));
			auto sent = call(broker_connect::KEY_WORKERS, name(id), {"done", std::to_string(cur), "INTERNAL_ERROR", "x"});
			auto cs = start();
			for (auto &c : cs) c.m.get(id)->cur = -1;
			if (++jobs[cur].fails < N) cs = deal_all(cs, cur);
			for (auto &c : cs) next_job(c, id);
			keep(cs, sent);
		} else if (op == 4 && !ids.empty()) {
			int id = ids[s.below((uint32_t) ids.size())];
			for (int o : ids) call(broker_connect::KEY_WORKERS, name(o), {"ping"});
			ctx.note(name(id) + " falls silent");
			auto sent = call(broker_connect::KEY_TIMER, "", {"600"});
			for (int o : ids)
				if (o != id) call(broker_connect::KEY_WORKERS, name(o), {"ping"});
			if (!sent.empty()) fail("rotation", "a tick made the broker send a job");
			sent = call(broker_connect::KEY_TIMER, "", {"600"});
			losses++;
			std::vector<Course> cs;
			std::set<int> failed;
			for (auto &m : worlds) {
				MW w = *Model(m).get(id);
				std::vector<Course> l = {{m, {}, {}}};
				auto &v = l[0].m.ws;
				for (auto it = v.begin(); it != v.end(); ++it)
					if (it->id == id) {
						v.erase(it);
						break;
					}
				if (w.cur >= 0) {
					if (jobs[w.cur].fails + 1 < N) l = deal_all(l, w.cur);
					failed.insert(w.cur);
				}
				for (int j : w.q) l = deal_all(l, j);
				cs.insert(cs.end(), l.begin(), l.end());
				if (cs.size() > MAX_WORLDS) throw pbt::Inconclusive{"too many ties"};
			}
			if (failed.size() > 1) throw pbt::Inconclusive{"ambiguous job"};
			for (int j : failed) jobs[j].fails++;
			ws.erase(id);
			keep(cs, sent);
		} else if (op == 5) {
			ctx.note("tick");
			auto sent = call(broker_connect::KEY_TIMER, "", {"0"});
			keep(start(), sent);
		}
	}
	ctx.nontrivial = maxw >= 3 && dealt >= 4 && queued > 0;
	if (losses) ctx.label("worker lost");
	if (queued) ctx.label("queued behind a busy worker");
	ctx.label("broker");
}

// ====================================================================== C15

struct Msg {
	std::string key, ident;
	Frames f;
	bool junk = false;
	bool as_ping = false; // in the undisturbed run a ping stands in (it shows life just the same)
};

struct Rig {
	std::shared_ptr<worker_registry> reg = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	Rig(bool multi, size_t N, size_t L, long interval)
	{
		YAML::Node y;
		y["workers"]["max_liveness"] = L;
		y["workers"]["max_request_failures"] = N;
		y["workers"]["ping_interval"] = interval;
		if (multi) q = std::make_shared<multi_queue_manager>();
		else q = std::make_shared<single_queue_manager<>>();
		h = std::make_unique<broker_handler>(std::make_shared<broker_config>(y), reg, q, nullptr);
	}
	std::vector<message_container> call(const Msg &m)
	{
		std::vector<message_container> out;
		try {
			h->on_request(message_container(m.key, m.ident, m.f), [&](const message_container &o) { out.push_back(o); });
		} catch (const std::exception &e) {
			fail("died", "message " + show(m.f) + " to " + m.key + " made the broker throw (which ends it): " + e.what());
		} catch (...) {
			fail("died", "message " + show(m.f) + " to " + m.key + " made the broker throw (which ends it)");
		}
		for (auto &o : out)
			if (o.data.empty()) fail("empty-message", "message " + show(m.f) + " to " + m.key + " made the broker send a message without frames to " + o.key);
		return out;
	}
};

std::string odd_frame(Src &s)
{
	static const std::vector<std::string> odd = {"", "=", "==", "a", "threads", "threads=", "threads=many", "threads=99999999999999999999999",
		"threads=-1", "threads=1", "threads= 3", "threads=0x10", "threads=4|8", "hwgroup", "hwgroup=", "hwgroup=|", "hwgroup=g1", "hwgroup=||g1", "env=c", "env=", "=env",
		"meta.", "meta.x", "meta.=", "meta.x=1", "OK", "FAILED", "INTERNAL_ERROR", "current_job=", "current_job=j1", "current_job", "description=",
		"description", "eval", "done", "init", "ping", "progress", "freeze", "TERMINATE", "intro", "ack", "j1", "j2", "j3"};
	switch (s.below(5)) {
	case 0: return gen_bytes(s, 40);
	case 1: return std::string(1 + s.below(3000), (char) s.below(256));
	case 2: {
		static const std::vector<std::string> names = {"description", "current_job", "threads", "hwgroup", "env", "meta.x", ""};
		std::string n = s.pick(names) + "=";
		if (s.below(2)) return n + gen_bytes(s, 40);
		return n + std::string(s.below(3000), (char) (s.below(4) ? '0' + s.below(60) : s.below(256)));
	}
	default: return s.pick(odd);
	}
}

void c15_robust(Ctx &ctx)
{
	Src c = ctx.config();
	c.raw();
	bool multi = c.below(2);
	long interval = c.chance(50) ? 10 : 1000;
	Rig r(multi, 1 + c.below(3), 1 + c.below(3), interval);
	ctx.note(std::string("broker: ") + (multi ? "multi" : "single"));
	std::map<std::string, std::string> running; // worker -> job it was sent last
	static const std::vector<std::string> idents = {"w1", "w2", std::string("\x00\xff", 2), "w1x", "stranger"};
	int junk = 0, busy_seen = 0, serial = 0;
	auto go = [&](Msg m) {
		ctx.note(m.key + " " + hexdump(m.ident) + ": " + show(m.f));
		auto out = r.call(m);
		if (m.key == broker_connect::KEY_WORKERS && m.f[0] == "done" && m.f.size() > 1 && running[m.ident] == m.f[1]) running.erase(m.ident);
		for (auto &o : out)
			if (o.key == broker_connect::KEY_WORKERS && o.data[0] == "eval" && o.data.size() > 1) running[o.identity] = o.data[1];
		busy_seen += !running.empty();
		return out;
	};
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		Msg m;
		m.ident = idents[s.below((uint32_t) idents.size())];
		switch (s.weighted({6, 6, 5, 5, 4, 4, 3, 2})) {
		case 0: { // a registration, more or less
			m.key = broker_connect::KEY_WORKERS;
			Caps k = gen_caps(s, m.ident);
			m.f = {"init", k.hwgroup};
			for (auto &x : k.headers) m.f.push_back(x.first + "=" + x.second);
			break;
		}
		case 1: { // a submission, more or less
			m.key = broker_connect::KEY_CLIENTS;
			m.f = {"eval", "j" + std::to_string(++serial)};
			for (auto &x : gen_req_any(s)) if (s.chance(50)) m.f.push_back(x.first + "=" + x.second);
			m.f.push_back("");
			m.f.push_back("data");
			break;
		}
		case 2: { // a completion, more or less
			m.key = broker_connect::KEY_WORKERS;
			static const std::vector<std::string> st = {"OK", "FAILED", "INTERNAL_ERROR"};
			m.f = {"done", running.count(m.ident) ? running[m.ident] : "j1", s.pick(st)};
			if (m.f[2] != "OK") m.f.push_back("text");
			break;
		}
		case 3:
			m.key = broker_connect::KEY_WORKERS;
			static const std::vector<std::string> wc = {"progress", "ping", "init", "done", "bogus", ""};
			m.f = {s.pick(wc)};
			break;
		case 4:
			m.key = broker_connect::KEY_CLIENTS;
			static const std::vector<std::string> cc = {"eval", "freeze", "unfreeze", "get-runtime-stats", "bogus", ""};
			m.f = {s.pick(cc)};
			break;
		case 5: {
			m.key = s.below(2) ? broker_connect::KEY_WORKERS : broker_connect::KEY_CLIENTS;
			int k = 1 + s.below(6);
			for (int q = 0; q < k; q++) m.f.push_back(odd_frame(s));
			break;
		}
		case 6:
			m.key = broker_connect::KEY_TIMER;
			m.ident = "";
			m.f = {std::to_string(s.below(3) ? interval + 1 : s.below(100))};
			go(m);
			continue;
		default: { // messages of the monitor go nowhere
			m.key = broker_connect::KEY_MONITOR;
			m.ident = "recodex-monitor";
			m.f = {odd_frame(s)};
			break;
		}
		}
		// damage it
		int dmg = (int) s.weighted({4, 3, 2, 1});
		for (int d = 0; d < dmg; d++) {
			size_t at = m.f.empty() ? 0 : s.below((uint32_t) m.f.size());
			switch (s.below(5)) {
			case 0: m.f.insert(m.f.begin() + (m.f.empty() ? 0 : at + 1), odd_frame(s)); break;
			case 1: if (m.f.size() > 1) m.f.erase(m.f.begin() + at); break;
			case 2: m.f.resize(std::max<size_t>(1, at)); break;
			case 3: if (at > 0) m.f[at] = odd_frame(s); break;
			default: if (m.f.size() > 1) m.f.push_back(m.f[at]); break;
			}
		}
		if (m.f.empty()) m.f.push_back("");
		junk += dmg > 0;
		go(m);
	}
	// the canary
	ctx.note("-- canary");
	go({broker_connect::KEY_CLIENTS, "canary-client", {"unfreeze"}});
	std::vector<std::string> to_canary;
	bool accepted = false, reported = false;
	auto look = [&](const std::vector<message_container> &out) {
		for (auto &o : out) {
			if (o.key == broker_connect::KEY_WORKERS && o.identity == "canary" && o.data[0] == "eval") to_canary.push_back(o.data.size() > 1 ? o.data[1] : "");
			if (o.key == broker_connect::KEY_CLIENTS && o.data[0] == "accept") accepted = true;
			if (o.key == broker_connect::KEY_STATUS_NOTIFIER && o.data == Frames{"type", "job-status", "id", "canary-job", "status", "OK"}) reported = true;
		}
	};
	look(go({broker_connect::KEY_WORKERS, "canary", {"init", "canary-group", "canary=yes"}}));
	look(go({broker_connect::KEY_CLIENTS, "canary-client", {"eval", "canary-job", "canary=yes", "", "d"}}));
	if (!accepted) fail("canary", "after these messages a submission a fresh worker can process is not accepted");
	bool got = false;
	for (int i = 0; i < 300 && !to_canary.empty(); i++) {
		std::string j = to_canary.back();
		to_canary.clear();
		if (j == "canary-job") got = true;
		look(go({broker_connect::KEY_WORKERS, "canary", {"done", j, "OK"}}));
		if (got) break;
	}
	if (!got) fail("canary", "after these messages a fresh worker is not given the job only it can process");
	if (!reported) fail("canary", "after these messages a completion is not reported");
	ctx.nontrivial = junk >= 5 && busy_seen > 0;
	ctx.label("arbitrary frames");
}

void c15_metamorphic(Ctx &ctx)
{
	Src c = ctx.config();
	c.raw();
	bool multi = c.below(2);
	long interval = 10;
	size_t N = 1 + c.below(3), L = 1 + c.below(3);
	std::vector<Msg> script;
	std::vector<std::vector<message_container>> base;
	std::map<std::string, std::string> running;
	static const std::vector<std::string> idents = {"w1", "w2", "w3"};
	int serial = 0, junk = 0, busy_seen = 0;
	ctx.note(std::string("broker: ") + (multi ? "multi" : "single"));
	{
		vclock::reset();
		Rig r(multi, N, L, interval);
		auto go = [&](const Msg &m) {
			script.push_back(m);
			if (m.junk) {
				junk++;
				ctx.note("  (junk) " + m.key + " " + hexdump(m.ident) + ": " + show(m.f));
				base.push_back({});
				if (m.as_ping) r.call({m.key, m.ident, {"ping"}});
				return;
			}
			ctx.note(m.key + " " + hexdump(m.ident) + ": " + show(m.f));
			auto out = r.call(m);
			base.push_back(out);
			if (m.key == broker_connect::KEY_WORKERS && m.f[0] == "done") running.erase(m.ident);
			for (auto &o : out)
				if (o.key == broker_connect::KEY_WORKERS && o.data[0] == "eval") running[o.identity] = o.data[1];
			for (auto it = running.begin(); it != running.end();)
				it = r.reg->find_worker_by_identity(it->first) ? std::next(it) : running.erase(it);
			busy_seen += !running.empty();
		};
		for (size_t i = 0; i < ctx.ops(); i++) {
			Src s = ctx.op(i);
			std::string w = s.pick(idents);
			bool known = r.reg->find_worker_by_identity(w) != nullptr;
			switch (s.weighted({4, 7, 6, 3, 2, 14})) {
			case 0: go({broker_connect::KEY_WORKERS, w, {"init", "g1", "env=c", "pin=" + w}}); break;
			case 1: {
				Frames f = {"eval", "j" + std::to_string(++serial), "pin=" + s.pick(idents)};
				if (multi && s.chance(50)) f[2] = "env=c";
				f.push_back("");
				f.push_back("d");
				go({broker_connect::KEY_CLIENTS, "c1", f});
				break;
			}
			case 2: {
				if (running.empty()) break;
				auto it = running.begin();
				std::advance(it, s.below((uint32_t) running.size()));
				static const std::vector<std::string> st = {"OK", "FAILED", "INTERNAL_ERROR"};
				Frames f = {"done", it->second, s.pick(st)};
				if (f[2] != "OK") f.push_back("why");
				go({broker_connect::KEY_WORKERS, it->first, f});
				break;
			}
			case 3: go({broker_connect::KEY_TIMER, "", {std::to_string(s.below(3) ? 6 : 11)}}); break;
			case 4: go({broker_connect::KEY_CLIENTS, "c2", {"get-runtime-stats"}}); break;
			default: {
				Msg m;
				m.junk = true;
				std::string cur = running.count(w) ? running[w] : "";
				std::string other = "j999";
				for (auto &x : running)
					if (x.first != w) other = x.second;
				// commands that are none: of the other kind of peer, or not quite
				auto almost = [&](std::string k) {
					switch (s.below(8)) {
					case 0: return k + std::string(1, '\0');
					case 1: return k + " ";
					case 2: return k + "\n";
					case 3: return k + "s";
					case 4: return k.substr(0, k.size() - 1);
					case 5: return " " + k;
					case 6: return k + " x";
					default:
						for (auto &ch : k) ch = (char) toupper(ch);
						return k;
					}
				};
				switch (s.below(18)) {
				case 12: {
					static const std::vector<Frames> t = {{"init", "g1", "env=c", "pin=w1"}, {"ping"}, {"progress", "a", "b"}};
					m = {broker_connect::KEY_CLIENTS, s.below(2) ? w : "c3", s.pick(t)};
					break;
				}
				case 13: m = {broker_connect::KEY_CLIENTS, s.below(2) ? w : "c3", {"done", s.below(2) ? cur : other, "OK"}}; break;
				case 14: {
					static const std::vector<Frames> t = {{"eval", "x", "env=c", "", "d"}, {"freeze"}, {"unfreeze"}, {"get-runtime-stats"}};
					m = {broker_connect::KEY_WORKERS, w, s.pick(t)};
					break;
				}
				case 15: {
					static const std::vector<Frames> t = {{"eval", "x", "env=c", "", "d"}, {"freeze"}, {"freeze"}, {"get-runtime-stats"}};
					Frames f = s.pick(t);
					f[0] = almost(f[0]);
					m = {broker_connect::KEY_CLIENTS, "c3", f};
					break;
				}
				case 16: {
					static const std::vector<Frames> t = {{"init", "g2", "env=c", "pin=w1"}, {"ping"}, {"progress", "a", "b"}};
					Frames f = s.pick(t);
					f[0] = almost(f[0]);
					m = {broker_connect::KEY_WORKERS, w, f};
					break;
				}
				case 17: m = {broker_connect::KEY_WORKERS, w, {almost("done"), cur, "OK"}}; break;
				case 0: m = {broker_connect::KEY_WORKERS, "stranger", {"done", other, "OK"}}; break;
				case 1: m = {broker_connect::KEY_WORKERS, w, {"done", other, "OK"}}; break;
				case 2: m = {broker_connect::KEY_WORKERS, w, {"done"}}; break;
				case 3: m = {broker_connect::KEY_WORKERS, w, {"done", cur}}; break;
				case 4: m = {broker_connect::KEY_WORKERS, w, {"done", cur, "FAILED"}}; break;
				case 5: m = {broker_connect::KEY_WORKERS, w, {"done", cur, "INTERNAL_ERROR", "a", "b"}}; break;
				case 6: m = {broker_connect::KEY_WORKERS, w, {"done", cur, "ok"}}; break;
				case 7: m = {broker_connect::KEY_WORKERS, w, {"init"}}; break;
				case 8: m = {broker_connect::KEY_CLIENTS, "c3", s.below(2) ? Frames{"eval"} : Frames{"eval", "x"}}; break;
				case 9: m = {broker_connect::KEY_CLIENTS, "c3", {"eval", "x", "env=c", "pin=w1"}}; break;
				case 10: m = {broker_connect::KEY_WORKERS, w, {odd_frame(s) + "?", odd_frame(s)}}; break;
				default: m = {broker_connect::KEY_CLIENTS, "c3", {odd_frame(s) + "?", odd_frame(s)}}; break;
				}
				if (!known && m.key == broker_connect::KEY_WORKERS) m.ident = "stranger";
				m.junk = true;
				m.as_ping = m.key == broker_connect::KEY_WORKERS && m.ident != "stranger";
				go(m);
			}
			}
		}
	}
	vclock::reset();
	Rig r(multi, N, L, interval);
	for (size_t i = 0; i < script.size(); i++) {
		auto out = r.call(script[i]);
		if (script[i].junk) {
			for (auto &o : out)
				if (!(o.key == script[i].key && o.identity == script[i].ident)) fail("disturbed", "undefined message " + show(script[i].f) + " made the broker send " + show(o.data) + " to " + o.key + " " + hexdump(o.identity));
			continue;
		}
		bool same = out.size() == base[i].size();
		for (size_t k = 0; same && k < out.size(); k++) same = out[k].key == base[i][k].key && out[k].identity == base[i][k].identity && out[k].data == base[i][k].data;
		if (!same) {
			std::string a, b;
			for (auto &o : out) a += " " + o.key + show(o.data);
			for (auto &o : base[i]) b += " " + o.key + show(o.data);
			fail("disturbed", "message " + std::to_string(i) + " " + show(script[i].f) + " produced" + a + " instead of" + b + " after undefined messages");
		}
	}
	ctx.nontrivial = junk >= 5 && busy_seen > 0;
	ctx.label("with and without junk");
}

} // namespace

void run_c07(pbt::Ctx &ctx)
{
	vclock::reset();
	if (ctx.config().below(2)) c07_broker(ctx);
	else c07_component(ctx);
}

void run_c15(pbt::Ctx &ctx)
{
	vclock::reset();
	if (ctx.config().below(3) == 2) c15_metamorphic(ctx);
	else c15_robust(ctx);
}

// ====================================================================== C16

static std::string gen_value(Src &s, const std::string &k)
{
	static const std::vector<std::string> num = {"0", "1", "2", "3", "4", "8", "16", "007", "4294967296", "18446744073709551615", "many", "", "x4", "18446744073709551616",
		"010", "08", "12", "100", "0x10", "4x", "-1", "+4", " 4", "4 ", "4.5", "1e3", std::string("4\0", 2)};
	static const std::vector<std::string> grp = {"g", "g1", "g2", "g1|g2", "|g1", "g2|", "g1||g2", "g12", "1", "G1", "g2|g1|g", "", "|"};
	static const std::vector<std::string> any = {"c", "cc", "c|python", "python", "", " c", "C", "c=d", "12", "py", std::string("\0\xff", 2),
		std::string("c\0", 2), std::string(300, 'v') + "1", std::string(300, 'v') + "2"};
	if (k == "threads") return s.pick(num);
	if (k == "hwgroup") return s.pick(grp);
	return s.pick(any);
}

void run_c16(pbt::Ctx &ctx)
{
	static const std::vector<std::string> keys = {"env", "threads", "custom", "env2", "thread", "", "hwgroups", "Threads"};
	static const std::vector<std::string> groups = {"g1", "g2", "g", "G1", "g12", "a|b", "1"};
	worker_registry reg;
	std::vector<std::pair<worker_registry::worker_ptr, Caps>> ws;
	int yes = 0, no = 0, serial = 0;
	auto mm = [](const Hdrs &h) {
		std::multimap<std::string, std::string> m;
		for (auto &x : h) m.emplace(x.first, x.second);
		return m;
	};
	auto gen_worker = [&](Src &s) {
		Caps c;
		c.hwgroup = s.pick(groups);
		int n = s.below(6);
		for (int i = 0; i < n; i++) {
			std::string k = i < 2 ? s.pick(std::vector<std::string>{"env", "threads"}) : s.pick(keys);
			std::string v = gen_value(s, k);
			if (k == "threads" && v == "18446744073709551616") v = "9";
			c.headers.push_back({k, v});
		}
		return c;
	};
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		size_t op = ws.empty() ? 0 : s.weighted({4, 1, 10, 2});
		if (op == 0) {
			Caps c = gen_worker(s);
			std::string id = (s.below(2) ? "w" : "") + std::to_string(serial++);
			ctx.note("worker " + id + " group " + c.hwgroup + " " + show(c.headers));
			auto p = std::make_shared<worker>(id, c.hwgroup, mm(c.headers));
			reg.add_worker(p);
			ws.push_back({p, c});
		} else if (op == 1) {
			size_t k = s.below((uint32_t) ws.size());
			ctx.note("remove " + ws[k].first->identity);
			reg.remove_worker(ws[k].first);
			ws.erase(ws.begin() + k);
		} else if (op == 2) {
			auto &target = ws[s.below((uint32_t) ws.size())];
			Hdrs req;
			int n = s.below(5);
			for (int q = 0; q < n; q++) {
				if (s.chance(60) && !target.second.headers.empty()) {
					req.push_back(target.second.headers[s.below((uint32_t) target.second.headers.size())]);
				} else if (s.chance(40)) {
					static const std::vector<std::string> pre = {"", "g2|", "|", "zz|"}, post = {"", "|g9", "|"};
					std::string more;
					if (s.chance(15))
						for (int z = s.below(40); z > 0; z--) more += "z" + std::to_string(z) + "|";
					req.push_back({"hwgroup", more + s.pick(pre) + target.second.hwgroup + s.pick(post)});
				} else {
					std::string k = s.chance(30) ? std::string("hwgroup") : s.pick(keys);
					req.push_back({k, gen_value(s, k)});
				}
			}
			Hdrs perm = req;
			for (size_t q = perm.size(); q > 1; q--) std::swap(perm[q - 1], perm[s.below((uint32_t) q)]);
			ctx.note("require " + show(req));
			bool any = false;
			for (auto &w : ws) {
				bool want = ref_match(w.second, req);
				any |= want;
				bool got = w.first->check_headers(mm(req));
				if (req.size() >= 2) (want ? yes : no)++;
				if (got != want) fail("match", "worker in group " + w.second.hwgroup + " with " + show(w.second.headers) + (got ? " satisfies " : " does not satisfy ") + show(req));
				if (w.first->check_headers(mm(perm)) != got) fail("order", "the order of required headers " + show(req) + " matters");
				bool conj = true;
				for (auto &r : req) {
					bool one = w.first->check_header(r.first, r.second);
					if (one != ref_match_one(w.second, r.first, r.second)) fail("match", "worker in group " + w.second.hwgroup + " with " + show(w.second.headers) + (one ? " satisfies " : " does not satisfy ") + r.first + "=" + hexdump(r.second));
					conj &= one;
				}
				if (conj != got) fail("conjunction", "the verdict on " + show(req) + " is not the conjunction of the verdicts on its headers");
				Hdrs ph = w.second.headers;
				std::reverse(ph.begin(), ph.end());
				worker other(w.first->identity, w.second.hwgroup, mm(ph));
				if (other.check_headers(mm(req)) != got) fail("order", "the order of announced headers " + show(w.second.headers) + " matters for " + show(req));
			}
			auto f = reg.find_worker(mm(req));
			if (!f && any) fail("lookup", "no worker was found for " + show(req) + " although one matches");
			if (f) {
				bool ok = false;
				for (auto &w : ws) ok |= w.first == f && ref_match(w.second, req);
				if (!ok) fail("lookup", "a lookup for " + show(req) + " returned a worker that does not match or is not registered");
			}
		} else {
			std::string id = (s.below(2) ? "w" : "") + std::to_string(s.below(serial + 1));
			auto f = reg.find_worker_by_identity(id);
			bool there = false;
			for (auto &w : ws) there |= w.first->identity == id;
			ctx.note("look up " + id);
			if (there != (f != nullptr) || (f && f->identity != id)) fail("identity", "looking up worker " + id + (f ? " returned " + f->identity : " returned nothing"));
			if (reg.get_workers().size() != ws.size()) fail("registry", "the registry holds " + std::to_string(reg.get_workers().size()) + " workers instead of " + std::to_string(ws.size()));
		}
	}
	ctx.nontrivial = yes > 0 && no > 0;
	if (yes) ctx.label("match");
	if (no) ctx.label("no match");
}
