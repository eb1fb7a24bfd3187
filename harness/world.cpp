// Stateful model-based driving of the real broker_handler with real queue managers and worker registry.
//
// The harness plays every client, worker, the clock, and records everything the broker sends. A model follows what
// was observed (accepts, dispatches, reports, registry contents); each property has its own monitors over it, and
// only the monitors of the property being decided can fail a case.
#include "world.hpp"
#include "clock.hpp"
#include "gen.hpp"
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <deque>
#include <memory>
#include <set>

using pbt::Ctx;
using pbt::hexdump;
using pbt::Src;

namespace {

struct Wk;
struct Job {
	std::string id;
	Hdrs req;
	Frames frames;
	bool orphan = false;
	enum { WAIT, RUN, DONE } st = WAIT;
	Wk *on = nullptr;
	size_t fails = 0, sends = 0;
	int serial = 0;
	// bounds on the step in which the job started to wait (multi: a job may or may not have been dealt again)
	long wait_lo = 0, wait_hi = 0;
	std::set<Wk *> cand; // multi: workers the job may be queued behind
};
struct Wk {
	std::string ident;
	Caps caps;
	bool reg = true;
	Job *cur = nullptr;
	long long silent = 0, maxtick = 0; // elapsed time reported since its last message, longest single tick in it
};
struct Report {
	std::string id, status, text;
	bool operator<(const Report &o) const { return std::tie(id, status) < std::tie(o.id, o.status); }
};
struct Expect {
	std::vector<std::pair<Job *, Report>> reports;
	std::multiset<std::pair<std::string, std::string>> mon, mon_opt;
	std::string client; // who gets replies
	std::vector<Frames> replies; // {"reject"} stands for a reject with any non-empty reason
	std::string worker;
	std::vector<Frames> wreplies;
	bool progress = false;
	Frames progress_frames;
	bool replaced = false; // a worker was replaced: the frontend is to be told
	bool nothing = false; // the event must not have any effect
	bool unknown_sender = false;
	bool stats = false;
	bool exact_text = false; // the worker's own verdict is passed on as it is
	Job *retry = nullptr; // job whose internal error is handled in this step
	std::vector<Job *> limbo; // jobs that are to be put back in this step
	std::set<Job *> must_end; // accepted jobs out of attempts
	std::set<Wk *> lost;
};

const std::vector<std::string> IDENTS = {
	"worker-A", "worker-B", std::string("\x00\x80\xff\x01", 4), "worker-AA", "w", std::string("\xde\xad", 2), "client1", "nine", "ten", "eleven", "twelve", std::string(254, 'l') + "1", std::string(254, 'l') + "2"};
const uint32_t FEW = 6; // identities in use unless there are many workers
const std::vector<std::string> CLIENTS = {"client1", "worker-A", std::string("\x00k\xfe", 3)};

class World
{
	const std::string P;
	Ctx &ctx;
	bool multi, many = false, big = false, crowd = false;
	size_t N, L;
	long long interval;
	std::shared_ptr<worker_registry> reg;
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	bool frozen = false;
	long step = 0;
	int next_job = 0;
	std::deque<Job> jobs;
	std::deque<Wk> wks;
	size_t ok_done = 0, failed_done = 0;
	size_t last_count = 0;

public:
	struct Counters {
		int accepted = 0, rejected = 0, frozen_rej = 0, waited = 0, sends = 0, resends = 0, lost_busy = 0, lost_idle = 0,
			lost_with_waiting = 0, interr = 0, failed = 0, ok = 0, stray = 0, reinit = 0, reinit_busy = 0, orphan = 0,
			orphan_end = 0, exhausted = 0, gaveup = 0, progress = 0, stats = 0, from_queue = 0, burst = 0, jumps = 0,
			multi_lost = 0, binary = 0, survivors = 0, copies = 0;
	} n;

	World(const std::string &p, Ctx &c) : P(p), ctx(c)
	{
		vclock::reset();
		Src s = c.config();
		multi = s.below(2) == 1;
		N = 1 + s.below(4);
		L = 1 + s.below(4);
		static const std::vector<long long> iv = {1000, 100, 10, 1};
		interval = s.pick(iv);
		if (s.chance(10)) N = 5 + s.below(8);
		if (s.chance(10)) L = 5 + s.below(20);
		// and limits that do not fit in a byte
		if (P == "C09" ? s.chance(3) : s.chance(1)) N = 250 + s.below(100);
		if (P == "C08" ? s.chance(3) : s.chance(1)) L = 250 + s.below(100);
		many = s.chance(6);
		big = s.chance(4);
		crowd = s.below(200) == 1;
		if (s.chance(4)) interval = s.below(2) ? 60000 : 7;
		YAML::Node y;
		y["workers"]["max_liveness"] = L;
		y["workers"]["max_request_failures"] = N;
		y["workers"]["ping_interval"] = interval;
		y["queue_manager"] = multi ? "multi" : "single";
		auto cfg = std::make_shared<broker_config>(y);
		reg = std::make_shared<worker_registry>();
		if (multi) q = std::make_shared<multi_queue_manager>();
		else q = std::make_shared<single_queue_manager<>>();
		h = std::make_unique<broker_handler>(cfg, reg, q, nullptr);
		ctx.note(std::string("broker: ") + (multi ? "multi" : "single") + " queue manager, max_request_failures " +
			std::to_string(N) + ", max_liveness " + std::to_string(L) + ", ping_interval " + std::to_string(interval));
		ctx.label(multi ? "multi" : "single");
	}

	void run()
	{
		Src cs = ctx.config();
		for (int i = 0; i < 20; i++) cs.raw();
		// start with some workers, most of the time
		int start = (int) cs.weighted({1, 3, 4, 3, 1});
		if (many) start = 7 + (int) cs.below(5);
		if (crowd) start = cs.below(5) == 1 ? 130 + (int) cs.below(10) : 30 + (int) cs.below(50);
		for (int i = 0; i < start; i++) {
			Src s(nullptr);
			ev_init(ident_no(i), gen_caps(cs, ident_no(i)), "", false);
		}
		bool drain_silent = cs.chance(25);
		bool no_drain = cs.chance(10);
		for (size_t i = 0; i < ctx.ops(); i++) {
			Src s = ctx.op(i);
			do_op(s);
		}
		if (!no_drain) drain(drain_silent);
		classify();
	}

private:
	// ------------------------------------------------------------------ monitors

	void viol(const char *prop, const std::string &kind, const std::string &msg)
	{
		if (P == prop) pbt::fail(kind, "step " + std::to_string(step) + ": " + msg);
	}

	std::vector<message_container> call(const std::string &key, const std::string &ident, const Frames &f)
	{
		std::vector<message_container> out;
		step++;
		try {
			h->on_request(message_container(key, ident, f), [&](const message_container &m) { out.push_back(m); });
		} catch (const std::exception &e) {
			pbt::fail("died", std::string("step ") + std::to_string(step) +
					": handling the message threw an exception, which ends the broker: " + e.what());
		} catch (...) {
			pbt::fail("died", "handling the message threw, which ends the broker");
		}
		return out;
	}

	Wk *find(const std::string &ident)
	{
		for (auto it = wks.rbegin(); it != wks.rend(); ++it)
			if (it->reg && it->ident == ident) return &*it;
		return nullptr;
	}
	/** an id may be in use several times at once, the frames tell such jobs apart */
	Job *find_job(const std::string &id, const Frames *sent = nullptr)
	{
		Job *best = nullptr;
		int rank = -1;
		for (auto it = jobs.rbegin(); it != jobs.rend(); ++it) {
			if (it->orphan || it->id != id) continue;
			bool same = sent && sent->size() == it->frames.size() + 2 && std::equal(it->frames.begin(), it->frames.end(), sent->begin() + 2);
			int r = (same ? 4 : 0) + (it->st == Job::WAIT ? 2 : it->st == Job::RUN ? 1 : 0);
			if (r > rank) best = &*it, rank = r;
		}
		return best;
	}
	bool shared_id(const Job *j)
	{
		for (auto &o : jobs)
			if (&o != j && o.id == j->id && o.st != Job::DONE) return true;
		return false;
	}
	bool any_capable(const Job &j)
	{
		for (auto &w : wks)
			if (w.reg && ref_match(w.caps, j.req)) return true;
		return false;
	}
	std::vector<Wk *> registered()
	{
		std::vector<Wk *> r;
		for (auto &w : wks)
			if (w.reg) r.push_back(&w);
		return r;
	}
	size_t waiting()
	{
		size_t r = 0;
		for (auto &j : jobs)
			if (!j.orphan && j.st == Job::WAIT) r++;
		return r;
	}
	static std::string ident_no(int i) { return i < (int) IDENTS.size() ? IDENTS[i] : "crowd" + std::to_string(i); }
	std::string any_ident(Src &s) { return ident_no(s.below(crowd ? 140 : many ? (uint32_t) IDENTS.size() : FEW)); }
	std::string jn(const Job *j) { return hexdump(j->id); }
	std::string wn(const Wk *w) { return hexdump(w->ident); }

	/** w is gone: what has to happen to its job */
	void lose(Wk *w, Expect &e)
	{
		w->reg = false;
		e.lost.insert(w);
		bool has_waiting = waiting() > 0;
		if (has_waiting) n.lost_with_waiting++;
		if (w->cur) {
			n.lost_busy++;
			Job *j = w->cur;
			w->cur = nullptr;
			j->on = nullptr;
			if (j->orphan) {
				e.reports.push_back({j, {j->id, "FAILED", ""}});
				e.mon.insert({j->id, "FAILED"});
				n.orphan_end++;
			} else {
				j->fails++;
				j->st = Job::WAIT;
				j->wait_lo = j->wait_hi = step;
				if (j->fails >= N) {
					e.reports.push_back({j, {j->id, "FAILED", ""}});
					e.mon.insert({j->id, "FAILED"});
					e.must_end.insert(j);
					n.exhausted++;
				} else {
					e.limbo.push_back(j);
				}
			}
		} else {
			n.lost_idle++;
		}
	}

	/** after all losses of a step: fate of the jobs put back and of the jobs that were waiting */
	void after_losses(Expect &e)
	{
		if (e.lost.empty()) return;
		if (e.lost.size() > 1) n.multi_lost++;
		std::set<Job *> put_back(e.limbo.begin(), e.limbo.end());
		std::vector<Job *> still;
		for (auto j : e.limbo) {
			if (any_capable(*j)) {
				e.mon.insert({j->id, "ABORTED"});
				still.push_back(j);
				j->cand.clear();
			} else {
				e.reports.push_back({j, {j->id, "FAILED", ""}});
				e.mon.insert({j->id, "FAILED"});
				n.gaveup++;
			}
		}
		e.limbo = still;
		for (auto &j : jobs) {
			if (j.orphan || j.st != Job::WAIT || put_back.count(&j) || e.must_end.count(&j)) continue;
			if (!any_capable(j)) {
				e.reports.push_back({&j, {j.id, "FAILED", ""}});
				e.mon.insert({j.id, "FAILED"});
				n.gaveup++;
				continue;
			}
			if (!multi) continue;
			size_t hit = 0;
			for (auto w : j.cand) hit += e.lost.count(w);
			if (hit == 0) continue;
			if (hit == j.cand.size()) {
				e.mon.insert({j.id, "ABORTED"});
				j.wait_lo = step;
			} else {
				e.mon_opt.insert({j.id, "ABORTED"});
			}
			j.wait_hi = step;
			std::set<Wk *> c;
			for (auto w : j.cand)
				if (w->reg) c.insert(w);
			for (auto w : registered())
				if (ref_match(w->caps, j.req)) c.insert(w);
			j.cand = c;
		}
	}

	void settle(const std::vector<message_container> &outs, Expect &e)
	{
		std::vector<Report> got;
		bool told_error = false;
		std::vector<Frames> replies, wreplies;
		std::multiset<std::pair<std::string, std::string>> mon;
		size_t progress_seen = 0, dispatches = 0;
		std::set<Job *> sent_now;
		bool was_ack = false, accepted_seen = false;
		(void) was_ack;
		(void) accepted_seen;

		for (auto &m : outs) {
			if (m.key == broker_connect::KEY_WORKERS) {
				if (m.data.empty()) {
					viol("C10", "empty-message", "a message without frames was sent to worker " + hexdump(m.identity));
					viol("C12", "empty-message", "a message without frames was sent to worker " + hexdump(m.identity));
					continue;
				}
				if (m.data[0] != "eval") {
					if (m.identity != e.worker) viol("C12", "stray-reply", "unexpected message " + show(m.data) + " to worker " + hexdump(m.identity));
					wreplies.push_back(m.data);
					if (m.identity != e.worker) wreplies.push_back({"to somebody else"});
					continue;
				}
				dispatches++;
				dispatch(m, e, sent_now);
			} else if (m.key == broker_connect::KEY_CLIENTS) {
				if (m.identity != e.client) {
					viol("C11", "client-addressee", "unexpected message " + show(m.data) + " to client " + hexdump(m.identity));
					viol("C14", "client-addressee", "unexpected message " + show(m.data) + " to client " + hexdump(m.identity));
				}
				replies.push_back(m.data);
			} else if (m.key == broker_connect::KEY_MONITOR) {
				if (m.identity != broker_connect::MONITOR_IDENTITY) viol(e.progress ? "C10" : "C13", "monitor-addressee", "message for the monitor addressed to " + hexdump(m.identity));
				if (e.progress && m.data == e.progress_frames && progress_seen == 0) {
					progress_seen++;
				} else if (m.data.size() == 2) {
					mon.insert({m.data[0], m.data[1]});
				} else {
					if (e.progress) viol("C10", "progress", "progress " + show(e.progress_frames) + " was shown to the monitor as " + show(m.data));
					viol("C13", "monitor-form", "odd message to the monitor: " + show(m.data));
				}
			} else if (m.key == broker_connect::KEY_STATUS_NOTIFIER) {
				std::map<std::string, std::string> kv;
				for (size_t i = 0; i + 1 < m.data.size(); i += 2) kv[m.data[i]] = m.data[i + 1];
				if (kv["type"] == "error") told_error = true;
				else if (kv["type"] == "job-status") got.push_back({kv["id"], kv["status"], kv["message"]});
				else viol("C02", "report-form", "odd report to the frontend: " + show(m.data));
			} else {
				viol("C11", "unknown-target", "message to unknown target " + m.key);
				viol("C10", "unknown-target", "message to unknown target " + m.key);
			}
		}

		// ---- replies
		check_replies(e, replies);
		{
			auto a = wreplies, b = e.wreplies;
			if (a != b) {
				viol("C12", "worker-reply", "worker " + hexdump(e.worker) + " was sent " + showl(a) + " instead of " + showl(b));
				viol("C08", "worker-reply", "worker " + hexdump(e.worker) + " was sent " + showl(a) + " instead of " + showl(b));
			}
		}
		if (e.progress && progress_seen != 1) viol("C10", "progress", "progress " + show(e.progress_frames) + " did not reach the monitor unchanged");
		if (e.replaced && !told_error) viol("C12", "replace-silent", "the frontend was not told that a worker changed its capabilities");

		// ---- monitor
		{
			auto left = mon;
			for (auto &x : e.mon) {
				auto it = left.find(x);
				if (it == left.end()) viol("C13", "monitor-missing", "the monitor was not told " + x.second + " for job " + hexdump(x.first));
				else left.erase(it);
			}
			for (auto &x : e.mon_opt) {
				auto it = left.find(x);
				if (it != left.end()) left.erase(it);
			}
			if (!left.empty()) viol("C13", "monitor-extra", "the monitor was told " + left.begin()->second + " for job " + hexdump(left.begin()->first) + " without reason (or twice)");
		}

		// ---- final reports
		check_reports(e, got);

		// ---- jobs to be put back
		for (auto j : e.limbo) {
			bool ended = j->st == Job::DONE;
			if (ended) {
				viol("C09", "not-retried", "job " + jn(j) + " failed " + std::to_string(j->fails) + " of " + std::to_string(N) + " times and was given up though a capable worker is registered");
				viol("C03", "given-up", "job " + jn(j) + " was given up though a registered worker can process it");
				if (e.replaced) viol("C12", "replace-given-up", "job " + jn(j) + " of a replaced registration was given up though a registered worker can process it");
				if (frozen) viol("C11", "frozen-given-up", "job " + jn(j) + ", accepted before the freeze, was given up though a registered worker can process it");
			}
		}
		for (auto j : e.must_end)
			if (j->st != Job::DONE) viol("C09", "not-ended", "job " + jn(j) + " failed " + std::to_string(j->fails) + " times (limit " + std::to_string(N) + ") but was not reported as failed");
		if (!e.lost.empty())
			for (auto &r : e.reports)
				if (!r.first->orphan && r.first->st != Job::DONE && !e.must_end.count(r.first))
					viol("C01", "stuck", "job " + jn(r.first) + " cannot be processed by any registered worker but was not reported");

		// ---- nobody else is dropped or added
		check_registry(e);

		// ---- events without effect
		size_t count = q->get_queued_request_count();
		if (e.nothing) {
			if (e.unknown_sender && !outs.empty()) viol("C08", "ignored-has-effect", "a completion from a worker that is not registered made the broker send " + show(outs[0].data));
			if (dispatches) viol("C02", "ignored-has-effect", "an invalid completion message made the broker send a job");
			if (!mon.empty()) viol("C02", "ignored-has-effect", "an invalid completion message made the broker tell the monitor something");
			if (!replies.empty()) viol("C02", "ignored-has-effect", "an invalid completion message made the broker talk to a client");
			if (count != last_count) viol("C02", "ignored-has-effect", "an invalid completion message changed the queue");
		}

		// ---- queue accounting
		if (count != waiting()) {
			std::string who;
			for (auto &j : jobs)
				if (!j.orphan && j.st == Job::WAIT) who += " " + jn(&j);
			viol("C01", "lost-job", "the broker says " + std::to_string(count) + " jobs are queued, but " + std::to_string(waiting()) + " accepted jobs are neither processed nor reported:" + who);
			if (e.replaced) viol("C12", "replace-lost-job", "after a changed registration the broker says " + std::to_string(count) + " jobs are queued, but " + std::to_string(waiting()) + " accepted jobs are neither processed nor reported:" + who);
			if (frozen) viol("C11", "frozen-lost-job", "while frozen the broker says " + std::to_string(count) + " jobs are queued, but " + std::to_string(waiting()) + " accepted jobs are neither processed nor reported:" + who);
		}
		last_count = count;

		check_idle(e);
	}

	std::string showl(const std::vector<Frames> &l)
	{
		if (l.empty()) return "nothing";
		std::string r;
		for (auto &f : l) r += (r.empty() ? "" : " ") + show(f);
		return r;
	}

	void dispatch(const message_container &m, Expect &e, std::set<Job *> &sent_now)
	{
		Wk *w = find(m.identity);
		Job *j = m.data.size() > 1 ? find_job(m.data[1], &m.data) : nullptr;
		n.sends++;
		if (!w) {
			viol("C03", "send-unregistered", "a job was sent to " + hexdump(m.identity) + ", which is not registered");
			viol("C08", "send-unregistered", "a job was sent to " + hexdump(m.identity) + ", which is not registered");
			viol("C01", "send-unregistered", "a job was sent to " + hexdump(m.identity) + ", which is not registered");
		}
		if (!j) {
			viol("C10", "send-unknown", "a message " + show(m.data) + " that is no accepted job was sent to worker " + hexdump(m.identity));
			viol("C12", "send-unknown", "a message " + show(m.data) + " that is no accepted job was sent to worker " + hexdump(m.identity));
			viol("C01", "send-unknown", "a message " + show(m.data) + " that is no accepted job was sent to worker " + hexdump(m.identity));
			for (auto &o : jobs)
				if (o.orphan && m.data.size() > 1 && o.id == m.data[1]) viol("C09", "retried-claimed", "job " + jn(&o) + ", which a worker had claimed, was sent to worker " + hexdump(m.identity));
			if (frozen) viol("C11", "frozen-sent", "a message " + show(m.data) + " that is no accepted job was sent to worker " + hexdump(m.identity) + " while the broker is frozen");
			return;
		}
		ctx.note("      -> job " + jn(j) + " to " + hexdump(m.identity));
		Frames want = {"eval", j->id};
		want.insert(want.end(), j->frames.begin(), j->frames.end());
		if (m.data != want) viol("C10", "frames", "job " + jn(j) + " was sent as " + show(m.data) + " instead of " + show(want));
		if (w && !ref_match(w->caps, j->req)) viol("C03", "incapable", "job " + jn(j) + " with headers " + show(j->req) + " was sent to worker " + wn(w) + " in group " + w->caps.hwgroup + " with " + show(w->caps.headers));
		if (w && w->cur) {
			viol("C04", "two-jobs", "job " + jn(j) + " was sent to worker " + wn(w) + ", which is still processing " + jn(w->cur));
			viol("C12", "two-jobs", "job " + jn(j) + " was sent to worker " + wn(w) + ", which is still processing " + jn(w->cur));
		}
		if (j->st == Job::RUN) viol("C04", "job-twice", "job " + jn(j) + " was sent to " + hexdump(m.identity) + " while worker " + wn(j->on) + " is processing it");
		if (j->st == Job::DONE) {
			viol("C09", "sent-after-end", "job " + jn(j) + " was sent after it had been finally reported");
			viol("C02", "sent-after-end", "job " + jn(j) + " was sent after it had been finally reported");
		}
		if (e.must_end.count(j)) viol("C09", "over-limit", "job " + jn(j) + " was sent again after failing " + std::to_string(j->fails) + " times, the limit being " + std::to_string(N));
		if (j->sends + 1 > N) viol("C09", "over-limit", "job " + jn(j) + " was sent for the " + std::to_string(j->sends + 1) + "th time, the limit being " + std::to_string(N));
		if (w) order_check(w, j, e);
		if (j->sends) n.resends++;
		if (j->st == Job::WAIT && j->wait_hi < step) n.from_queue++;
		j->sends++;
		j->st = Job::RUN;
		j->on = w;
		j->cand.clear();
		if (w) w->cur = j;
		sent_now.insert(j);
	}

	void order_check(Wk *w, Job *j, Expect &e)
	{
		if (j == e.retry) return; // a job may be retried at once after an internal error
		for (auto &k : jobs) {
			if (k.orphan || &k == j || k.st != Job::WAIT) continue;
			if (!(k.wait_hi < j->wait_lo)) continue;
			bool ending = false;
			for (auto &r : e.reports) ending |= r.first == &k;
			if (ending) continue;
			if (!multi) {
				if (ref_match(w->caps, k.req)) viol("C06", "overtaken", "job " + jn(j) + " (waiting since step " + std::to_string(j->wait_lo) + ") was sent to worker " + wn(w) + " although job " + jn(&k) + " has been waiting since step " + std::to_string(k.wait_hi) + " and the worker can process it");
			} else if (k.cand.count(w)) {
				k.cand.erase(w);
				if (k.cand.empty()) viol("C06", "overtaken", "job " + jn(j) + " was sent to worker " + wn(w) + " before job " + jn(&k) + ", which was queued behind that worker earlier");
			}
		}
	}

	void check_replies(Expect &e, const std::vector<Frames> &got)
	{
		if (e.stats) {
			if (got.size() != 1) viol("C14", "stats-reply", "a statistics request was answered with " + std::to_string(got.size()) + " messages");
			if (got.size() != 1) viol("C11", "stats-reply", "a statistics request was answered with " + std::to_string(got.size()) + " messages");
			return;
		}
		bool same = got.size() == e.replies.size();
		for (size_t i = 0; same && i < got.size(); i++) {
			if (e.replies[i] == Frames{"reject"}) same = got[i].size() == 2 && got[i][0] == "reject" && !got[i][1].empty();
			else same = got[i] == e.replies[i];
		}
		if (!same) {
			viol("C11", "replies", "client " + hexdump(e.client) + " was answered " + showl(got) + ", expected " + showl(e.replies));
			bool acc = false, racc = false;
			for (auto &g : got) acc |= g == Frames{"accept"};
			for (auto &g : e.replies) racc |= g == Frames{"accept"};
			if (acc != racc) viol("C03", "admission", std::string("a submission was ") + (acc ? "accepted although no registered worker can process it (or the broker is frozen)" : "refused although a registered worker can process it"));
		}
	}

	void check_reports(Expect &e, std::vector<Report> got)
	{
		for (auto &ex : e.reports) {
			bool hit = false;
			for (size_t i = 0; i < got.size() && !hit; i++) {
				if (got[i].id != ex.second.id || got[i].status != ex.second.status) continue;
				if (e.exact_text ? got[i].text != ex.second.text : got[i].text.find(ex.second.text) == std::string::npos) viol("C02", "report-text", "the report of job " + hexdump(ex.second.id) + " lacks the failure text " + hexdump(ex.second.text) + ": " + hexdump(got[i].text));
				got.erase(got.begin() + i);
				hit = true;
				end_job(ex.first);
			}
			if (!hit) {
				std::string t = "no " + ex.second.status + " report for job " + hexdump(ex.second.id);
				viol("C02", "report-missing", t);
				if (ex.first->orphan) viol("C12", "claim-not-reported", t + ", which its worker claimed");
				if (e.replaced) viol("C12", "replace-report", t + " of the replaced registration");
				if (frozen) viol("C11", "frozen-report", t + ", the broker being frozen");
			}
		}
		for (auto &g : got) {
			viol("C02", "report-extra", "unexpected report " + g.status + " for job " + hexdump(g.id) + ": " + hexdump(g.text));
			Job *j = find_job(g.id);
			if (j && j->st != Job::DONE) {
				if (g.status == "FAILED" && j->st == Job::WAIT && any_capable(*j) && !e.must_end.count(j)) {
					viol("C03", "given-up", "job " + hexdump(g.id) + " was given up though a registered worker can process it");
					viol("C09", "given-up", "job " + hexdump(g.id) + " was given up after " + std::to_string(j->fails) + " failed attempts though the limit is " + std::to_string(N) + " and a registered worker can process it");
					if (e.replaced) viol("C12", "replace-given-up", "job " + hexdump(g.id) + " of a replaced registration was given up though a registered worker can process it");
					if (frozen) viol("C11", "frozen-given-up", "job " + hexdump(g.id) + ", accepted before the freeze, was given up though a registered worker can process it");
				}
				end_job(j);
			}
		}
	}

	void end_job(Job *j)
	{
		if (j->on && j->on->cur == j) j->on->cur = nullptr;
		j->on = nullptr;
		j->st = Job::DONE;
		j->cand.clear();
	}

	void check_registry(Expect &e)
	{
		std::map<std::string, int> count;
		for (auto &w : reg->get_workers()) count[w->identity]++;
		for (auto &w : wks) {
			if (!w.reg) continue;
			int c = count[w.ident];
			if (c != 1) viol("C12", "registry", "worker " + wn(&w) + " is registered " + std::to_string(c) + " times");
			if (c == 0) viol("C08", "dropped-early", "worker " + wn(&w) + " was dropped although nothing justifies it");
			count.erase(w.ident);
		}
		for (auto &c : count)
			if (c.second > 0) {
				viol("C12", "registry", "unknown worker " + hexdump(c.first) + " is registered");
				viol("C08", "registry", "dropped worker " + hexdump(c.first) + " is still registered");
			}
	}

	void check_idle(Expect &e)
	{
		for (auto &j : jobs) {
			if (j.orphan || j.st != Job::WAIT) continue;
			if (!multi) {
				for (auto w : registered())
					if (!w->cur && ref_match(w->caps, j.req)) {
						viol("C05", "idle", "worker " + wn(w) + " is idle although job " + jn(&j) + ", which it can process, is waiting");
						if (frozen) viol("C11", "frozen-idle", "while frozen worker " + wn(w) + " is idle although job " + jn(&j) + ", which it can process, is waiting");
					}
			} else {
				bool behind = false;
				for (auto w : registered())
					if (w->cur && ref_match(w->caps, j.req)) behind = true;
				if (!behind) {
					viol("C05", "idle", "job " + jn(&j) + " is waiting although no busy worker can process it");
					if (frozen) viol("C11", "frozen-idle", "while frozen job " + jn(&j) + " is waiting although no busy worker can process it");
					continue;
				}
				if (j.cand.empty()) {
					for (auto w : registered())
						if (w->cur && ref_match(w->caps, j.req)) j.cand.insert(w);
				} else {
					std::set<Wk *> c;
					for (auto w : j.cand)
						if (w->reg && w->cur) c.insert(w);
					if (c.empty()) viol("C05", "idle", "worker " + wn(*j.cand.begin()) + " is left idle although job " + jn(&j) + " is queued behind it");
					j.cand = c;
				}
			}
		}
	}

	void heard(const std::string &ident)
	{
		if (Wk *w = find(ident)) w->silent = w->maxtick = 0;
	}

	// ------------------------------------------------------------------ events

	uint32_t style = 0; // how the next registration is put
	void ev_init(const std::string &ident, const Caps &caps, const std::string &claim, bool desc, bool has_claim = false)
	{
		Frames f = {"init", caps.hwgroup};
		for (auto &x : caps.headers) f.push_back(x.first + "=" + x.second);
		if (has_claim || desc) {
			// in either order, beside things the broker does not know
			static const std::vector<std::string> descs = {"some worker", "some worker", "", "a=b", "current_job=x", "\xff\x01", "%s {} %n"};
			f.push_back("");
			if (style & 1) f.push_back("version=2");
			std::string d = "description=" + descs[(style >> 4) % descs.size()];
			if (desc && !(style & 2)) f.push_back(d);
			if (has_claim) f.push_back("current_job=" + claim);
			if (style & 4) f.push_back((style & 8) ? "description.x=1" : "");
			if (desc && (style & 2)) f.push_back(d);
		}
		style = 0;
		Wk *old = find(ident);
		bool same = old && old->caps == caps;
		ctx.note("worker " + hexdump(ident) + ": init " + caps.hwgroup + " " + show(caps.headers) + (has_claim ? " current_job=" + hexdump(claim) : "") + (old ? same ? " (again)" : " (changed)" : ""));
		heard(ident);
		Expect e;
		auto held = [&] {
			std::vector<std::pair<std::string, const void *>> r;
			for (auto &o : reg->get_workers()) r.push_back({o->identity, q->get_current_request(o).get()});
			std::sort(r.begin(), r.end());
			return r;
		};
		auto before = held();
		auto out = call(broker_connect::KEY_WORKERS, ident, f);
		if (same) {
			if (held() != before) viol("C12", "repeat-init", "repeating a registration changed what the broker takes the workers to be processing");
			if (!out.empty()) viol("C12", "repeat-init", "repeating a registration made the broker send " + show(out[0].data) + " to " + out[0].key);
			settle(out, e);
			return;
		}
		wks.emplace_back();
		Wk *w = &wks.back();
		w->ident = ident;
		w->caps = caps;
		if (old) {
			n.reinit++;
			if (old->cur) n.reinit_busy++;
			e.replaced = true;
			lose(old, e);
		}
		if (has_claim) {
			n.orphan++;
			jobs.emplace_back();
			Job *j = &jobs.back();
			j->id = claim;
			j->orphan = true;
			j->st = Job::RUN;
			j->on = w;
			j->serial = ++next_job;
			w->cur = j;
			for (auto &m : out)
				if (m.key == broker_connect::KEY_WORKERS && m.identity == ident) viol("C12", "claim-sent", "a worker that registered while busy was sent " + show(m.data));
		}
		after_losses(e);
		settle(out, e);
		// what was registered is what was announced
		std::multimap<std::string, std::string> hm;
		for (auto &x : caps.headers) hm.emplace(x.first, x.second);
		for (auto &o : reg->get_workers())
			if (o->identity == ident && (o->hwgroup != caps.hwgroup || !o->headers_equal(hm))) viol("C12", "registered-caps", "worker " + hexdump(ident) + " is registered with other capabilities than it announced last");
	}

	void ev_eval(const std::string &client, const std::string &id, const Hdrs &req, const std::vector<std::string> &meta, const Frames &data)
	{
		Frames f = {"eval", id};
		size_t mi = 0;
		for (size_t i = 0; i < req.size(); i++) {
			if (mi < meta.size() && (i & 1)) f.push_back(meta[mi++]);
			f.push_back(req[i].first + "=" + req[i].second);
		}
		for (; mi < meta.size(); mi++) f.push_back(meta[mi]);
		f.push_back("");
		f.insert(f.end(), data.begin(), data.end());
		ctx.note("client " + hexdump(client) + ": eval " + hexdump(id) + " " + show(req) + " + " + std::to_string(data.size()) + " frames");
		Expect e;
		e.client = client;
		jobs.emplace_back();
		Job *j = &jobs.back();
		j->id = id;
		j->req = req;
		j->frames = data;
		j->serial = ++next_job;
		j->wait_lo = j->wait_hi = step + 1;
		bool cap = any_capable(*j);
		bool accept = !frozen && cap;
		e.replies = {{"ack"}, accept ? Frames{"accept"} : Frames{"reject"}};
		if (!frozen && !cap) e.mon.insert({id, "FAILED"});
		auto out = call(broker_connect::KEY_CLIENTS, client, f);
		// what the broker says it did
		bool said_accept = false;
		for (auto &m : out)
			if (m.key == broker_connect::KEY_CLIENTS && m.data == Frames{"accept"}) said_accept = true;
		if (!said_accept) {
			n.rejected++;
			if (frozen) n.frozen_rej++;
			bool passed_on = false;
			for (auto &m : out)
				if (m.key != broker_connect::KEY_CLIENTS && !(m.key == broker_connect::KEY_MONITOR && !frozen)) passed_on = true;
			if (passed_on) {
				viol("C11", "rejected-passed-on", "a refused submission was passed on");
				viol("C02", "rejected-passed-on", "a refused submission had an effect");
			}
			if (q->get_queued_request_count() != waiting() - 1) viol("C11", "rejected-queued", "a refused submission was queued");
			j->st = Job::DONE;
			j->id += "#rejected";
			settle(out, e);
			return;
		}
		n.accepted++;
		j->id = id;
		settle(out, e);
		if (j->st == Job::WAIT) n.waited++;
		if (j->st == Job::WAIT && q->get_queued_request_count() != waiting()) viol("C11", "accepted-not-taken", "an accepted submission was neither queued nor sent");
	}

	void ev_done(Wk *w, int kind, const std::string &text, bool remark = false)
	{
		static const char *st[] = {"OK", "FAILED", "INTERNAL_ERROR"};
		Job *j = w->cur;
		Frames f = {"done", j->id, st[kind]};
		if (kind || remark) f.push_back(text); // success may come with a remark, which is of no consequence
		if (!kind && remark && text.size() % 2) f.push_back("and another");
		ctx.note("worker " + wn(w) + ": done " + jn(j) + " " + st[kind] + (!kind && remark ? " with a remark" : ""));
		heard(w->ident);
		Expect e;
		w->cur = nullptr;
		j->on = nullptr;
		j->cand.clear();
		step++;
		step--;
		if (kind == 0) {
			n.ok++;
			ok_done++;
			j->st = Job::WAIT;
			e.reports.push_back({j, {j->id, "OK", ""}});
		} else if (kind == 1) {
			n.failed++;
			failed_done++;
			j->st = Job::WAIT;
			e.reports.push_back({j, {j->id, "FAILED", text}});
			e.exact_text = true;
		} else {
			n.interr++;
			failed_done++;
			j->st = Job::WAIT;
			j->fails++;
			j->wait_lo = j->wait_hi = step + 1;
			if (j->orphan) {
				n.orphan_end++;
				e.reports.push_back({j, {j->id, "FAILED", text}});
			} else if (j->fails >= N) {
				n.exhausted++;
				e.reports.push_back({j, {j->id, "FAILED", text}});
				e.mon.insert({j->id, "FAILED"});
				e.must_end.insert(j);
			} else {
				e.retry = j;
				e.limbo.push_back(j);
			}
		}
		bool orphan = j->orphan;
		auto out = call(broker_connect::KEY_WORKERS, w->ident, f);
		if (kind < 2 || orphan) {
			// such a job is never sent again
			for (auto &m : out)
				if (m.key == broker_connect::KEY_WORKERS && m.data.size() > 1 && m.data[1] == j->id && !orphan && !shared_id(j)) viol("C09", "retried-finished", "job " + jn(j) + " was sent again after its worker reported " + st[kind]);
		}
		settle(out, e);
	}

	void ev_stray(const std::string &ident, const Frames &f)
	{
		n.stray++;
		ctx.note("worker " + hexdump(ident) + ": " + show(f) + " (to be ignored)");
		heard(ident);
		Expect e;
		e.nothing = true;
		e.unknown_sender = !find(ident);
		settle(call(broker_connect::KEY_WORKERS, ident, f), e);
	}

	void ev_ping(const std::string &ident, const Frames &more = {})
	{
		heard(ident);
		Expect e;
		e.worker = ident;
		e.wreplies = {{find(ident) ? "pong" : "intro"}};
		Frames f = {"ping"};
		f.insert(f.end(), more.begin(), more.end());
		auto out = call(broker_connect::KEY_WORKERS, ident, f);
		settle(out, e);
	}

	void ev_progress(const std::string &ident, const Frames &body)
	{
		n.progress++;
		ctx.note("worker " + hexdump(ident) + ": progress " + show(body));
		heard(ident);
		Expect e;
		e.progress = true;
		e.progress_frames = body;
		Frames f = {"progress"};
		f.insert(f.end(), body.begin(), body.end());
		settle(call(broker_connect::KEY_WORKERS, ident, f), e);
	}

	void ev_tick(long long ms)
	{
		auto out = call(broker_connect::KEY_TIMER, "", {std::to_string(ms)});
		Expect e;
		std::set<std::string> there;
		for (auto &w : reg->get_workers()) there.insert(w->identity);
		std::vector<Wk *> lost;
		for (auto w : registered()) {
			w->silent += ms;
			w->maxtick = std::max(w->maxtick, ms);
			if (!there.count(w->ident)) {
				if (w->silent < (long long) L * interval) viol("C08", "dropped-early", "worker " + wn(w) + " was dropped after " + std::to_string(w->silent) + " ms of silence, which is less than " + std::to_string(L) + " x " + std::to_string(interval));
				lost.push_back(w);
			} else if (w->silent > (long long) L * (interval + w->maxtick)) {
				viol("C08", "not-dropped", "worker " + wn(w) + " has been silent for " + std::to_string(w->silent) + " ms (ticks up to " + std::to_string(w->maxtick) + ") and is still registered; max_liveness " + std::to_string(L) + ", ping_interval " + std::to_string(interval));
			}
		}
		if (!lost.empty()) {
			std::string s = "      lost:";
			for (auto w : lost) s += " " + wn(w);
			ctx.note(s);
			n.survivors += registered().size() > lost.size();
		}
		for (auto w : lost) lose(w, e);
		after_losses(e);
		settle(out, e);
		if (P == "C14") ev_stats(CLIENTS[0], true);
	}

	void ev_freeze(bool on, const std::string &client, bool more = false)
	{
		ctx.note("client " + hexdump(client) + (on ? ": freeze" : ": unfreeze"));
		Expect e;
		e.client = client;
		e.replies = {{"ack"}};
		Frames f = {on ? "freeze" : "unfreeze"};
		if (more) f.push_back("now");
		auto out = call(broker_connect::KEY_CLIENTS, client, f);
		frozen = on;
		settle(out, e);
	}

	void ev_stats(const std::string &client, bool fresh)
	{
		n.stats++;
		Expect e;
		e.client = client;
		e.stats = true;
		auto out = call(broker_connect::KEY_CLIENTS, client, {"get-runtime-stats"});
		settle(out, e);
		if (P != "C14") return;
		Frames d;
		for (auto &m : out)
			if (m.key == broker_connect::KEY_CLIENTS) d = m.data;
		if (d.size() % 2) viol("C14", "stats-form", "the statistics are no list of pairs: " + show(d));
		std::map<std::string, std::string> kv;
		for (size_t i = 0; i + 1 < d.size(); i += 2) {
			if (kv.count(d[i])) viol("C14", "stats-form", "statistic " + d[i] + " is given twice");
			kv[d[i]] = d[i + 1];
		}
		auto want = [&](const char *k, size_t v) {
			if (!kv.count(k)) viol("C14", "stats-missing", std::string("statistic ") + k + " is missing");
			if (kv[k] != std::to_string(v)) viol("C14", "stats-value", std::string("statistic ") + k + " is " + kv[k] + ", really " + std::to_string(v));
		};
		want("evaluated-jobs", ok_done);
		want("failed-jobs", failed_done);
		want("is-frozen", frozen ? 1 : 0);
		if (fresh) {
			size_t idle = 0, busy = 0;
			for (auto w : registered()) (w->cur ? busy : idle)++;
			want("queued-jobs", waiting());
			want("worker-count", idle + busy);
			want("idle-worker-count", idle);
			want("jobs-in-progress", busy);
		}
	}

	// ------------------------------------------------------------------ generation

	std::string fresh_id(Src &s)
	{
		int k = ++serial_;
		if (s.chance(6)) {
			// the id of a job that is over, or was refused, is used again
			std::vector<std::string> old;
			for (auto &j : jobs)
				if (j.st == Job::DONE) old.push_back(j.id.size() > 9 && j.id.substr(j.id.size() - 9) == "#rejected" ? j.id.substr(0, j.id.size() - 9) : j.id);
			if (!old.empty()) {
				std::string id = s.pick(old);
				bool live = false;
				for (auto &j : jobs) live |= j.id == id && j.st != Job::DONE;
				if (!live) return id;
			}
		}
		if (big && s.chance(20)) return std::string(s.below(2) ? 300 : 1500 + s.below(4000), 'i') + std::to_string(k);
		switch (s.below(8)) {
		case 7: return std::string("\xff\x00", 2) + std::to_string(k);
		case 6: return "student_" + std::to_string(k) + " \xc4\x8d/&=";
		default: return "job" + std::to_string(k);
		}
	}
	int serial_ = 0;
	bool empty_id_used_ = false;

	void gen_eval(Src &s, bool simple)
	{
		auto ws = registered();
		Hdrs req;
		if (!ws.empty() && s.chance(85)) req = gen_req_for(s, ws[s.below((uint32_t) ws.size())]->caps);
		else req = gen_req_any(s);
		if (!req.empty() && s.chance(10)) {
			// almost what a worker has
			auto &x = req[s.below((uint32_t) req.size())];
			std::string &t = s.chance(20) ? x.first : x.second;
			switch (s.below(7)) {
			case 0: t += ' '; break;
			case 1: t = " " + t; break;
			case 2: t += '\0'; break;
			case 3: t = t.substr(0, t.size() / 2); break;
			case 4: t = t.substr(std::min<size_t>(1, t.size())); break;
			case 5:
				for (auto &ch : t) ch = islower((unsigned char) ch) ? toupper(ch) : tolower(ch);
				break;
			default: t += t; break;
			}
			// such a frame says something else
			if (x.first.find('=') != std::string::npos || x.first.compare(0, 5, "meta.") == 0) req.clear();
			// and what an empty alternative stands for is not specified
			else if (x.first == "hwgroup" && ("|" + x.second + "|").find("||") != std::string::npos) req.clear();
		}
		std::string id = fresh_id(s);
		if (simple) {
			ev_eval(CLIENTS[0], id, req, {}, {"frame"});
			return;
		}
		if (!empty_id_used_ && s.below(40) == 1) {
			id = "";
			empty_id_used_ = true;
		}
		std::vector<std::string> meta;
		if (s.chance(15)) meta = {"meta.a=b", "meta.hwgroup=nowhere"};
		Frames data;
		int k = (int) s.weighted({2, 6, 4, 2, 1, 1});
		for (int i = 0; i < k; i++) {
			data.push_back(s.chance(8) ? s.chance(20) ? id : s.pick(WORDS) : gen_bytes(s, 24));
			if (data.back().find('\0') != std::string::npos) n.binary++;
		}
		if (big && s.chance(20)) {
			// long ones, and many of them
			if (s.below(2)) {
				std::string l((s.below(20) == 1 ? 1048570 : 1000) + s.below(80000), 'D');
				if (s.below(2)) l[s.below((uint32_t) l.size())] = 0;
				data.insert(data.begin() + s.below((uint32_t) data.size() + 1), l);
			}
			else
				for (int i = 20 + (int) s.below(s.below(4) == 1 ? 500 : 80); i > 0; i--) data.push_back(i % 7 ? std::to_string(i) : "");
		}
		if (s.chance(7)) {
			// an id that is in use: nevertheless a job of its own
			std::vector<Job *> live;
			for (auto &j : jobs)
				if (!j.orphan && j.st != Job::DONE) live.push_back(&j);
			if (!live.empty()) {
				Job *o = live[s.below((uint32_t) live.size())];
				id = o->id;
				if (s.below(2)) req = o->req;
				data.push_back("copy " + std::to_string(serial_));
				n.copies++;
			}
		}
		ev_eval(CLIENTS[s.below(3)], id, req, meta, data);
	}

	std::string gen_reason(Src &s)
	{
		if (big && s.chance(20)) return std::string(s.below(4) == 1 ? 65530 + s.below(5000) : 300 + s.below(9000), 'r') + (s.below(2) ? std::string("!") : std::string("\0!", 2));
		return gen_bytes(s, 30);
	}

	Wk *pick_busy(Src &s)
	{
		std::vector<Wk *> b;
		for (auto w : registered())
			if (w->cur) b.push_back(w);
		return b.empty() ? nullptr : b[s.below((uint32_t) b.size())];
	}

	void gen_init(Src &s)
	{
		const std::string ident = any_ident(s);
		Wk *w = find(ident);
		if (s.chance(40)) style = s.raw() >> 8;
		if (w && s.chance(45)) {
			// the same registration again, possibly naming the job it is known to process
			bool claim = w->cur && s.chance(30);
			std::string id = claim ? w->cur->id : "";
			if (!claim && s.chance(15)) {
				// or another one: the registration is in force already, so this alters nothing either
				claim = true;
				id = fresh_id(s);
			}
			Caps c = w->caps;
			// headers of different names in another order are the same headers
			if (s.chance(25)) {
				std::stable_sort(c.headers.begin(), c.headers.end(), [](auto &a, auto &b) { return a.first < b.first; });
				if (s.below(2)) std::stable_sort(c.headers.begin(), c.headers.end(), [](auto &a, auto &b) { return a.first > b.first; });
			}
			ev_init(ident, c, id, s.chance(20), claim);
			return;
		}
		Caps c = gen_caps(s, ident);
		if (w && s.chance(25)) {
			// a small change only
			c = w->caps;
			switch (s.below(3)) {
			case 0: c.hwgroup = s.chance(20) ? "" : s.pick(GROUPS); break;
			case 1: c.headers.push_back({"env", "rust"}); break;
			default:
				if (!c.headers.empty()) c.headers.pop_back();
			}
		}
		if (w && c == w->caps) {
			ev_init(ident, w->caps, "", false);
			return;
		}
		bool claim = s.chance(25);
		std::string id = fresh_id(s);
		if (claim && s.chance(20)) {
			// a worker that was lost comes back still busy with the job it had been given
			for (auto &j : jobs)
				if (!j.orphan && j.sends > 0 && j.st != Job::RUN) id = j.id;
		}
		ev_init(ident, c, id, s.chance(30), claim);
	}

	void gen_stray(Src &s)
	{
		auto ws = registered();
		static const char *st[] = {"OK", "FAILED", "INTERNAL_ERROR"};
		std::string some_id = "nonsense";
		std::vector<Job *> live;
		for (auto &j : jobs)
			if (!j.orphan && j.st != Job::DONE) live.push_back(&j);
		for (int tries = 0; tries < 1; tries++) {
			switch (s.below(7)) {
			case 0: { // a registered worker names another job
				Wk *w = pick_busy(s);
				if (!w) break;
				std::vector<std::string> others;
				for (auto j : live)
					if (j->id != w->cur->id) others.push_back(j->id);
				if (!others.empty()) some_id = others[s.below((uint32_t) others.size())];
				std::string id = w->cur->id;
				switch (s.below(12)) { // almost the right one
				case 4: some_id = id + "x"; break;
				case 5: some_id = id + std::string(1, '\0'); break;
				case 6: some_id = " " + id; break;
				case 7: some_id = id + "\n"; break;
				case 8: some_id = id.substr(0, id.size() / 2); break;
				case 9: some_id = id.substr(std::min<size_t>(1, id.size())); break;
				case 10:
					some_id = id;
					for (auto &ch : some_id) ch = islower((unsigned char) ch) ? toupper(ch) : tolower(ch);
					break;
				case 11: some_id = ""; break;
				}
				if (some_id == w->cur->id) break;
				int k = s.below(3);
				Frames f = {"done", some_id, st[k]};
				if (k) f.push_back("text");
				ev_stray(w->ident, f);
				return;
			}
			case 1: { // an unknown worker
				std::string ident = "nobody";
				for (auto &i : IDENTS)
					if (!find(i) && s.chance(50)) ident = i;
				if (!live.empty()) some_id = live[s.below((uint32_t) live.size())]->id;
				int k = s.below(3);
				Frames f = {"done", some_id, st[k]};
				if (k) f.push_back("text");
				ev_stray(ident, f);
				return;
			}
			case 2: { // an idle worker
				Wk *idle = nullptr;
				for (auto w : ws)
					if (!w->cur) idle = w;
				if (!idle) break;
				if (!live.empty()) some_id = live[s.below((uint32_t) live.size())]->id;
				else if (!jobs.empty()) some_id = jobs.back().id;
				int k = s.below(3);
				Frames f = {"done", some_id, st[k]};
				if (k) f.push_back("text");
				ev_stray(idle->ident, f);
				return;
			}
			case 3: { // malformed
				Wk *w = pick_busy(s);
				if (!w) break;
				static const Frames bad[] = {{"ok"}, {"OK "}, {"Ok", "x"}, {""}, {"failed", "x"}, {"FAILED\n", "x"}, {"internal_error", "x"}, {"INTERNAL_FAILURE", "x"}, {"INTERNAL_ERROR "}, {"FAIL", "x"}, {"FAILED", "a", "b"}, {"FAILED", "", ""}, {"INTERNAL_ERROR"}};
				switch (s.below(9)) {
				case 5:
				case 6:
				case 7:
				case 8: {
					const Frames &b = bad[s.below(sizeof bad / sizeof *bad)];
					Frames f = {"done", w->cur->id};
					f.insert(f.end(), b.begin(), b.end());
					ev_stray(w->ident, f);
					return;
				}
				case 0: ev_stray(w->ident, {"done"}); return;
				case 1: ev_stray(w->ident, {"done", w->cur->id}); return;
				case 2: ev_stray(w->ident, {"done", w->cur->id, "FAILED"}); return;
				case 3: ev_stray(w->ident, {"done", w->cur->id, "INTERNAL_ERROR", "a", "b"}); return;
				default: ev_stray(w->ident, {"done", w->cur->id, "SOMETHING"}); return;
				}
			}
			case 4: { // repeats a completion
				for (auto w : ws) {
					for (auto &j : jobs)
						if (j.st == Job::DONE && (!w->cur || w->cur->id != j.id)) some_id = j.id;
					if (some_id != "nonsense") {
						ev_stray(w->ident, {"done", some_id, "OK"});
						return;
					}
				}
				break;
			}
			case 5:
				ev_stray(ws.empty() ? "nobody" : ws[s.below((uint32_t) ws.size())]->ident, {"init"});
				return;
			default: ev_stray(ws.empty() ? "nobody" : ws[s.below((uint32_t) ws.size())]->ident, {"whatever", "x"}); return;
			}
		}
	}

	void gen_silence(Src &s)
	{
		// some workers fall silent, the others keep talking; until the silent ones are gone (or almost)
		auto ws = registered();
		if (ws.empty()) return;
		uint32_t mask = s.raw();
		if (s.chance(50)) mask = 1u << s.below((uint32_t) std::min<size_t>(ws.size(), 32));
		std::set<std::string> silent;
		for (size_t i = 0; i < ws.size(); i++)
			if ((mask >> (i % 32)) & 1) silent.insert(ws[i]->ident);
		long long t = 1;
		switch (s.below(5)) {
		case 0: t = interval + 1; break;
		case 1: t = std::max<long long>(1, interval / 2); break;
		case 2: t = interval; break;
		case 3: t = interval * 3; break;
		default: t = std::max<long long>(1, interval / 3 + 1); break;
		}
		long long need = (long long) L * (interval + t);
		int rounds = (int) std::min<long long>(need / t + 2, L > 60 ? 1500 : 60);
		if (s.chance(25)) rounds = 1 + (int) s.below((uint32_t) rounds); // perhaps not quite long enough
		int talk = s.below(4);
		std::string line = "silence of";
		for (auto &x : silent) line += " " + hexdump(x);
		ctx.note(line + ": up to " + std::to_string(rounds) + " ticks of " + std::to_string(t) + " ms");
		for (int r = 0; r < rounds; r++) {
			bool any = false;
			for (auto w : registered()) {
				if (silent.count(w->ident)) any = true;
				else if (talk == 0) ev_ping(w->ident);
				else if (talk == 1) ev_progress(w->ident, {"x", "TASK", std::to_string(r)});
				else if (talk == 2) ev_stray(w->ident, {"done", "not a job", "OK"});
				else switch (s.below(9)) { // any sign of life will do
					case 0: ev_stray(w->ident, {""}); break;
					case 1: ev_stray(w->ident, {"progress"}); break;
					case 2: ev_stray(w->ident, {"init"}); break;
					case 3: ev_stray(w->ident, {"done"}); break;
					case 4: ev_stray(w->ident, {"whatever"}); break;
					case 5: ev_init(w->ident, w->caps, "", false); break;
					case 6: ev_stray(w->ident, {"eval", "x"}); break;
					case 7: ev_progress(w->ident, {""}); break;
					default: ev_ping(w->ident); break;
				}
			}
			if (!any) break;
			ev_tick(t);
		}
	}

	void do_op(Src &s)
	{
		std::vector<uint32_t> w = {10, 22, 3, 15, 5, 9, 6, 4, 3, 6, 6, 2, 3, 2, 1};
		if (P == "C09") w[14] = 6;
		if (frozen) w[12] = 12;
		if (P == "C06") w[2] = 8, w[13] = 6;
		if (P == "C08") w[9] = 20, w[10] = 8, w[7] = 8;
		if (P == "C12") w[0] = 20, w[7] = 10;
		if (P == "C11") w[11] = 6, w[12] = 6;
		if (P == "C14") w[9] = 10;
		if (P == "C10") w[8] = 10;
		switch (s.weighted(w)) {
		case 0: gen_init(s); break;
		case 1:
			gen_eval(s, false);
			break;
		case 2: {
			int k = (int) s.weighted({3, 3, 1}) ;
			int cnt = k == 0 ? 2 + s.below(4) : k == 1 ? 5 + s.below(10) : 17 + s.below(24);
			if (big && n.burst < 70 && s.chance(60)) cnt = s.below(50) == 1 ? 1030 + s.below(40) : 70 + s.below(230);
			n.burst = std::max(n.burst, cnt);
			ctx.note("burst of " + std::to_string(cnt) + " submissions");
			auto ws = registered();
			Hdrs req;
			if (!ws.empty()) req = gen_req_for(s, ws[s.below((uint32_t) ws.size())]->caps);
			Hdrs req2 = req;
			if (!ws.empty() && s.chance(35)) req2 = gen_req_for(s, ws[s.below((uint32_t) ws.size())]->caps);
			for (int i = 0; i < cnt; i++) ev_eval(CLIENTS[0], "burst" + std::to_string(++serial_), i % 3 == 1 ? req2 : req, {}, {"f"});
			break;
		}
		case 3:
			if (Wk *w = pick_busy(s)) ev_done(w, 0, s.below(2) ? "finished in 5 s" : "finished in 10 s", s.chance(10));
			break;
		case 4:
			if (Wk *w = pick_busy(s)) ev_done(w, 1, s.chance(20) ? gen_reason(s) : "compilation of " + std::to_string(s.below(1000)) + " failed");
			break;
		case 5:
			if (Wk *w = pick_busy(s)) ev_done(w, 2, s.chance(20) ? gen_reason(s) : "disk full " + std::to_string(s.below(1000)));
			break;
		case 6: gen_stray(s); break;
		case 7: {
			std::string i = any_ident(s);
			ctx.note("worker " + hexdump(i) + ": ping");
			if (s.chance(10)) ev_ping(i, {gen_bytes(s, 8)});
			else ev_ping(i);
			break;
		}
		case 8: {
			// registered or not, and whatever it says
			std::string ident = any_ident(s);
			Wk *w = find(ident);
			Frames b = {w && w->cur ? w->cur->id : "job"};
			if (s.chance(15)) b[0] = gen_bytes(s, 20);
			else if (s.chance(8)) b[0] = s.pick(WORDS);
			else if (s.chance(15) && !jobs.empty()) b[0] = jobs.front().id;
			int k = s.below(4);
			for (int i = 0; i < k; i++) b.push_back(gen_bytes(s, 20));
			// a progress message must not look like one of the broker's own
			if (b.size() == 2 && (b[1] == "FAILED" || b[1] == "ABORTED")) b.push_back("x");
			ev_progress(ident, b);
			break;
		}
		case 9: {
			long long t;
			switch (s.below(6)) {
			case 0: t = s.below(3); break;
			case 1: t = interval; break;
			case 2: t = interval + 1; break;
			case 3: t = interval * (1 + s.below(5)); break;
			case 4: t = s.below(12) ? 100 : 3000000000ll; break;
			default: t = 1 + s.below((uint32_t) interval + 1); break;
			}
			int k = 1 + (int) s.weighted({4, 2, 1, 1});
			ctx.note(std::to_string(k) + " tick(s) of " + std::to_string(t) + " ms");
			for (int i = 0; i < k; i++) ev_tick(t);
			break;
		}
		case 10: gen_silence(s); break;
		case 11: ev_freeze(true, CLIENTS[s.below(3)], s.chance(10)); break;
		case 12: ev_freeze(false, CLIENTS[s.below(3)], s.chance(10)); break;
		case 14: { // one job fails again and again
			Wk *w = pick_busy(s);
			if (!w) break;
			Job *j = w->cur;
			int k = s.chance(70) ? (int) N + 1 : 1 + (int) s.below((uint32_t) N);
			ctx.note("job " + jn(j) + " fails up to " + std::to_string(k) + " times");
			for (int i = 0; i < k; i++) {
				w = nullptr;
				for (auto x : registered())
					if (x->cur == j) w = x;
				if (!w) break;
				ev_done(w, 2, "no " + std::to_string(i));
			}
			break;
		}
		default: {
			static const std::vector<long long> d = {1, 999999, 1000000, 5000000, 60000000000ll};
			long long v = s.pick(d);
			if (s.chance(40)) {
				n.jumps++;
				long long j = s.chance(50) ? -3600000000000ll : 3600000000000ll;
				ctx.note("system clock adjusted by " + std::to_string(j / 1000000) + " ms");
				vclock::jump(j);
			}
			vclock::advance(v);
			if (P == "C14" || s.chance(30)) ev_stats(CLIENTS[s.below(3)], false);
			break;
		}
		}
		// time passes between messages, mostly less than a clock tick
		if (s.chance(30)) vclock::advance(1000000ll * (1 + s.below(5)));
	}

	void drain(bool silent)
	{
		if (!silent) {
			ctx.note("now every worker finishes what it is given");
			for (int round = 0; round < 2000; round++) {
				Wk *busy = nullptr;
				for (auto w : registered())
					if (w->cur) busy = w;
				if (!busy) break;
				ev_done(busy, 0, "");
			}
			for (auto &j : jobs) {
				if (j.orphan || j.st == Job::DONE) continue;
				viol("C01", "never-served", "job " + jn(&j) + " was accepted but neither dispatched nor reported although all workers finished everything they were given");
				viol("C02", "never-served", "job " + jn(&j) + " was accepted but is never reported although all workers finished everything they were given");
				if (j.fails > 0) viol("C09", "never-retried", "job " + jn(&j) + " failed " + std::to_string(j.fails) + " of " + std::to_string(N) + " times and was neither tried again nor reported although all workers finished everything they were given");
				viol("C05", "never-served", "job " + jn(&j) + " is left waiting although all workers are idle");
				if (frozen) viol("C11", "frozen-never-served", "job " + jn(&j) + ", accepted before the freeze, is not served though all workers are idle");
			}
		} else {
			ctx.note("now every worker falls silent");
			for (size_t i = 0; i < 2 * L + 4; i++) ev_tick(interval + 1);
			for (auto &j : jobs) {
				if (j.st == Job::DONE) continue;
				viol("C01", "never-reported", "job " + jn(&j) + " was never reported although all workers are gone");
				viol("C02", "never-reported", "job " + jn(&j) + " was never reported although all workers are gone");
			}
			if (!registered().empty()) viol("C08", "not-dropped", "workers are still registered after a long silence");
		}
		if (q->get_queued_request_count() != waiting()) viol("C01", "lost-job", "queue count wrong at the end");
	}

	void classify()
	{
		auto L_ = [&](bool b, const char *l) {
			if (b) ctx.label(l);
		};
		L_(n.accepted > 0, "accepted");
		L_(n.waited > 0, "job waited");
		L_(n.from_queue > 0, "job served from queue");
		L_(n.resends > 0, "job retried");
		L_(n.lost_busy > 0, "busy worker lost");
		L_(n.lost_idle > 0, "idle worker lost");
		L_(n.lost_with_waiting > 0, "worker lost while jobs wait");
		L_(n.multi_lost > 0, "several workers lost at once");
		L_(n.interr > 0, "internal error");
		L_(n.exhausted > 0, "attempts used up");
		L_(n.gaveup > 0, "no capable worker left");
		L_(n.stray > 0, "stray message");
		L_(n.reinit > 0, "capabilities changed");
		L_(n.reinit_busy > 0, "capabilities changed while busy");
		L_(n.orphan > 0, "claimed job");
		L_(n.rejected > n.frozen_rej, "rejected");
		L_(n.frozen_rej > 0, "rejected while frozen");
		L_(n.burst > 16, "burst over 16");
		L_(n.burst > 64, "burst over 64");
		L_(n.burst > 1000, "burst over 1000");
		L_(n.jumps > 0, "clock adjusted");
		L_(crowd, "crowd of workers");
		L_(n.copies > 0, "id in use submitted again");
		bool nt = false;
		bool lost = n.lost_busy || n.lost_with_waiting;
		if (P == "C01") nt = n.waited && (lost || n.interr || n.reinit);
		else if (P == "C02") nt = (n.ok + n.failed + n.interr > 0) && (lost || n.stray || n.exhausted || n.orphan_end);
		else if (P == "C03") nt = n.accepted && n.rejected > n.frozen_rej && n.from_queue + n.resends > 0;
		else if (P == "C04") nt = n.from_queue > 0 && (n.orphan || n.interr || lost);
		else if (P == "C05") nt = n.waited && n.from_queue && (n.interr || n.failed || lost || n.orphan);
		else if (P == "C06") nt = n.from_queue >= 2;
		else if (P == "C08") nt = n.lost_busy + n.lost_idle > 0 && n.survivors > 0;
		else if (P == "C09") nt = n.resends > 0 || n.exhausted > 0;
		else if (P == "C10") nt = n.sends > 0 && (n.resends > 0 || n.binary > 0 || n.progress > 0);
		else if (P == "C11") nt = n.frozen_rej > 0 && n.accepted > 0;
		else if (P == "C12") nt = n.reinit > 0 || (n.orphan > 0 && n.from_queue > 0);
		else if (P == "C13") nt = lost || n.exhausted || n.rejected > n.frozen_rej;
		else if (P == "C14") nt = n.stats > 0 && n.accepted > 0 && (lost || n.waited);
		ctx.nontrivial = nt;
	}
};

} // namespace

void run_world(const std::string &prop, pbt::Ctx &ctx)
{
	World w(prop, ctx);
	w.run();
}
