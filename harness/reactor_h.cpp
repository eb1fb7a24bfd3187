// C17 (reactor delivery), C18 (elapsed time), C19 (router socket framing)
#include "clock.hpp"
#include "engine.hpp"
#include "loopback.hpp"
#include "gen.hpp"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using pbt::Ctx;
using pbt::fail;
using pbt::hexdump;
using pbt::Src;

namespace {

double now_s()
{
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string addr(const char *what, const void *p, int i)
{
	return "inproc://" + std::string(what) + std::to_string((uintptr_t) p) + "-" + std::to_string(i);
}

struct Peer {
	zmq::socket_t sock;
	std::string id;
	Peer(zmq::context_t &c, const std::string &ident, zmq::socket_type t = zmq::socket_type::dealer) : sock(c, t), id(ident)
	{
		int zero = 0;
		zmq_setsockopt((void *) sock, ZMQ_SNDHWM, &zero, sizeof zero);
		zmq_setsockopt((void *) sock, ZMQ_RCVHWM, &zero, sizeof zero);
		zmq_setsockopt((void *) sock, ZMQ_LINGER, &zero, sizeof zero);
		if (!ident.empty()) zmq_setsockopt((void *) sock, ZMQ_IDENTITY, ident.data(), ident.size());
	}
	void connect(const std::string &a)
	{
		if (zmq_connect((void *) sock, a.c_str())) throw pbt::Inconclusive{"cannot connect"};
	}
	void send(const Frames &f)
	{
		for (size_t i = 0; i < f.size(); i++)
			if (zmq_send((void *) sock, f[i].data(), f[i].size(), i + 1 < f.size() ? ZMQ_SNDMORE : 0) < 0) throw pbt::Inconclusive{"cannot send"};
	}
	/** receive one message if there is one within the time */
	bool recv(Frames &f, int ms)
	{
		f.clear();
		zmq_pollitem_t it{(void *) sock, 0, ZMQ_POLLIN, 0};
		if (zmq_poll(&it, 1, ms) <= 0) return false;
		int more = 1;
		while (more) {
			zmq_msg_t m;
			zmq_msg_init(&m);
			if (zmq_msg_recv(&m, (void *) sock, 0) < 0) {
				zmq_msg_close(&m);
				return false;
			}
			f.emplace_back((char *) zmq_msg_data(&m), zmq_msg_size(&m));
			more = zmq_msg_more(&m);
			zmq_msg_close(&m);
		}
		return true;
	}
};

Frames gen_payload(Src &s, size_t maxframes)
{
	Frames f;
	size_t n = s.below((uint32_t) maxframes + 1);
	for (size_t i = 0; i < n; i++) f.push_back(gen_bytes(s, 40));
	if (s.chance(3)) { // a long one somewhere
		static const std::vector<size_t> len = {255, 256, 1000, 4096, 8193, 65536, 70000, 150000, 400000, 1u << 20, 2500000};
		std::string l(s.pick(len) + s.below(3), 'x');
		if (s.below(2)) l[s.below((uint32_t) l.size())] = 0;
		f.insert(f.begin() + s.below((uint32_t) f.size() + 1), l);
	}
	if (s.chance(2)) // many
		for (int i = 20 + (int) s.below(s.below(3) ? 200 : 1500); i > 0; i--) f.push_back(i % 5 ? std::to_string(i) : "");
	return f;
}

// ====================================================================== C17

struct Item {
	std::string key, ident;
	Frames data;
	bool operator==(const Item &o) const { return key == o.key && ident == o.ident && data == o.data; }
	std::string str() const
	{
		std::string d;
		for (auto &x : data) d += (d.empty() ? "" : ", ") + (x.size() > 60 ? "(" + std::to_string(x.size()) + " bytes)" : hexdump(x));
		return key + " " + hexdump(ident) + " [" + d + "]";
	}
};

struct World;

struct Rule {
	int kind; // 0 reply to the sender, 1 to a fixed peer, 2 raise an event, 3 to nobody, 4 an empty message to a fixed peer, 5 an event with nothing but its name
	int sock = 0, peer = 0, event = 0, count = 1;
	size_t frames = 1;
};

struct Hand : handler_interface {
	World &w;
	int no;
	bool async = false;
	std::vector<std::string> subs;
	std::vector<Rule> rules;
	int in_call = 0; // guarded by the mutex of the world
	bool gate = true;
	Hand(World &w, int no) : w(w), no(no) {}
	bool subscribed(const std::string &k) const { return std::find(subs.begin(), subs.end(), k) != subs.end(); }
	void on_request(const message_container &m, const response_cb &respond) override;
};

/** Everything sent and received, per producer and sink. Kept on the heap and leaked if a case fails. */
struct World {
	std::shared_ptr<zmq::context_t> ctx = std::make_shared<zmq::context_t>(1);
	std::mutex m;
	std::condition_variable cv;
	std::vector<std::string> socks, events{"ev0", "ev1", "ev2"};
	std::vector<std::vector<std::unique_ptr<Peer>>> peers;
	std::vector<std::shared_ptr<Hand>> hands; // hands[0] is the witness
	std::unique_ptr<reactor> r;
	std::thread loop;
	// producer -> sink -> what should arrive there; sink -> producer -> what did
	std::map<std::string, std::map<std::string, std::vector<Item>>> sent, got;
	std::map<std::string, int> seq;
	long in_flight = 0; // sent but not received
	long busy = 0; // handler calls running
	long emitted = 0, timers = 0;
	bool started = false, ended = false;
	std::string problem;

	std::string tag(const std::string &producer) { return producer + ":" + std::to_string(seq[producer]++); }
	static std::string producer_of(const std::string &tag)
	{
		auto i = tag.find(':');
		return i == std::string::npos ? "?" : tag.substr(0, i);
	}
	void sending(const std::string &producer, const std::string &sink, const Item &i)
	{
		sent[sink][producer].push_back(i);
		in_flight++;
	}
	void to_handlers(const std::string &producer, const Item &i)
	{
		for (auto &h : hands)
			if (h->subscribed(i.key)) sending(producer, "h" + std::to_string(h->no), i);
	}
	void arrived(const std::string &sink, const std::string &tag, const Item &i)
	{
		std::string p = producer_of(tag);
		auto &g = got[sink][p];
		auto &s = sent[sink][p];
		if (g.size() >= s.size()) {
			if (problem.empty()) problem = sink + " got something that was not sent to it, or once more than it was sent: " + i.str();
		} else if (!(s[g.size()] == i)) {
			if (problem.empty()) problem = sink + " got " + i.str() + " instead of " + s[g.size()].str();
		}
		g.push_back(i);
		in_flight--;
		cv.notify_all();
	}
	bool is_sock(const std::string &k) const { return std::find(socks.begin(), socks.end(), k) != socks.end(); }
};

void Hand::on_request(const message_container &m, const response_cb &respond)
{
	std::unique_lock<std::mutex> l(w.m);
	{
		if (m.key == reactor::KEY_TIMER) {
			w.timers++;
			if (!subscribed(m.key) && w.problem.empty()) w.problem = "a handler that is not subscribed to it got a timer message";
			w.cv.notify_all();
			return;
		}
		if (async && in_call && w.problem.empty()) w.problem = "an asynchronous handler was called twice at once";
		in_call++;
		w.busy++;
		Item it{m.key, m.identity, m.data};
		if (!subscribed(m.key) && w.problem.empty()) w.problem = "handler h" + std::to_string(no) + " got a message it is not subscribed to: " + it.str();
		bool sock = w.is_sock(m.key);
		w.arrived("h" + std::to_string(no), sock ? m.data.empty() ? "?" : m.data[0] : m.identity.empty() ? "?" + m.key + ":" : m.identity, it);
		if (async) w.cv.wait(l, [&] { return gate; });
		int level = sock ? -1 : (int) (std::find(w.events.begin(), w.events.end(), m.key) - w.events.begin());
		std::string me = "h" + std::to_string(no);
		// a direct handler called from within its own response does not respond again: such responses overtake the first one
		bool nested = in_call > 1;
		for (auto &r : rules) {
			if (nested) break;
			for (int c = 0; c < r.count; c++) {
				if (w.emitted > 12000) break;
				message_container o;
				std::string sink;
				if (r.kind == 0) {
					if (!sock) continue;
					o.key = m.key;
					o.identity = m.identity;
				} else if (r.kind == 1 || r.kind == 4) {
					o.key = w.socks[r.sock];
					o.identity = w.peers[r.sock][r.peer]->id;
				} else if (r.kind == 2 || r.kind == 5) {
					if (r.event <= level) continue;
					o.key = w.events[r.event];
				} else {
					o.key = "nowhere";
					o.data = {"x"};
					if (r.peer & 1 || r.event) {
						// to a peer that is not there
						o.key = w.socks[r.sock];
						o.identity = r.event == 1 ? "" : "nobody";
					}
				}
				if (w.is_sock(o.key) && !async && !w.started) continue; // the socket is not there yet
				if (r.kind <= 1) {
					o.data.push_back(w.tag(me));
					for (size_t q = 0; q < r.frames; q++) o.data.push_back(q < m.data.size() ? m.data[q] : "");
					if (r.frames == 2 && r.count == 1) // all there is
						for (size_t q = r.frames; q < m.data.size(); q++) o.data.push_back(m.data[q]);
					size_t s = std::find(w.socks.begin(), w.socks.end(), o.key) - w.socks.begin();
					bool known = false;
					for (size_t p = 0; p < w.peers[s].size(); p++)
						if (w.peers[s][p]->id == o.identity) {
							w.sending(me, o.key + "." + std::to_string(p), Item{"", "", o.data});
							known = true;
						}
					if (!known && w.problem.empty()) w.problem = "a handler was told of a sender that does not exist";
				} else if (r.kind == 2) {
					o.identity = w.tag(me);
					for (size_t q = 0; q < r.frames; q++) o.data.push_back(q < m.data.size() ? m.data[q] : "");
					if (r.frames == 2 && r.count == 1) // all there is
						for (size_t q = r.frames; q < m.data.size(); q++) o.data.push_back(m.data[q]);
					w.to_handlers(me, Item{o.key, o.identity, o.data});
				} else if (r.kind == 5) {
					w.to_handlers("?" + o.key, Item{o.key, "", {}});
				}
				w.emitted++;
				l.unlock();
				respond(o);
				l.lock();
			}
		}
	}
	in_call--;
	w.busy--;
	w.cv.notify_all();
}

/** one socket is never empty: the others, and asynchronous handlers, must have their turns nevertheless */
void c17_busy(Ctx &ctx, Src &c)
{
	static const std::vector<std::string> names = {"workers", "clients", "monitor", "a", "z"};
	struct Box {
		std::shared_ptr<zmq::context_t> zctx = std::make_shared<zmq::context_t>(1);
		std::unique_ptr<reactor> r;
		std::vector<std::unique_ptr<Peer>> p;
		std::thread t;
		std::atomic<bool> gate{false}, ended{false}, answered{false}, in_time{false};
		std::atomic<int> busy{0};
		std::mutex m;
		std::vector<int> other; // for each of the others: how many messages of the busy socket were handled before it
		int done = -1;
		std::string trouble;
	};
	Box *b = new Box; // leaked on failure
	size_t nsock = 1 + c.below(5), flooded = c.below((uint32_t) nsock), count = 0;
	int n = 200 + c.below(200), ask = 1 + c.below(20);
	bool with_async = nsock == 1 || c.below(2);
	std::vector<int> each;
	for (size_t k = 0; k < nsock; k++) each.push_back(k == flooded ? n : (int) c.below(4));
	b->r.reset(new reactor(b->zctx));
	std::vector<std::string> subs(names.begin(), names.begin() + nsock);
	for (size_t k = 0; k < nsock; k++) {
		std::string a = addr("f", b, (int) k);
		b->r->add_socket(subs[k], std::make_shared<router_socket_wrapper>(b->zctx, a, true));
		b->p.emplace_back(new Peer(*b->zctx, "p"));
		b->p.back()->connect(a);
		if (k != flooded) count += each[k];
		ctx.note("socket " + subs[k] + ": " + std::to_string(each[k]) + " messages");
	}
	if (with_async) ctx.note("an asynchronous handler is asked after " + std::to_string(ask) + " messages");
	struct Direct : handler_interface {
		Box *b;
		std::string flooded;
		int ask;
		void on_request(const message_container &m, const response_cb &respond) override
		{
			if (m.key == flooded) {
				for (double lim = now_s() + 20; !b->gate && now_s() < lim;) usleep(20);
				int k = ++b->busy;
				if (k == ask) respond(message_container("question", "", {"?"}));
				if (k == ask + 1) // until the answer is there to be fetched
				{
					for (double lim = now_s() + 5; !b->answered && now_s() < lim;) usleep(20);
					b->in_time = b->answered.load();
				}
				return;
			}
			std::unique_lock<std::mutex> l(b->m);
			if (m.key == "answer") b->done = b->busy;
			else b->other.push_back(b->busy);
		}
	};
	struct Async : handler_interface {
		Box *b;
		void on_request(const message_container &, const response_cb &respond) override
		{
			respond(message_container("answer", "", {"!"}));
			b->answered = true;
		}
	};
	auto d = std::make_shared<Direct>();
	d->b = b;
	d->flooded = subs[flooded];
	d->ask = with_async ? ask : -5;
	subs.push_back("answer");
	b->r->add_handler(subs, d);
	auto q = std::make_shared<Async>();
	q->b = b;
	if (with_async) b->r->add_async_handler({"question"}, q);
	for (int i = 0; i < n; i++) b->p[flooded]->send({"x", std::to_string(i)});
	for (size_t k = 0; k < nsock; k++)
		for (int i = 0; k != flooded && i < each[k]; i++) b->p[k]->send({"y"});
	b->gate = true;
	b->t = std::thread([b] {
		b->r->start_loop();
		b->ended = true;
	});
	for (double lim = now_s() + 20;; usleep(100)) {
		std::unique_lock<std::mutex> l(b->m);
		if (b->busy == n && b->other.size() == count && (!with_async || b->done >= 0)) break;
		l.unlock();
		if (now_s() > lim) fail("lost", "only " + std::to_string(b->busy) + " of " + std::to_string(n) + " messages and " + std::to_string(b->other.size()) + " of " + std::to_string(count) + " on other sockets were handled within 20 s");
	}
	b->r->terminate();
	for (double lim = now_s() + 20; !b->ended; usleep(100))
		if (now_s() > lim) fail("stop", "the reactor did not end its loop");
	b->t.join();
	for (int k : b->other)
		if (k > n / 2) fail("starved", "a message on another socket was handled only after " + std::to_string(k) + " of the " + std::to_string(n) + " messages that were waiting on socket " + d->flooded);
	if (with_async && b->in_time && b->done > ask + n / 2) fail("starved", "the response of an asynchronous handler, asked after " + std::to_string(ask) + " messages, was handled only after " + std::to_string(b->done) + " of the " + std::to_string(n) + " that were waiting on socket " + d->flooded);
	ctx.nontrivial = count || with_async;
	ctx.label("a socket that is never empty");
	b->r.reset();
	b->p.clear();
	delete b;
}

void c17(Ctx &ctx)
{
	vclock::reset();
	vclock::real = true;
	Src c = ctx.config();
	if (c.chance(5)) return c17_busy(ctx, c);
	World *wp = new World; // leaked on failure: its threads may still be running
	World &w = *wp;
	int nsock = 1 + c.below(3), nev = 3;
	static const std::vector<std::string> names = {"workers", "clients", "monitor"};
	static const std::vector<std::string> ids = {"a", "recodex-monitor", std::string("b\0\xff\x80", 4), "c"};
	for (int s = 0; s < nsock; s++) {
		w.socks.push_back(names[s]);
		w.peers.emplace_back();
		int np = 1 + c.below(3);
		for (int p = 0; p < np; p++) w.peers.back().emplace_back(new Peer(*w.ctx, ids[(p + s) % ids.size()]));
	}
	w.r.reset(new reactor(w.ctx));
	int nh = 1 + c.below(5);
	std::vector<std::string> all = w.socks;
	switch (c.below(8)) {
	case 5: w.events = {"status_notifier", "TERMINATE", "ev2"}; break; // names that mean something to the code
	case 6: w.events = {"", "TERMINATE", std::string("\0\xff", 2)}; break;
	case 7: w.events = {"workers2", "client", "workers.clients"}; break;
	default: break;
	}
	for (int e = 0; e < nev; e++) all.push_back(w.events[e]);
	int asyncs = 0;
	for (int h = 0; h <= nh; h++) {
		auto p = std::make_shared<Hand>(w, h);
		if (h == 0) {
			p->subs = all;
			if (c.below(2)) p->subs.push_back(reactor::KEY_TIMER);
		} else {
			p->async = c.below(2);
			asyncs += p->async;
			uint32_t mask = c.raw();
			for (size_t i = 0; i < all.size(); i++)
				if (mask >> i & 1) p->subs.push_back(all[i]);
			if (p->subs.empty()) p->subs.push_back(all[0]);
			if ((mask >> 10 & 7) == 0) p->subs.push_back(reactor::KEY_TIMER);
			int nr = c.below(3);
			for (int i = 0; i < nr; i++) {
				Rule r;
				r.kind = (int) c.weighted({4, 3, 4, 1, 1, 1});
				uint32_t x = c.raw();
				r.sock = x % nsock;
				r.peer = (x >> 4) % w.peers[r.sock].size();
				r.event = (x >> 8) % nev;
				r.count = (x >> 12) % 4 == 0 ? 3 : 1;
				r.frames = (x >> 16) % 3;
				p->rules.push_back(r);
			}
		}
		w.hands.push_back(p);
		std::string d = "handler h" + std::to_string(h) + (p->async ? " async" : " direct") + ":";
		for (auto &x : p->subs) d += " " + (x.empty() || x[0] < 'A' ? hexdump(x) : x);
		for (auto &r : p->rules) d += " rule" + std::to_string(r.kind) + "x" + std::to_string(r.count) + (r.kind == 2 ? " " + hexdump(w.events[r.event]) : "");
		ctx.note(d);
	}
	for (int s = 0; s < nsock; s++) {
		std::string a = addr("r", wp, s);
		w.r->add_socket(w.socks[s], std::make_shared<router_socket_wrapper>(w.ctx, a, true));
		for (auto &p : w.peers[s]) p->connect(a);
	}
	for (auto &h : w.hands) {
		if (h->async) w.r->add_async_handler(h->subs, h);
		else w.r->add_handler(h->subs, h);
		if (h->no && c.chance(20)) {
			// a message right after a handler has been added, the others come later
			std::unique_lock<std::mutex> l(w.m);
			std::string key = h->subs[0];
			if (!w.is_sock(key) && key != reactor::KEY_TIMER) {
				Item it{key, w.tag("ext"), {"early"}};
				for (auto &o : w.hands)
					if (o->no <= h->no && o->subscribed(key)) w.sending("ext", "h" + std::to_string(o->no), it);
				l.unlock();
				ctx.note("message right after h" + std::to_string(h->no) + " has been added");
				// responses raise events that only the handlers there so far can get
				auto saved = h->rules;
				std::vector<std::vector<Rule>> keep;
				for (auto &o : w.hands) {
					keep.push_back(o->rules);
					o->rules.clear();
				}
				w.r->process_message(message_container(it.key, it.ident, it.data));
				l.lock();
				double lim = now_s() + 20;
				while (w.in_flight && now_s() < lim) {
					l.unlock();
					usleep(200);
					l.lock();
				}
				if (w.in_flight) fail("lost", "a handler did not get a message passed to it right after it was added");
				while (w.busy) {
					l.unlock();
					usleep(100);
					l.lock();
				}
				for (size_t i = 0; i < keep.size(); i++) w.hands[i]->rules = keep[i];
			}
		}
	}
	int mode = (int) c.weighted({8, 4, 1, 1}); // 0 everything arrives, 1 stopped at some point, 2 stopped before it starts, 3 never started
	bool many = c.chance(4) && asyncs;
	auto set_gate = [&](bool open) {
		std::unique_lock<std::mutex> l(w.m);
		for (auto &h : w.hands) h->gate = open;
		w.cv.notify_all();
	};
	size_t sent_total = 0;
	auto pump = [&](bool all) {
		Frames f;
		for (size_t s = 0; s < w.peers.size(); s++)
			for (size_t p = 0; p < w.peers[s].size(); p++)
				while (w.peers[s][p]->recv(f, 0)) {
					std::unique_lock<std::mutex> l(w.m);
					w.arrived(w.socks[s] + "." + std::to_string(p), f[0], Item{"", "", f});
				}
	};
	auto check = [&] {
		std::unique_lock<std::mutex> l(w.m);
		if (!w.problem.empty()) fail("delivery", w.problem);
	};
	auto quiesce = [&] {
		double lim = now_s() + 20;
		long last = -1;
		while (true) {
			pump(true);
			check();
			long left;
			{
				std::unique_lock<std::mutex> l(w.m);
				left = w.in_flight + w.busy;
				if (left == 0) return;
				if (w.in_flight != last) lim = now_s() + 20; // still moving
				last = w.in_flight;
			}
			if (now_s() > lim) {
				std::unique_lock<std::mutex> l(w.m);
				std::string d;
				for (auto &a : w.sent)
					for (auto &b : a.second) {
						size_t g = w.got[a.first][b.first].size();
						if (g < b.second.size() && d.empty()) d = a.first + " did not get " + b.second[g].str() + " from " + b.first;
					}
				fail("lost", std::to_string(w.in_flight) + " messages did not arrive; " + d);
			}
			usleep(100);
		}
	};
	auto peer_send = [&](int s, int p, const Frames &payload) {
		Frames f;
		{
			std::unique_lock<std::mutex> l(w.m);
			std::string prod = w.socks[s] + "." + std::to_string(p);
			f.push_back(w.tag(prod));
			f.insert(f.end(), payload.begin(), payload.end());
			w.to_handlers(prod, Item{w.socks[s], w.peers[s][p]->id, f});
		}
		w.peers[s][p]->send(f);
		sent_total++;
	};
	auto start = [&] {
		if (w.loop.joinable()) return;
		{
			std::unique_lock<std::mutex> l(w.m);
			w.started = true;
		}
		w.loop = std::thread([wp] {
			try {
				wp->r->start_loop();
			} catch (const std::exception &e) {
				std::unique_lock<std::mutex> l(wp->m);
				wp->problem = std::string("the reactor threw: ") + e.what();
			}
			std::unique_lock<std::mutex> l(wp->m);
			wp->ended = true;
			wp->cv.notify_all();
		});
	};
	// messages before the loop runs
	size_t pre = c.chance(30) ? 1 + c.below(6) : 0;
	if (many && c.below(2)) pre = 2500;
	if (pre > 100) set_gate(false);
	if (pre) ctx.note(std::to_string(pre) + " messages before the loop starts");
	for (size_t i = 0; i < pre; i++) {
		Item it;
		{
			std::unique_lock<std::mutex> l(w.m);
			it = Item{w.events[pre > 100 ? 2 : i % nev], w.tag("ext"), i % 2 ? Frames{} : Frames{"pre", ""}};
			w.to_handlers("ext", it);
		}
		w.r->process_message(message_container(it.key, it.ident, it.data));
	}
	bool bursts = pre > 100, gated = pre > 100;
	if (mode == 2) {
		ctx.note("stopped before it starts");
		w.r->terminate();
	}
	if (mode < 2) {
		for (size_t i = 0; i < ctx.ops(); i++) {
			Src s = ctx.op(i);
			if (i == ctx.tape[0].size() % 3 || i == 2) start();
			int sk = s.below(nsock), pr = s.below((uint32_t) w.peers[sk].size());
			switch (s.weighted({10, 4, 2, 2, 1})) {
			case 0: {
				Frames f = gen_payload(s, 4);
				ctx.note("peer " + std::to_string(pr) + " on " + w.socks[sk] + ": " + std::to_string(f.size()) + " frames");
				peer_send(sk, pr, f);
				break;
			}
			case 1: {
				int n = many && s.below(2) ? 2600 : 5 + s.below(40);
				if (sent_total > 6000) n = 3;
				if (n > 1000) {
					set_gate(false);
					gated = bursts = true;
				}
				ctx.note("peer " + std::to_string(pr) + " on " + w.socks[sk] + ": burst of " + std::to_string(n));
				for (int k = 0; k < n; k++) peer_send(sk, pr, {});
				break;
			}
			case 2:
				ctx.note("asynchronous handlers are slow");
				set_gate(false);
				gated = true;
				break;
			case 3:
				ctx.note("asynchronous handlers go on");
				set_gate(true);
				break;
			default:
				start();
				set_gate(true);
				ctx.note("wait");
				quiesce();
			}
		}
	}
	if (mode == 0) {
		start();
		if (gated) usleep(20000); // let the reactor pass everything on while the handlers are still blocked
		set_gate(true);
		quiesce();
		for (int s = 0; s < nsock; s++)
			for (size_t p = 0; p < w.peers[s].size(); p++) peer_send(s, (int) p, {"sentinel"});
		quiesce();
	}
	if (mode == 3) {
		ctx.note("destroyed without ever running");
		set_gate(true);
		w.r.reset();
	} else {
		start();
		if (mode == 1) ctx.note("stopped");
		w.r->terminate();
		if (mode) usleep(1000 * c.below(3));
		set_gate(true);
		double lim = now_s() + 20;
		while (true) {
			std::unique_lock<std::mutex> l(w.m);
			if (w.ended) break;
			l.unlock();
			if (now_s() > lim) fail("stop", "the reactor did not end its loop within 20 s of being told to stop");
			usleep(200);
		}
		w.loop.join();
	}
	pump(true);
	check();
	std::unique_lock<std::mutex> wl(w.m);
	if (w.busy) fail("stop", "an asynchronous handler is still running after the reactor has ended");
	// whatever the reactor passed on has been handled
	std::map<std::string, std::vector<Item>> seen;
	for (auto &p : w.got["h0"]) seen[p.first] = p.second;
	for (auto &h : w.hands) {
		if (!h->async) continue;
		for (auto &p : seen) {
			std::vector<Item> want;
			for (auto &i : p.second)
				if (h->subscribed(i.key)) want.push_back(i);
			// early messages of the driver went only to the handlers there were
			auto &g = w.got["h" + std::to_string(h->no)][p.first];
			auto &s = w.sent["h" + std::to_string(h->no)][p.first];
			if (p.first == "ext") {
				if (g.size() != s.size()) fail("unfinished", "an asynchronous handler did not handle all messages passed to it before the reactor ended");
			} else if (g.size() != want.size()) {
				fail("unfinished", "an asynchronous handler handled " + std::to_string(g.size()) + " of " + std::to_string(want.size()) + " messages from " + p.first + " passed to it before the reactor ended");
			}
		}
	}
	wl.unlock();
	w.r.reset();
	pump(true);
	check();
	ctx.nontrivial = asyncs > 0 && w.emitted >= 3 && sent_total >= 5;
	if (asyncs) ctx.label("asynchronous handlers");
	if (bursts) ctx.label("thousands of outstanding messages");
	if (mode == 1) ctx.label("stopped in the middle");
	if (mode >= 2) ctx.label("stopped before it starts");
	if (w.emitted) ctx.label("responses");
	delete wp;
}

// ====================================================================== C18

struct TimeHand : handler_interface {
	std::mutex m;
	std::vector<long> reported;
	std::vector<int64_t> at; // virtual (or real) time when each report came in, and when it had been handled
	std::vector<int64_t> after;
	std::string problem;
	int64_t start = 0;
	std::function<void()> on_tick;
	static int64_t now()
	{
		if (!vclock::real) return vclock::steady_ns;
		timespec t;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
		return t.tv_sec * 1000000000ll + t.tv_nsec;
	}
	void on_request(const message_container &msg, const response_cb &) override
	{
		int64_t t = now();
		std::unique_lock<std::mutex> l(m);
		long v = 0;
		try {
			size_t n = 0;
			v = std::stol(msg.data.at(0), &n);
			if (n != msg.data[0].size() || msg.data.size() != 1) problem = "a timer message is not one number";
		} catch (...) {
			problem = "a timer message is not a number";
		}
		reported.push_back(v);
		at.push_back(t);
		l.unlock();
		if (on_tick) on_tick();
		l.lock();
		after.push_back(now());
	}
};

void c18(Ctx &ctx)
{
	vclock::reset();
	Src c = ctx.config();
	bool real = c.chance(4);
	vclock::real = real;
	auto zctx = std::make_shared<zmq::context_t>(1);
	struct Box {
		TimeHand th;
		std::shared_ptr<zmq::context_t> zctx;
		std::unique_ptr<reactor> r;
		std::vector<std::unique_ptr<Peer>> p;
		std::thread t;
		std::mutex m;
		std::deque<std::function<void()>> work; // done by the handler of the socket, one per message
		std::atomic<int> handled{0};
		std::atomic<bool> ended{false};
		std::deque<int64_t> tick_work;
	};
	Box *b = new Box; // leaked on failure
	b->zctx = zctx;
	b->r.reset(new reactor(zctx));
	static const std::vector<std::string> names = {"s", "a", "zz", "workers"};
	struct Work : handler_interface {
		Box *b;
		Work(Box *b) : b(b) {}
		void on_request(const message_container &, const response_cb &) override
		{
			std::function<void()> f;
			{
				std::unique_lock<std::mutex> l(b->m);
				f = b->work.front();
				b->work.pop_front();
			}
			f();
			b->handled++;
		}
	};
	struct Fwd : handler_interface {
		Box *b;
		Fwd(Box *b) : b(b) {}
		void on_request(const message_container &m, const response_cb &r) override { b->th.on_request(m, r); }
	};
	/** another one that wants to know the time */
	struct Also : handler_interface {
		std::string what;
		std::mutex m;
		std::vector<long> reported;
		void on_request(const message_container &msg, const response_cb &) override
		{
			if (msg.key != reactor::KEY_TIMER) return;
			std::unique_lock<std::mutex> l(m);
			reported.push_back(atol(msg.data.at(0).c_str()));
		}
	};
	std::vector<std::shared_ptr<Also>> others;
	static const std::vector<int64_t> steps = {0, 1000, 100000, 400000, 999999, 1300000, 20000000};
	int64_t aa = real ? 0 : c.pick(steps);
	int64_t tick_ns = c.chance(30) ? 1000ll * c.below(3000) : 0;
	if (!real && tick_ns) b->th.on_tick = [=] { vclock::advance(tick_ns); };
	size_t nsock = c.chance(50) ? 1 : 2 + c.below(3);
	uint32_t more = c.below(3) ? 0 : c.raw();
	std::vector<std::string> socks(names.begin(), names.begin() + nsock);
	for (size_t k = 0; k < nsock; k++) {
		std::string a = addr("t", b, (int) k);
		b->r->add_socket(socks[k], std::make_shared<router_socket_wrapper>(zctx, a, true));
		b->p.emplace_back(new Peer(*zctx, "p"));
		b->p.back()->connect(a);
	}
	auto add_others = [&](uint32_t bits, const std::string &when) {
		for (; bits & 1; bits >>= 3) {
			others.push_back(std::make_shared<Also>());
			std::vector<std::string> subs = {reactor::KEY_TIMER};
			if (bits & 2) subs.insert(subs.begin(), socks.begin(), socks.end());
			others.back()->what = std::string(bits & 4 ? "an asynchronous" : "a direct") + " handler" + (bits & 2 ? ", subscribed to sockets, too," : "") + " added " + when;
			if (bits & 4) b->r->add_async_handler(subs, others.back());
			else b->r->add_handler(subs, others.back());
			ctx.note(others.back()->what);
		}
	};
	add_others(more & 0x3f, "before the others");
	b->r->add_handler(socks, std::make_shared<Work>(b));
	b->r->add_handler({reactor::KEY_TIMER}, std::make_shared<Fwd>(b));
	add_others(more >> 6 & 0x3f, "after the others");
	ctx.note(std::string(real ? "real clock" : "clock moves " + std::to_string(aa) + " ns per reading") + ", handling a tick takes " + std::to_string(tick_ns) + " ns");
	vclock::auto_advance_ns = aa;
	b->th.start = TimeHand::now();
	b->t = std::thread([b] {
		b->r->start_loop();
		b->ended = true;
	});
	size_t turn = 0;
	auto send = [&](std::function<void()> f, bool wait) {
		int want;
		{
			std::unique_lock<std::mutex> l(b->m);
			b->work.push_back(f);
			want = b->handled + (int) b->work.size();
		}
		b->p[turn++ % b->p.size()]->send({"x"});
		if (!wait) return;
		double lim = now_s() + 20;
		while (b->handled < want) {
			if (now_s() > lim) fail("lost", "a message was not handled within 20 s");
			usleep(20);
		}
	};
	auto ticks = [&] {
		std::unique_lock<std::mutex> l(b->th.m);
		return b->th.after.size();
	};
	// the loop runs (in real mode: its first, idle ticks)
	double lim = now_s() + 20;
	if (!real) send([] {}, true);
	while (ticks() == 0) {
		if (now_s() > lim) fail("no-ticks", "an idle reactor does not report elapsed time");
		usleep(100);
	}
	int slow = 0, floods = 0, jumps = 0;
	size_t nops = real ? std::min<size_t>(ctx.ops(), 6) : ctx.ops();
	for (size_t i = 0; i < nops; i++) {
		Src s = ctx.op(i);
		switch (s.weighted({5, 4, 3, 2, 1})) {
		case 4: {
			if (real) break;
			// many messages that all are there already, and each takes its time
			int n = 100 + s.below(100);
			int64_t each = 1000000ll * (5 + s.below(50));
			ctx.note(std::to_string(n) + " waiting messages that take " + std::to_string(each) + " ns each");
			auto gate = std::make_shared<std::atomic<bool>>(false);
			auto first = std::make_shared<size_t>(0);
			send([=] {
				for (double lim = now_s() + 20; !*gate && now_s() < lim;) usleep(20);
				std::unique_lock<std::mutex> l(b->th.m);
				*first = b->th.at.size();
			}, false);
			for (int k = 0; k < n; k++) send([=] { vclock::advance(each); }, false);
			auto last = std::make_shared<size_t>(0);
			send([=] {
				std::unique_lock<std::mutex> l(b->th.m);
				*last = b->th.at.size();
			}, false);
			*gate = true;
			double lim = now_s() + 20;
			while (true) {
				std::unique_lock<std::mutex> l(b->m);
				if (b->work.empty()) break;
				l.unlock();
				if (now_s() > lim) fail("lost", "a message was not handled within 20 s");
				usleep(20);
			}
			send([] {}, true);
			if (*last < *first + 2) fail("starved", "while " + std::to_string(n) + " messages took " + std::to_string(n * each / 1000000) + " ms, " + std::to_string(*last - *first) + " reports of elapsed time were made");
			floods++;
			break;
		}
		case 0: {
			int n = 1 + s.below(60);
			ctx.note("flood of " + std::to_string(n) + " messages");
			for (int k = 0; k < n; k++) send([] {}, false);
			send([] {}, true);
			floods++;
			break;
		}
		case 1: {
			int64_t ns = 1000ll * s.below(s.below(3) ? 900 : 400000);
			if (!real && s.chance(10)) ns = 1000000ll * s.pick(std::vector<int64_t>{1000, 59999, 60001, 3600000, 90000000, 2147483648, 6000000000});
			if (real) ns = std::min<int64_t>(ns, 30000000);
			ctx.note("a handler takes " + std::to_string(ns) + " ns");
			if (real) send([=] { usleep(ns / 1000); }, true);
			else send([=] { vclock::advance(ns); }, true);
			slow++;
			break;
		}
		case 2: {
			if (real) break;
			int64_t ns = (s.below(2) ? 1 : -1) * (1000000ll * s.below(5000000));
			ctx.note("system clock adjusted by " + std::to_string(ns) + " ns");
			if (s.below(2)) send([=] { vclock::jump(ns); }, true);
			else vclock::jump(ns);
			jumps++;
			break;
		}
		default: {
			// time passes while the reactor waits
			int64_t ns = 1000ll * s.below(200000);
			if (!real && s.chance(10)) ns = 1000000ll * s.pick(std::vector<int64_t>{1000, 59999, 60001, 3600000, 90000000, 2147483648, 6000000000});
			ctx.note("quiet for " + std::to_string(ns) + " ns");
			if (real) usleep(std::min<int64_t>(ns, 120000000) / 1000);
			else vclock::advance(ns);
			send([] {}, true);
		}
		}
	}
	// two more turns
	for (int k = 0; k < 2; k++) {
		size_t have = ticks();
		send([] {}, true);
		lim = now_s() + 20;
		while (ticks() <= have) {
			if (now_s() > lim) fail("no-ticks", "the reactor does not report elapsed time");
			usleep(20);
		}
	}
	b->r->terminate();
	lim = now_s() + 20;
	while (!b->ended) {
		if (now_s() > lim) fail("stop", "the reactor did not end its loop");
		usleep(100);
	}
	b->t.join();
	b->r.reset(); // at the latest now everybody has got everything
	TimeHand &th = b->th;
	if (!th.problem.empty()) fail("format", th.problem);
	for (auto &o : others) {
		std::unique_lock<std::mutex> l(o->m);
		if (o->reported == th.reported) continue;
		fail("told", o->what + " was told of elapsed time " + std::to_string(o->reported.size()) + " times, not the same as another one, who was told " + std::to_string(th.reported.size()) + " times");
	}
	// at most ten readings of the clock may pass before the reactor starts to measure
	const int64_t ms = 1000000, slack = 10 * aa + ms + (real ? 500 * ms : 0);
	int64_t sum = 0;
	for (size_t i = 0; i < th.reported.size(); i++) {
		if (th.reported[i] < 0) fail("negative", "the reactor reported " + std::to_string(th.reported[i]) + " ms");
		sum += th.reported[i] * ms;
		int64_t passed = th.at[i] - th.start;
		if (sum > passed + ms) fail("too-much", "after " + std::to_string(passed) + " ns the reactor has reported " + std::to_string(sum) + " ns");
		if (i >= 2) {
			int64_t due = th.after[i - 2] - th.start;
			if (sum < due - slack) fail("too-little", "after " + std::to_string(due) + " ns and two more turns the reactor has reported " + std::to_string(sum) + " ns, in " + std::to_string(i + 1) + " reports");
		}
	}
	ctx.nontrivial = th.reported.size() >= 20 && (slow || jumps);
	if (jumps) ctx.label("clock adjusted");
	if (slow) ctx.label("slow handlers");
	if (floods) ctx.label("dense traffic");
	if (real) ctx.label("real clock");
	if (nsock > 1) ctx.label("several sockets");
	if (!others.empty()) ctx.label("several handlers");
	b->p.clear();
	delete b;
}

// ====================================================================== C19

void c19(Ctx &ctx)
{
	vclock::reset();
	vclock::real = true;
	Src c = ctx.config();
	auto zctx = std::make_shared<zmq::context_t>(1);
	struct P {
		std::unique_ptr<Peer> p;
		std::string ident; // as the wrapper sees it
		std::string kind;
		std::deque<Frames> to_peer, to_broker;
		bool open = true;
	};
	std::vector<P> ps;
	bool bound = !c.chance(25);
	bool tcp = c.chance(25);
	std::string a = tcp ? "tcp://" + ip_text(loopback()) + ":*" : addr("c19", &ctx, (int) c.below(1000));
	std::unique_ptr<router_socket_wrapper> w;
	struct Acc : router_socket_wrapper {
		using router_socket_wrapper::router_socket_wrapper;
		void *raw() { return get_pollitem().socket; }
	};
	Acc *acc = nullptr;
	int unknown = 0, empty = 0, msgs = 0, closed = 0;
	static const std::vector<std::string> ids = {"recodex-monitor", "a", std::string("b\0\xff\x80", 4), "b", std::string(255, 'z'), ""};
	if (bound) {
		w.reset(acc = new Acc(zctx, a, true));
		try {
			w->initialize();
		} catch (const zmq::error_t &e) {
			if (tcp && e.num() == EADDRINUSE) throw pbt::Inconclusive{"no port"};
			throw;
		}
		if (tcp) {
			char buf[200];
			size_t n = sizeof buf;
			zmq_getsockopt(acc->raw(), ZMQ_LAST_ENDPOINT, buf, &n);
			a = buf;
		}
		ctx.note("router bound over " + std::string(tcp ? "tcp" : "inproc"));
	} else {
		// the other end is bound, the way the monitor is
		P p;
		p.p.reset(new Peer(*zctx, "recodex-monitor", c.below(2) ? zmq::socket_type::dealer : zmq::socket_type::router));
		if (zmq_bind((void *) p.p->sock, a.c_str())) throw pbt::Inconclusive{"cannot bind"};
		if (tcp) {
			char buf[200];
			size_t n = sizeof buf;
			zmq_getsockopt((void *) p.p->sock, ZMQ_LAST_ENDPOINT, buf, &n);
			a = buf;
		}
		p.ident = "recodex-monitor";
		p.kind = "bound";
		ps.push_back(std::move(p));
		w.reset(acc = new Acc(zctx, a, false));
		w->initialize();
		ctx.note("router connected over " + std::string(tcp ? "tcp" : "inproc"));
	}
	auto ready = [&](int ms) {
		zmq_pollitem_t it = w->get_pollitem();
		return zmq_poll(&it, 1, ms) > 0;
	};
	auto receive = [&](message_container &m) {
		if (!ready(10000)) fail("lost", "a message sent by a peer did not arrive");
		m.data = {"left", "over"};
		m.key = "k";
		if (!w->receive_message(m)) fail("receive", "receiving failed although a message was there");
		if (m.key != "k") fail("receive", "receiving a message changes its key");
	};
	auto find = [&](const std::string &id) -> P * {
		for (auto &p : ps)
			if (p.open && p.ident == id) return &p;
		return nullptr;
	};
	auto take = [&] { // receive everything that is on its way to the wrapper
		size_t left = 0;
		for (auto &p : ps) left += p.to_broker.size();
		for (; left; left--) {
			message_container m;
			receive(m);
			P *p = find(m.identity);
			if (!p) fail("sender", "a message came with the identity " + hexdump(m.identity) + ", which no peer has");
			if (p->to_broker.empty()) fail("duplicate", "a message from " + hexdump(m.identity) + " came twice: " + show(m.data));
			if (m.data != p->to_broker.front()) fail("frames", "peer " + hexdump(m.identity) + " sent " + show(p->to_broker.front()) + " and it was received as " + show(m.data));
			p->to_broker.pop_front();
		}
		if (ready(0)) {
			message_container m;
			w->receive_message(m);
			fail("duplicate", "an extra message was received: " + show(m.data));
		}
	};
	if (!bound) {
		// wait until the two know each other
		P &p = ps[0];
		double lim = now_s() + 10;
		Frames f;
		while (true) {
			w->send_message(message_container("", p.ident, {"hi"}));
			if (p.p->recv(f, 20)) break;
			if (now_s() > lim) fail("lost", "a peer the router connected to cannot be reached");
		}
		while (p.p->recv(f, tcp ? 50 : 5)) {}
	}
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		std::vector<size_t> open;
		for (size_t k = 0; k < ps.size(); k++)
			if (ps[k].open) open.push_back(k);
		size_t op = s.weighted({3, 8, 8, 2, 2, 1, 2});
		if (open.empty()) op = 0;
		if (op == 0 && bound && open.size() < 4) {
			std::string id = s.pick(ids);
			bool used = false; // libzmq needs time to forget a peer that has disconnected
			for (auto &x : ps) used |= x.ident == id;
			if (!id.empty() && used) continue;
			P p;
			p.p.reset(new Peer(*zctx, id));
			p.p->connect(a);
			p.ident = id;
			ctx.note("peer " + hexdump(id) + " connects");
			take();
			p.p->send({"hello"});
			message_container m;
			receive(m);
			if (m.data != Frames{"hello"} || (!id.empty() && m.identity != id) || (id.empty() && find(m.identity))) fail("frames", "the first message of peer " + hexdump(id) + " was received as " + show(m.data) + " from " + hexdump(m.identity));
			p.ident = m.identity;
			ps.push_back(std::move(p));
		} else if (op == 1 && !open.empty()) {
			P &p = ps[open[s.below((uint32_t) open.size())]];
			Frames f = gen_payload(s, 5);
			if (f.empty()) f.push_back("");
			ctx.note("to " + hexdump(p.ident) + ": " + std::to_string(f.size()) + " frames");
			if (!w->send_message(message_container("any", p.ident, f))) fail("send", "sending to a connected peer failed");
			p.to_peer.push_back(f);
			msgs++;
		} else if (op == 2 && !open.empty()) {
			P &p = ps[open[s.below((uint32_t) open.size())]];
			if (p.kind == "bound") continue; // may be a router, which does not know our identity
			Frames f = gen_payload(s, 5);
			if (f.empty()) f.push_back("");
			ctx.note("from " + hexdump(p.ident) + ": " + std::to_string(f.size()) + " frames");
			p.p->send(f);
			p.to_broker.push_back(f);
			msgs++;
		} else if (op == 3) {
			std::string id = s.below(2) ? "nobody" : std::string("\0\1\2\3\4", 5);
			if (find(id)) continue;
			Frames f = gen_payload(s, 3);
			ctx.note("to nobody: " + std::to_string(f.size()) + " frames");
			w->send_message(message_container("", id, f));
			unknown++;
		} else if (op == 4 && !open.empty()) {
			P &p = ps[open[s.below((uint32_t) open.size())]];
			ctx.note("to " + hexdump(p.ident) + ": a message without frames");
			w->send_message(message_container("", p.ident, {}));
			empty++;
		} else if (op == 5 && bound && open.size() > 1) {
			P &p = ps[open[s.below((uint32_t) open.size())]];
			take();
			Frames f;
			while (!p.to_peer.empty()) {
				if (!p.p->recv(f, 10000)) fail("lost", "a message to " + hexdump(p.ident) + " did not arrive");
				if (f != p.to_peer.front()) fail("frames", "message " + show(p.to_peer.front()) + " arrived as " + show(f));
				p.to_peer.pop_front();
			}
			ctx.note("peer " + hexdump(p.ident) + " disconnects");
			p.p->sock.close();
			p.open = false;
			closed++;
		} else if (op == 6) {
			take();
		}
	}
	take();
	for (auto &p : ps) {
		if (!p.open) continue;
		Frames f;
		w->send_message(message_container("", p.ident, {"the end", ""}));
		p.to_peer.push_back({"the end", ""});
		while (!p.to_peer.empty()) {
			if (!p.p->recv(f, 10000)) fail("lost", "message " + show(p.to_peer.front()) + " to " + hexdump(p.ident) + " did not arrive");
			// a router on the other end sees the identity of our socket first
			int type = 0;
			size_t n = sizeof type;
			zmq_getsockopt((void *) p.p->sock, ZMQ_TYPE, &type, &n);
			if (type == ZMQ_ROUTER && !f.empty()) f.erase(f.begin());
			if (f != p.to_peer.front()) fail("frames", "to " + hexdump(p.ident) + ": message " + show(p.to_peer.front()) + " arrived as " + show(f));
			p.to_peer.pop_front();
		}
		if (p.p->recv(f, 0)) fail("duplicate", "an extra message arrived: " + show(f));
	}
	ctx.nontrivial = msgs >= 4 && (unknown || empty || closed);
	if (unknown) ctx.label("to an unknown peer");
	if (empty) ctx.label("without frames");
	if (closed) ctx.label("peer disconnects");
	ctx.label(bound ? "bound" : "connected");
	if (tcp) ctx.label("tcp");
}

} // namespace

int main(int argc, char **argv)
{
	std::vector<pbt::Property> v;
	pbt::Property p;
	p.id = "C17";
	p.run = c17;
	p.rule = "Random reactors (1-3 router sockets with 1-3 peers each, up to five direct or asynchronous handlers with random "
			 "subscriptions and random responses to senders, other peers, internal events or nobody) under random traffic: single "
			 "messages, bursts up to thousands while asynchronous handlers are blocked, messages right after a handler is added and "
			 "before the loop runs, stopping after, during and before it runs. Every sink must see, per producer, exactly the "
			 "sequence the producer sent. One case in 20 keeps one socket full and "
			 "demands that the others and asynchronous handlers have their turns. Non-trivial: an asynchronous handler, at least five "
			 "messages and three responses.";
	p.min_ops = 3;
	p.max_ops = 30;
	p.width = 16;
	p.cfg_width = 64;
	p.threads = true;
	p.confirm = 10;
	p.case_timeout = 60;
	v.push_back(p);
	p.id = "C18";
	p.run = c18;
	p.rule = "The reactor runs on a clock controlled by the harness that moves a random amount with every reading, under random "
			 "floods, handlers that take time, quiet periods and adjustments of the system clock (a few cases use the real clock). "
			 "After every report the sum of all reports is compared with the time that has passed. Non-trivial: at least 20 reports "
			 "and a slow handler or a clock adjustment.";
	p.max_ops = 25;
	p.width = 6;
	p.cfg_width = 12;
	v.push_back(p);
	p.id = "C19";
	p.run = c19;
	p.rule = "Random messages (empty, binary and large frames) in both directions between a router socket wrapper, bound or "
			 "connected, and up to four peers over inproc and tcp, with messages to unknown and disconnected peers and messages "
			 "without frames in between; each message must come out once, whole and in order. Non-trivial: at least four messages "
			 "and one to an unknown or closed peer or without frames.";
	p.max_ops = 40;
	p.width = 16;
	p.cfg_width = 8;
	v.push_back(p);
	return pbt::run_main(argc, argv, v);
}
