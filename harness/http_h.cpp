// C20 (what the frontend decodes), C21 (repeated until confirmed)
#include "engine.hpp"
#include "gen.hpp"
#include "http_server.hpp"
#include "handlers/status_notifier_handler.h"
#include "helpers/curl.h"
#include "helpers/logger.h"
#include "notifier/reactor_status_notifier.h"
#include <arpa/inet.h>
#include <atomic>
#include <cstring>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using pbt::Ctx;
using pbt::fail;
using pbt::hexdump;
using pbt::Src;

namespace {

// ---- pauses of the code under test, recorded instead of waited for
Server *the_server;
std::vector<int64_t> pauses;
thread_local bool under_test;
void record(int64_t ns)
{
	pauses.push_back(ns);
	if (the_server) the_server->paused(pauses.size());
}

// ---- the time, as the code under test (and libcurl for it) sees it
std::atomic<int64_t> later_ns{0};
void a_while_passes() { later_ns += 20000000000ll; }

std::string b64(const std::string &s)
{
	static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = 0;
		for (int k = 0; k < 3; k++) v = v << 8 | (i + k < s.size() ? (unsigned char) s[i + k] : 0);
		for (int k = 0; k < 4; k++) r += i + k > s.size() ? '=' : t[v >> (18 - 6 * k) & 63];
	}
	return r;
}

/** what one notification must look like at the frontend */
struct Want {
	std::string path;
	Params params;
	int depth; // slashes that separate segments (those of an id must not look like it)
};

std::string gen_text(Src &s)
{
	static const std::vector<std::string> v = {"", "Job failed", "a=b&c=d", "100%", "a+b", "no worker <&> \"x\" 'y'", "\xc5\xbe lu\xc5\xa5ou\xc4\x8dk\xc3\xbd", "%41%zz", "line\r\nnext: header\r\n\r\n", std::string("nul\0nul", 7), "a;b", "#frag", "?q=1", "\xff\xfe", "=", "&", "status=OK", " ", "\t", "error", "type", "id", "status", "message", "job-status", "OK", "FAILED"};
	if (s.chance(60)) {
		std::string r = s.pick(v);
		if (s.chance(30)) r += s.pick(v);
		return r;
	}
	std::string r = gen_bytes(s, 60);
	if (s.chance(5)) r += std::string(s.below(200000), 'm');
	return r;
}
std::string gen_id(Src &s)
{
	static const std::vector<std::string> v = {"student_123", "42", "a b", "a/b", "a?b=c", "a#b", "100%", "x%20y", "\xc5\xbe", "a+b", "a&b=c", "../x", "a\r\nb", "~x-y_z.w", std::string("n\0l", 3), ";", ":80", "//x", "[1]", "{x}", "\\", "error", "type", "id", "status", "message", "job-status"};
	std::string r = s.chance(70) ? s.pick(v) : gen_bytes(s, 30);
	if (s.chance(2)) r += std::string(200 + s.below(5000), 'i');
	if (r == "." || r == "..") r += "x"; // not addressable below a path
	return r;
}

struct Notif {
	std::vector<Want> want;
	std::string text;
	std::function<void(reactor_status_notifier &)> raise;
};
Notif gen_notif(Src &s, const std::string &prefix)
{
	Notif n;
	std::string id = gen_id(s), msg = gen_text(s);
	const int base = (int) std::count(prefix.begin(), prefix.end(), '/') + 1;
	auto depth = [&](const std::string &i) { return base + !i.empty(); };
	auto path = [&](const std::string &i) { return prefix + "/job-status" + (i.empty() ? "" : "/" + i); };
	switch (s.below(5)) {
	case 0:
		n.text = "job_done " + hexdump(id);
		n.want.push_back({path(id), {{"status", "OK"}}, depth(id)});
		n.raise = [=](reactor_status_notifier &r) { r.job_done(id); };
		break;
	case 1:
		n.text = "job_failed " + hexdump(id) + " " + hexdump(msg);
		n.want.push_back({path(id), {{"status", "FAILED"}, {"message", msg}}, depth(id)});
		n.raise = [=](reactor_status_notifier &r) { r.job_failed(id, msg); };
		break;
	case 2:
		n.text = "rejected_job " + hexdump(id) + " " + hexdump(msg);
		n.want.push_back({path(id), {{"status", "FAILED"}, {"message", msg}}, depth(id)});
		n.raise = [=](reactor_status_notifier &r) { r.rejected_job(id, msg); };
		break;
	case 3:
		n.text = "error " + hexdump(msg);
		n.want.push_back({prefix + "/error", {{"message", msg}}, base});
		n.raise = [=](reactor_status_notifier &r) { r.error(msg); };
		break;
	default: {
		std::vector<std::string> ids;
		int k = s.below(4);
		for (int i = 0; i < k; i++) ids.push_back(i ? gen_id(s) : id);
		n.text = "rejected_jobs";
		for (auto &i : ids) {
			n.text += " " + hexdump(i);
			n.want.push_back({path(i), {{"status", "FAILED"}, {"message", msg}}, depth(i)});
		}
		n.text += " " + hexdump(msg);
		n.raise = [=](reactor_status_notifier &r) { r.rejected_jobs(ids, msg); };
	}
	}
	return n;
}

void check_req(const Req &r, const Want &w, const notifier_config &cfg)
{
	if (!r.complete) fail("request", "the frontend got an incomplete request");
	if (r.method != "POST") fail("method", "the frontend got a " + r.method + " request");
	size_t q = r.target.find_first_of("?#");
	std::string path, why;
	if (!pct(r.target.substr(0, q), false, path)) fail("path", "the path " + hexdump(r.target) + " cannot be decoded");
	if (path != w.path || q != std::string::npos) fail("path", "the frontend was sent to " + hexdump(r.target) + ", which is not the address of " + hexdump(w.path));
	if (std::count(r.target.begin(), r.target.end(), '/') != w.depth) fail("path", "the frontend was sent to " + hexdump(r.target) + ", where a slash of the job id cannot be told from a separator");
	for (unsigned char c : r.target)
		if (c <= 32 || c >= 127) fail("path", "the request line contains raw bytes: " + hexdump(r.target));
	Params p;
	if (!parse_form(r.body, p, why)) fail("params", why);
	if (p != w.params) {
		std::string d;
		for (auto &x : p) d += " " + hexdump(x.first) + "=" + hexdump(x.second);
		std::string e;
		for (auto &x : w.params) e += " " + hexdump(x.first) + "=" + hexdump(x.second);
		fail("params", "the frontend decodes" + d + " instead of" + e);
	}
	std::string ct = r.header("Content-Type");
	if (ct.compare(0, 33, "application/x-www-form-urlencoded") != 0) fail("params", "the content type is " + ct);
	int n = 0;
	std::string auth = r.header("Authorization", &n);
	std::string want = cfg.username.empty() && cfg.password.empty() ? "" : "Basic " + b64(cfg.username + ":" + cfg.password);
	if (auth != want || n != (want.empty() ? 0 : 1)) fail("credentials", "the frontend got the credentials " + hexdump(auth) + " instead of " + hexdump(want));
	if (r.header("Host") != the_server->host + ":" + std::to_string(cfg.port)) fail("address", "the request was made to " + r.header("Host"));
}

notifier_config gen_cfg(Src &c, std::string &prefix)
{
	static const std::vector<std::string> pre = {"", "/broker-reports", "/v1/broker-reports", "/a%20b", "/x"};
	static const std::vector<std::string> user = {"", "user", "re_codex", "\xc5\xbe", "u&x=y", "a b", "someone@example.org", "do\\main\\\"u\"/1", std::string(300, 'u')};
	static const std::vector<std::string> pass = {"", "pw", "p:q:r", "p@ss/word?", " ", "\xff", "pw%41", std::string(300, 'p')};
	notifier_config cfg;
	prefix = c.pick(pre);
	cfg.address = "http://127.0.0.1" + prefix;
	std::string dec;
	pct(prefix, false, dec);
	prefix = dec;
	cfg.username = c.pick(user);
	cfg.password = c.pick(pass);
	return cfg;
}

struct Session {
	Server srv;
	Session() { the_server = &srv; }
	~Session() { the_server = nullptr; }
};

void c20(Ctx &ctx)
{
	Src c = ctx.config();
	std::string prefix;
	notifier_config cfg = gen_cfg(c, prefix);
	Session ss;
	cfg.port = ss.srv.port;
	std::string shown = cfg.address;
	cfg.address.replace(cfg.address.find("127.0.0.1"), 9, ss.srv.host);
	ctx.note("frontend at " + shown + " user " + hexdump(cfg.username) + " password " + hexdump(cfg.password));
	status_notifier_handler h(cfg, helpers::create_null_logger());
	int special = 0;
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		Notif n = gen_notif(s, prefix);
		ctx.note(n.text);
		special += n.text.find_first_of("&=%+#?\\ ") != std::string::npos;
		pauses.clear();
		{
			std::unique_lock<std::mutex> l(ss.srv.m);
			ss.srv.reqs.clear();
		}
		ss.srv.begin({OK, OK, OK, OK, OK, OK, OK, OK});
		int foreign = 0;
		reactor_status_notifier r(
			[&](const message_container &m) {
				if (m.key != "notify-key" || m.identity != "") foreign++;
				under_test = true;
				try {
					h.on_request(m, [&](const message_container &) { foreign++; });
				} catch (const std::exception &e) {
					fail("threw", std::string("a notification raised an error: ") + e.what());
				}
				under_test = false;
			},
			"notify-key");
		n.raise(r);
		if (ss.srv.broken) throw pbt::Inconclusive{"cannot listen"};
		if (foreign) fail("foreign", "a notification was sent somewhere else");
		std::vector<Req> reqs;
		{
			std::unique_lock<std::mutex> l(ss.srv.m);
			reqs = ss.srv.reqs;
		}
		for (size_t k = 0; k < std::min(reqs.size(), n.want.size()); k++) check_req(reqs[k], n.want[k], cfg);
		if (reqs.size() != n.want.size()) fail("count", std::to_string(n.want.size()) + " reports resulted in " + std::to_string(reqs.size()) + " requests");
	}
	ctx.nontrivial = special >= 2;
	if (special) ctx.label("characters with a meaning in URLs");
	if (!cfg.username.empty() || !cfg.password.empty()) ctx.label("credentials");
}

void c21(Ctx &ctx)
{
	Src c = ctx.config();
	std::string prefix;
	notifier_config cfg = gen_cfg(c, prefix);
	bool bad_url = c.chance(3);
	Session ss;
	cfg.port = ss.srv.port;
	std::string shown = cfg.address;
	cfg.address.replace(cfg.address.find("127.0.0.1"), 9, ss.srv.host);
	if (bad_url) {
		static const std::vector<std::string> u = {"", "http://", "nonsense://x", "http://[::1", "http://bad host/", "://"};
		shown = cfg.address = c.pick(u);
	}
	ctx.note("frontend at " + hexdump(shown));
	status_notifier_handler h(cfg, helpers::create_null_logger());
	int retried = 0, gaveup = 0, after = 0;
	bool had_trouble = false;
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		// faults for up to six attempts, so that a fifth would be noticed
		std::vector<Fault> script;
		int shape = s.below(4);
		for (int k = 0; k < 8; k++) {
			Fault f = (Fault) s.below(GARBAGE + 1);
			if (is_ok(f) && k < 8 && shape >= 2 && s.below(2)) f = (Fault) (S400 + s.below(GARBAGE - S400 + 1));
			if (shape == 3 && is_ok(f)) f = S500;
			if (shape == 0 && k == 0) f = (Fault) s.below(BIGBODY + 1);
			script.push_back(f);
		}
		// whether there was a last attempt must be seen at the frontend, not by a pause
		if (script[3] == REFUSE) script[3] = CLOSE_AT_ONCE;
		Notif n;
		do {
			n = gen_notif(s, prefix);
		} while (n.want.size() != 1 && !s.exhausted());
		if (n.want.size() != 1) {
			n.want = {{prefix + "/job-status/x", {{"status", "OK"}}, (int) std::count(prefix.begin(), prefix.end(), '/') + 2}};
			n.text = "job_done 'x'";
			n.raise = [](reactor_status_notifier &r) { r.job_done("x"); };
		}
		size_t want = 4;
		bool confirmed = false;
		for (size_t k = 0; k < 4; k++)
			if (is_ok(script[k])) {
				want = k + 1;
				confirmed = true;
				break;
			}
		std::string d;
		for (size_t k = 0; k < want; k++) d += std::string(k ? ", " : "") + fault_name[script[k]];
		ctx.note(n.text + "; frontend: " + d);
		pauses.clear();
		{
			std::unique_lock<std::mutex> l(ss.srv.m);
			ss.srv.reqs.clear();
		}
		ss.srv.begin(script);
		later_ns = 0;
		reactor_status_notifier r(
			[&](const message_container &m) {
				under_test = true;
				try {
					h.on_request(m, [&](const message_container &) { fail("foreign", "handling a notification sent a message"); });
				} catch (const pbt::Fail &) {
					throw;
				} catch (const std::exception &e) {
					fail("threw", std::string("a notification raised an error: ") + e.what());
				} catch (...) {
					fail("threw", "a notification raised an error");
				}
				under_test = false;
			},
			"k");
		n.raise(r);
		if (ss.srv.broken) throw pbt::Inconclusive{"cannot listen"};
		std::vector<Req> reqs;
		size_t attempts;
		{
			std::unique_lock<std::mutex> l(ss.srv.m);
			reqs = ss.srv.reqs;
			attempts = ss.srv.attempt;
		}
		if (bad_url) {
			if (!reqs.empty()) fail("count", "something was requested from an address that is not valid");
			continue;
		}
		if (attempts != want) fail("attempts", "the notification was tried " + std::to_string(attempts) + " times instead of " + std::to_string(want) + " (the frontend: " + d + ")");
		size_t pos = 0;
		for (size_t k = 0; k < want; k++) {
			if (script[k] == REFUSE) continue;
			if (pos >= reqs.size()) fail("attempts", "an attempt did not reach the frontend");
			if (script[k] != CLOSE_AT_ONCE) check_req(reqs[pos], n.want[0], cfg);
			pos++;
		}
		if (pos != reqs.size()) fail("attempts", "the frontend got " + std::to_string(reqs.size()) + " requests instead of " + std::to_string(pos));
		// a pause before each further attempt, longer every time
		if (pauses.size() + 1 < want) fail("pause", "there was no pause between attempts");
		if (confirmed && pauses.size() + 1 > want) fail("pause", "the notification was confirmed, but there was another pause");
		for (size_t k = 0; k + 1 < want; k++) {
			if (pauses[k] <= 0) fail("pause", "an empty pause before another attempt");
			if (k && pauses[k] <= pauses[k - 1]) fail("pause", "the pause before attempt " + std::to_string(k + 2) + " was not longer than the one before (" + std::to_string(pauses[k]) + " ns)");
		}
		after += had_trouble && confirmed;
		had_trouble |= !confirmed;
		retried += want > 1;
		gaveup += !confirmed;
		if (want > 1) ctx.label("repeated");
		if (!confirmed) ctx.label("given up");
		for (size_t k = 0; k < want; k++) ctx.label(std::string("frontend ") + fault_name[script[k]]);
	}
	ctx.nontrivial = retried >= 2 && (gaveup || after);
}

} // namespace

extern "C" {
int clock_gettime(clockid_t id, timespec *t)
{
	int r = (int) syscall(SYS_clock_gettime, id, t);
	if (under_test && r == 0) t->tv_sec += later_ns / 1000000000;
	return r;
}
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __wrap_nanosleep(const timespec *t, timespec *r)
{
	if (!under_test) return __real_nanosleep(t, r);
	record(t->tv_sec * 1000000000ll + t->tv_nsec);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *r)
{
	if (!under_test) return __real_clock_nanosleep(c, flags, t, r);
	int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
	if (flags & TIMER_ABSTIME) {
		timespec n;
		clock_gettime(c, &n);
		ns -= n.tv_sec * 1000000000ll + n.tv_nsec;
	}
	record(ns);
	return 0;
}
int __wrap_usleep(useconds_t us)
{
	timespec t{(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
	return __wrap_nanosleep(&t, nullptr);
}
unsigned __wrap_sleep(unsigned s)
{
	timespec t{(time_t) s, 0};
	__wrap_nanosleep(&t, nullptr);
	return 0;
}
}

int main(int argc, char **argv)
{
	while_slow = a_while_passes;
	for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "no_proxy", "NO_PROXY"}) unsetenv(v);
	curl_global_init(CURL_GLOBAL_DEFAULT);
	std::vector<pbt::Property> v;
	pbt::Property p;
	p.id = "C20";
	p.run = c20;
	p.rule = "Random notifications of every kind with random ids and messages (control characters, NUL, UTF-8, bytes above 127, "
			 "everything with a meaning in URLs and forms, up to 200 kB) go through the real notifier, notification handler and "
			 "libcurl to an HTTP server in the harness, which decodes path, form and credentials and compares. Non-trivial: at "
			 "least two notifications with characters that must be encoded.";
	p.min_ops = 1;
	p.max_ops = 12;
	p.width = 24;
	p.cfg_width = 8;
	p.threads = true;
	p.confirm = 5;
	v.push_back(p);
	p.id = "C21";
	p.run = c21;
	p.rule = "Random sequences of notifications against a frontend that follows a random script of faults for every attempt: "
			 "success and error statuses, refused, closed and reset connections before and after the request, cut and garbled "
			 "responses, unusable addresses; pauses are recorded instead of waited for. Non-trivial: at least two notifications "
			 "were repeated and one was given up.";
	p.max_ops = 10;
	p.width = 48;
	v.push_back(p);
	return pbt::run_main(argc, argv, v);
}
