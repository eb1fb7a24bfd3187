// A small HTTP server that follows a script, and decoding of what it receives.
#pragma once
#include "engine.hpp"
#include "loopback.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <cstring>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {

using pbt::hexdump;

enum Fault { OK, CREATED, NOCONTENT, S202, S299, CHUNKED, SLOW, HUGEBODY, BIGBODY, S400, S401, S404, S500, S503, S403, S409, S410, S418, S422, S429, S501, S502, S504, S599, REFUSE, CLOSE_AT_ONCE, CLOSE_AFTER_REQUEST, RESET, HALF_STATUS, GARBAGE, HOLD };
const char *fault_name[] = {"200", "201", "204", "202", "299", "200 in pieces", "200 after a while", "200 with a long body", "200 with a body", "400", "401", "404", "500", "503", "403", "409", "410", "418", "422", "429", "501", "502", "504", "599", "refuses", "closes at once", "closes after the request", "resets", "half a status line", "garbage", "200 when it is told to"};
bool is_ok(Fault f) { return f <= BIGBODY || f == HOLD; }

/** what to do while the frontend takes its time */
void (*while_slow)();

struct Req {
	bool complete = false;
	Fault fault = OK; // how it is answered
	std::string method, target, version, body;
	std::vector<std::pair<std::string, std::string>> headers;
	std::string header(const std::string &n, int *count = nullptr) const
	{
		std::string r;
		int c = 0;
		for (auto &h : headers) {
			if (strcasecmp(h.first.c_str(), n.c_str()) == 0) {
				r = h.second;
				c++;
			}
		}
		if (count) *count = c;
		return r;
	}
};

/** A frontend that does what it is told. */
struct Server {
	int hold = -1, lfd = -1, port = 0;
	uint32_t ip = loopback();
	std::string host = ip_text(ip);
	int wake[2];
	std::thread t;
	std::mutex m;
	std::vector<Req> reqs;
	std::vector<Fault> script; // for the attempts at the current notification
	size_t attempt = 0;
	std::atomic<bool> stop{false}, broken{false}, released{false}, holding{false};

	Server()
	{
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(ip);
		hold = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		int one = 1;
		socklen_t n = sizeof a;
		if (bind(hold, (sockaddr *) &a, sizeof a) || getsockname(hold, (sockaddr *) &a, &n)) throw pbt::Inconclusive{"no port"};
		setsockopt(hold, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); // only now, so that nobody else is given the port
		port = ntohs(a.sin_port);
		if (pipe(wake)) throw pbt::Inconclusive{"no pipe"};
		listen_on();
		t = std::thread([this] { run(); });
	}
	~Server()
	{
		stop = true;
		poke();
		t.join();
		if (lfd >= 0) close(lfd);
		close(hold);
		close(wake[0]);
		close(wake[1]);
	}
	void poke()
	{
		char c = 0;
		(void) !write(wake[1], &c, 1);
	}
	void listen_on()
	{
		if (lfd >= 0) return;
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(ip);
		a.sin_port = htons(port);
		int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		int one = 1;
		setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		if (bind(f, (sockaddr *) &a, sizeof a) || listen(f, 64)) {
			close(f);
			broken = true;
			return;
		}
		lfd = f;
	}
	void listen_off()
	{
		if (lfd < 0) return;
		shutdown(lfd, SHUT_RDWR); // the other thread may still be looking at it
		close(lfd);
		lfd = -1;
	}
	/** set the socket up for the current attempt (mutex held) */
	void prepare()
	{
		Fault f = attempt < script.size() ? script[attempt] : OK;
		if (f == REFUSE) listen_off();
		else listen_on();
		poke();
	}
	void begin(const std::vector<Fault> &s)
	{
		std::unique_lock<std::mutex> l(m);
		script = s;
		attempt = 0;
		prepare();
	}
	/** called when the code under test pauses */
	void paused(size_t done)
	{
		std::unique_lock<std::mutex> l(m);
		// an attempt that was refused left no trace here
		attempt = std::max(attempt, done);
		prepare();
	}
	static bool all(int fd, const std::string &s)
	{
		size_t o = 0;
		while (o < s.size()) {
			ssize_t k = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
			if (k <= 0) return false;
			o += k;
		}
		return true;
	}
	void serve(int fd)
	{
		Fault f;
		{
			std::unique_lock<std::mutex> l(m);
			f = attempt < script.size() ? script[attempt] : OK;
			attempt++;
			reqs.emplace_back();
			reqs.back().fault = f;
		}
		if (f == CLOSE_AT_ONCE) return;
		Req r;
		r.fault = f;
		std::string in;
		char buf[65536];
		size_t hdr = std::string::npos;
		auto more = [&] {
			pollfd p{fd, POLLIN, 0};
			if (poll(&p, 1, 10000) <= 0) return false;
			ssize_t k = recv(fd, buf, sizeof buf, 0);
			if (k <= 0) return false;
			in.append(buf, k);
			return true;
		};
		while ((hdr = in.find("\r\n\r\n")) == std::string::npos)
			if (!more()) break;
		if (hdr != std::string::npos) {
			size_t i = 0;
			bool first = true;
			while (i < hdr) {
				size_t e = in.find("\r\n", i);
				std::string line = in.substr(i, e - i);
				if (first) {
					size_t a = line.find(' '), b = line.rfind(' ');
					r.method = line.substr(0, a);
					if (a != std::string::npos && b > a) r.target = line.substr(a + 1, b - a - 1);
					r.version = line.substr(b + 1);
					first = false;
				} else {
					size_t c = line.find(':');
					std::string v = c == std::string::npos ? "" : line.substr(c + 1);
					while (!v.empty() && v[0] == ' ') v.erase(0, 1);
					r.headers.push_back({line.substr(0, c), v});
				}
				i = e + 2;
			}
			std::string body = in.substr(hdr + 4);
			size_t want = (size_t) atoll(r.header("Content-Length").c_str());
			if (strcasecmp(r.header("Expect").c_str(), "100-continue") == 0) all(fd, "HTTP/1.1 100 Continue\r\n\r\n");
			in = body;
			while (in.size() < want)
				if (!more()) break;
			r.body = in;
			r.complete = in.size() == want;
			std::unique_lock<std::mutex> l(m);
			reqs.back() = r;
		}
		std::string out;
		if (f == HOLD) {
			holding = true;
			while (!released && !stop) usleep(500);
			holding = false;
		}
		if (f == SLOW) {
			usleep(300);
			if (while_slow) while_slow();
			usleep(300);
		}
		switch (f) {
		case SLOW:
		case HOLD:
		case OK: out = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok"; break;
		case CREATED: out = "HTTP/1.1 201 Created\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; break;
		case NOCONTENT: out = "HTTP/1.1 204 No Content\r\nConnection: close\r\n\r\n"; break;
		case S202: out = "HTTP/1.1 202 Accepted\r\nContent-Length: 2\r\nX-Long: " + std::string(3000, 'h') + "\r\nConnection: close\r\n\r\nok"; break;
		case S299: out = "HTTP/1.1 299\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; break;
		case CHUNKED:
			all(fd, "HTTP/1.1 200 OK\r\nTransfer-Enc");
			usleep(200);
			all(fd, "oding: chunked\r\nConnection: close\r\n\r\n5\r\nhel");
			usleep(200);
			out = "lo\r\n0\r\n\r\n";
			break;
		case HUGEBODY: out = "HTTP/1.1 200 Fine\r\nContent-Length: 300000\r\nConnection: close\r\n\r\n" + std::string(300000, 'y'); break;
		case BIGBODY: out = "HTTP/1.0 200 Fine\r\n\r\n" + std::string(50000, 'y'); break;
		case S400: out = "HTTP/1.1 400 Bad Request\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno"; break;
		case S401: out = "HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: Basic realm=\"x\"\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; break;
		case S404: out = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; break;
		case S500: out = "HTTP/1.1 500 Oops\r\nConnection: close\r\n\r\nlong explanation"; break;
		case S503: out = "HTTP/1.0 503 Busy\r\nRetry-After: 1\r\n\r\n"; break;
		case S403:
		case S409:
		case S410:
		case S418:
		case S422:
		case S429:
		case S501:
		case S502:
		case S504:
		case S599: out = std::string("HTTP/1.1 ") + fault_name[f] + " Whatever\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno"; break;
		case HALF_STATUS: out = "HTTP/1.1 20"; break;
		case GARBAGE: out = "hello there\r\n\r\n"; break;
		case RESET: {
			linger lg{1, 0};
			setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
			return;
		}
		default: break;
		}
		all(fd, out);
		shutdown(fd, SHUT_WR);
	}
	void run()
	{
		while (!stop) {
			int l;
			{
				std::unique_lock<std::mutex> k(m);
				l = lfd;
			}
			pollfd p[2] = {{wake[0], POLLIN, 0}, {l, POLLIN, 0}};
			poll(p, l >= 0 ? 2 : 1, 1000);
			if (p[0].revents) {
				char c[64];
				(void) !read(wake[0], c, sizeof c);
			}
			if (l >= 0 && (p[1].revents & POLLIN)) {
				int fd = -1;
				{
					std::unique_lock<std::mutex> k(m);
					if (lfd == l) fd = accept4(l, nullptr, nullptr, SOCK_CLOEXEC);
				}
				if (fd < 0) continue;
				serve(fd);
				close(fd);
			}
		}
	}
};

int hexv(char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
/** percent decoding the way a web server does it */
bool pct(const std::string &s, bool form, std::string &out)
{
	out.clear();
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%') {
			if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return false;
			out += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
			i += 2;
		} else if (form && s[i] == '+') {
			out += ' ';
		} else {
			out += s[i];
		}
	}
	return true;
}
using Params = std::map<std::string, std::string>;
bool parse_form(const std::string &body, Params &p, std::string &why)
{
	p.clear();
	if (body.empty()) return true;
	size_t i = 0;
	while (i <= body.size()) {
		size_t e = body.find('&', i);
		if (e == std::string::npos) e = body.size();
		std::string kv = body.substr(i, e - i), k, v;
		size_t q = kv.find('=');
		if (!pct(kv.substr(0, q), true, k) || !pct(q == std::string::npos ? "" : kv.substr(q + 1), true, v)) {
			why = "a parameter is not decodable: " + hexdump(kv);
			return false;
		}
		if (!p.emplace(k, v).second) {
			why = "parameter " + hexdump(k) + " is given twice";
			return false;
		}
		i = e + 1;
	}
	return true;
}
} // namespace
