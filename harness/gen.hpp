// Shared generators and reference definitions for the broker simulations.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <string>
#include <utility>
#include <vector>

using Frames = std::vector<std::string>;
using Hdrs = std::vector<std::pair<std::string, std::string>>;

inline std::string show(const Frames &f)
{
	std::string r = "[";
	for (size_t i = 0; i < f.size(); i++) r += (i ? ", " : "") + pbt::hexdump(f[i]);
	return r + "]";
}
inline std::string show(const Hdrs &h)
{
	std::string r = "{";
	for (size_t i = 0; i < h.size(); i++) r += (i ? ", " : "") + h[i].first + "=" + h[i].second;
	return r + "}";
}

/** The meaning of capability matching, written down independently of the code under test. */
struct Caps {
	std::string hwgroup;
	Hdrs headers;
	bool operator==(const Caps &o) const
	{
		auto a = headers, b = o.headers;
		std::stable_sort(a.begin(), a.end());
		std::stable_sort(b.begin(), b.end());
		return hwgroup == o.hwgroup && a == b;
	}
};

inline bool ref_number(const std::string &s, unsigned __int128 &v)
{
	if (s.empty()) return false;
	v = 0;
	for (char c : s) {
		if (c < '0' || c > '9') return false;
		if (v < ((unsigned __int128) 1 << 100)) v = v * 10 + (c - '0');
	}
	return true;
}

inline bool ref_match_one(const Caps &w, const std::string &k, const std::string &v)
{
	if (k == "hwgroup") {
		size_t i = 0;
		while (true) {
			size_t e = v.find('|', i);
			std::string alt = v.substr(i, e == std::string::npos ? std::string::npos : e - i);
			if (alt == w.hwgroup) return true;
			if (e == std::string::npos) return false;
			i = e + 1;
		}
	}
	for (auto &h : w.headers) {
		if (h.first != k) continue;
		if (k == "threads") {
			unsigned __int128 have, want;
			if (ref_number(h.second, have) && ref_number(v, want) && want <= have) return true;
		} else if (h.second == v) {
			return true;
		}
	}
	return false;
}
inline bool ref_match(const Caps &w, const Hdrs &req)
{
	for (auto &r : req)
		if (!ref_match_one(w, r.first, r.second)) return false;
	return true;
}

inline std::string gen_bytes(pbt::Src &s, size_t maxlen)
{
	switch (s.below(6)) {
	case 0: return "";
	case 1: return "a";
	case 2: return std::string("\0\xff\x80=", 4);
	case 3: return "http://server/archive.tar.gz?x=1&y=2";
	default: {
		std::string r;
		size_t n = s.below((uint32_t) maxlen + 1);
		uint32_t x = s.raw();
		for (size_t i = 0; i < n; i++) {
			r += (char) (x >> 24);
			x = x * 1664525u + 1013904223u;
		}
		return r;
	}
	}
}

static const std::vector<std::string> GROUPS = {"g1", "g2", "g10"};
static const std::vector<std::string> ENVS = {"c", "python", "java"};
/** Words that mean something somewhere in the protocol, where they are mere data. */
static const std::vector<std::string> WORDS = {"eval", "init", "done", "ping", "pong", "intro", "progress", "ack", "accept", "reject", "freeze", "OK", "FAILED", "INTERNAL_ERROR", "ABORTED", "description=x", "current_job=x", "env=c", "hwgroup=g1", "="};
static const std::vector<std::string> THREADS = {"1", "2", "4", "8", "16"};

inline Caps gen_caps(pbt::Src &s, const std::string &name)
{
	Caps c;
	c.hwgroup = s.pick(GROUPS);
	uint32_t envs = s.below(8);
	for (int i = 0; i < 3; i++)
		if (envs & (1u << i)) c.headers.push_back({"env", ENVS[i]});
	if (s.chance(70)) c.headers.push_back({"threads", s.pick(THREADS)});
	if (s.chance(20)) c.headers.push_back({"threads", s.pick(THREADS)});
	if (s.chance(60)) c.headers.push_back({"pin", name});
	// a value with an equals sign, and a name that only looks like metadata
	if (s.chance(12)) c.headers.push_back({"opt", "a=b"});
	if (s.chance(12)) c.headers.push_back({"meta", "x"});
	if (s.chance(8)) c.headers.push_back({"tag", ""});
	if (s.chance(4)) c.headers.push_back({"Env", "c"});
	if (s.chance(4)) c.headers.push_back({"env", s.pick(std::vector<std::string>{"c ", " c", "C", "c\n", std::string("c\0", 2), "c|java"})});
	if (s.chance(3)) c.headers.push_back({"env ", "c"});
	if (s.chance(6)) c.headers.push_back({"no.meta.b", "1"});
	if (s.chance(5)) c.headers.push_back({"", "v"}); // "=v" is a frame like any other
	if (s.chance(2))
		for (int i = 0; i < 30; i++) c.headers.push_back({"lib" + std::to_string(i / 3), "v" + std::to_string(i)});
	return c;
}

/** headers that w satisfies */
inline Hdrs gen_req_for(pbt::Src &s, const Caps &w)
{
	Hdrs h;
	uint32_t m = s.raw();
	if ((m & 1) && !w.hwgroup.empty()) {
		switch (s.below(4)) {
		case 0: h.push_back({"hwgroup", w.hwgroup}); break;
		case 1: h.push_back({"hwgroup", s.pick(GROUPS) + "|" + w.hwgroup}); break;
		case 2: h.push_back({"hwgroup", w.hwgroup + "|" + s.pick(GROUPS)}); break;
		default: h.push_back({"hwgroup", s.pick(GROUPS) + "|" + w.hwgroup + "|nowhere"}); break;
		}
	}
	for (size_t i = 0; i < w.headers.size(); i++) {
		auto &x = w.headers[i];
		if (!((m >> ((i + 1) % 31)) & 1)) continue;
		if (x.first == "threads") {
			int max = atoi(x.second.c_str());
			h.push_back({"threads", std::to_string(s.below(max + 1))});
		} else {
			h.push_back(x);
		}
	}
	if ((m >> 16) & 1) std::reverse(h.begin(), h.end());
	return h;
}
inline Hdrs gen_req_any(pbt::Src &s)
{
	Hdrs h;
	uint32_t m = s.raw();
	if (m & 1) h.push_back({"hwgroup", s.pick(GROUPS) + (m & 2 ? "|" + s.pick(GROUPS) : std::string())});
	if (m & 4) h.push_back({"env", s.pick(ENVS)});
	if (m & 8) h.push_back({"threads", s.pick(THREADS)});
	if (m & 16) h.push_back({"env", s.pick(ENVS)});
	if ((m >> 5 & 7) == 1) h.push_back({"gpu", "yes"});
	if ((m >> 8 & 15) == 1) h.push_back({"meta", "x"});
	if ((m >> 8 & 15) == 2) h.push_back({"opt", "a"});
	if ((m >> 8 & 15) == 3) h.push_back({"opt", "a=b"});
	if ((m >> 8 & 15) == 4) h.push_back({"tag", ""});
	if ((m >> 8 & 15) == 5) h.push_back({"tag", "x"});
	if ((m >> 8 & 15) == 6) h.push_back({"Env", "c"});
	if ((m >> 8 & 15) == 8) h.push_back({"", m & 0x1000 ? "v" : ""});
	if ((m >> 8 & 15) == 9) h.push_back({"env", std::vector<std::string>{"c ", " c", "C", "c\n", std::string("c\0", 2), "c|java", "c,java", "*"}[m >> 12 & 7]});
	if ((m >> 8 & 15) == 10) h.push_back({m & 0x1000 ? "env " : " env", "c"});
	if ((m >> 8 & 15) == 7) h.push_back({"no.meta.b", m & 0x1000 ? "1" : "2"});
	return h;
}
