// C22: configuration
#include "config/broker_config.h"
#include "engine.hpp"
#include "gen.hpp"
#include <cstring>
#include <new>

using pbt::Ctx;
using pbt::fail;
using pbt::hexdump;
using pbt::Src;

namespace {

enum Type { STR, PORT, SIZE, MS, FILE_ };
struct Setting {
	std::string section, key; // section "": top level
	Type type;
	std::string def; // as shown by get()
	std::function<std::string(const broker_config &)> get;
};
const std::vector<Setting> &settings()
{
	using B = const broker_config &;
	auto n = [](auto v) { return std::to_string(v); };
	static const std::vector<Setting> v = {
		{"", "queue_manager", STR, "single", [](B b) { return b.get_queue_manager(); }},
		{"clients", "address", STR, "*", [](B b) { return b.get_client_address(); }},
		{"clients", "port", PORT, "0", [=](B b) { return n(b.get_client_port()); }},
		{"workers", "address", STR, "*", [](B b) { return b.get_worker_address(); }},
		{"workers", "port", PORT, "0", [=](B b) { return n(b.get_worker_port()); }},
		{"workers", "max_liveness", SIZE, "4", [=](B b) { return n(b.get_max_worker_liveness()); }},
		{"workers", "max_request_failures", SIZE, "3", [=](B b) { return n(b.get_max_request_failures()); }},
		{"workers", "ping_interval", MS, "1000", [=](B b) { return n(b.get_worker_ping_interval().count()); }},
		{"monitor", "address", STR, "127.0.0.1", [](B b) { return b.get_monitor_address(); }},
		{"monitor", "port", PORT, "7894", [=](B b) { return n(b.get_monitor_port()); }},
		{"notifier", "address", STR, "", [](B b) { return b.get_notifier_config().address; }},
		{"notifier", "port", PORT, "0", [=](B b) { return n(b.get_notifier_config().port); }},
		{"notifier", "username", STR, "", [](B b) { return b.get_notifier_config().username; }},
		{"notifier", "password", STR, "", [](B b) { return b.get_notifier_config().password; }},
		{"logger", "file", FILE_, "/var/log/recodex/|broker", [](B b) { return b.get_log_config().log_path + "|" + b.get_log_config().log_basename; }},
		{"logger", "level", STR, "debug", [](B b) { return b.get_log_config().log_level; }},
		{"logger", "max-size", SIZE, "1048576", [=](B b) { return n(b.get_log_config().log_file_size); }},
		{"logger", "rotations", SIZE, "3", [=](B b) { return n(b.get_log_config().log_files_count); }},
	};
	return v;
}

enum Verdict { GOOD, BAD, DONTKNOW };
/** what a scalar means for a setting */
Verdict meaning(Type t, const std::string &v, std::string &shown)
{
	if (t == STR) {
		shown = v;
		return GOOD;
	}
	if (t == FILE_) {
		size_t i = v.rfind('/');
		if (v.empty() || v.back() == '/' || v.find("//") != std::string::npos) return DONTKNOW;
		std::string base = i == std::string::npos ? v : v.substr(i + 1);
		std::string dir = i == std::string::npos ? "" : i == 0 ? "/" : v.substr(0, i);
		shown = dir + "|" + base;
		return GOOD;
	}
	unsigned __int128 x;
	if (ref_number(v, x)) {
		if (v.size() > 1 && v[0] == '0') return DONTKNOW; // octal?
		unsigned __int128 max = t == PORT ? 65535 : t == SIZE ? ~0ull : (~0ull >> 1);
		if (t == MS && x > max && x <= ~0ull) return DONTKNOW;
		if (x > max) return BAD;
		shown = std::to_string((unsigned long long) x);
		return GOOD;
	}
	// signs, white space and other bases are up to the YAML library
	bool odd = v.empty();
	for (char c : v)
		if (c == '+' || isspace((unsigned char) c) || c == 'x' || c == 'X' || c == '\0') odd = true;
	if (odd && !v.empty()) return DONTKNOW;
	return BAD;
}

std::string quoted(const std::string &v)
{
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : v) {
		if (c == '"' || c == '\\') r += std::string("\\") + (char) c;
		else if (c < 32 || c == 127) {
			snprintf(buf, sizeof buf, "\\x%02x", c);
			r += buf;
		} else r += (char) c;
	}
	return r + "\"";
}
std::string single(const std::string &v)
{
	std::string r = "'";
	for (char c : v) r += c == '\'' ? std::string("''") : std::string(1, c);
	return r + "'";
}
bool plain_ok(const std::string &v)
{
	if (v.empty() || v == "null" || v == "Null" || v == "NULL" || v == "~") return false;
	if (!isalnum((unsigned char) v[0]) && v[0] != '/') return false;
	for (unsigned char c : v)
		if (!isalnum(c) && !strchr("_./-", c)) return false;
	return true;
}

struct Val {
	int kind = 0; // 0 scalar, 1 sequence, 2 map, 3 null
	std::string s, text;
};

std::string gen_str(Src &s)
{
	static const std::vector<std::string> v = {"*", "127.0.0.1", "multi", "single", "", "0", "9658", "localhost", "a: b # c", "'q\"", "{x}", "[1]", "http://x:8080/y?z", "\xc5\xbelu\xc5\xa5", "null", "~", "true", "0x10", "-", "line\nline", "tab\t", "!tag", "&a", "*a", "%", "@", "`", "info", " lead", "trail "};
	return s.pick(v);
}
std::string gen_number(Src &s, Type t)
{
	static const std::vector<std::string> good = {"0", "1", "4", "80", "9657", "65535", "1000"};
	static const std::vector<std::string> big = {"65536", "4294967296", "9223372036854775807", "18446744073709551615", "100000"};
	static const std::vector<std::string> bad = {"-1", "-0", "abc", "12abc", "1.5", "1e3", "1,000", "99999999999999999999999", "18446744073709551616", "-65535", "--1", "", "true", "one", "80.", ".", "-9223372036854775808", "nan", ".inf"};
	switch (s.weighted({12, 3, 2})) {
	case 0: return s.pick(good);
	case 1: {
		std::string x = s.pick(big);
		return x;
	}
	default: return s.pick(bad);
	}
}

/** reads the configuration in memory that is full of rubbish */
struct Made {
	bool ok = false;
	std::string err;
	std::map<std::string, std::string> val;
};
Made make(const YAML::Node &n, unsigned char fill)
{
	Made m;
	alignas(broker_config) static unsigned char mem[sizeof(broker_config)];
	memset(mem, fill, sizeof mem);
	broker_config *b = nullptr;
	try {
		b = new (mem) broker_config(n);
	} catch (const config_error &e) {
		m.err = e.what();
		return m;
	} catch (const std::exception &e) {
		fail("error", std::string("an error that is not a configuration error: ") + e.what());
	}
	m.ok = true;
	for (auto &s : settings()) m.val[s.section + "." + s.key] = s.get(*b);
	b->~broker_config();
	return m;
}

void compare(const YAML::Node &root, std::map<std::string, std::pair<Verdict, std::string>> want, bool map, const std::string &text)
{
	bool bad = !map, unknown = false;
	std::string why = map ? "" : "it is not a map";
	for (auto &w : want) {
		if (w.second.first == BAD) {
			bad = true;
			why = w.first + " is not a number of its range";
		}
		unknown |= w.second.first == DONTKNOW;
	}
	Made a = make(root, 0xAA), b = make(root, 0x00);
	if (a.ok != b.ok || a.val != b.val) {
		for (auto &x : a.val)
			if (b.val[x.first] != x.second) fail("undefined", "the value of " + x.first + " depends on what was in memory before (" + x.second + " or " + b.val[x.first] + ")");
		fail("undefined", "the result depends on what was in memory before");
	}
	if (bad) {
		if (a.ok) fail("accepted", "the configuration was accepted although " + why);
		return;
	}
	if (!a.ok) {
		if (unknown) return;
		fail("refused", "the configuration was refused: " + a.err);
	}
	for (auto &s : settings()) {
		std::string n = s.section + "." + s.key;
		auto it = want.find(n);
		std::string e = it == want.end() ? s.def : it->second.second;
		if (it != want.end() && it->second.first == DONTKNOW) continue;
		if (a.val[n] != e) fail("value", n + " is " + hexdump(a.val[n]) + " instead of " + hexdump(e) + (it == want.end() ? " (the default)" : ""));
	}
}

/** what a parsed document means, read by the types and texts of its nodes only */
std::map<std::string, std::pair<Verdict, std::string>> meaning_of(const YAML::Node &root)
{
	std::map<std::string, std::pair<Verdict, std::string>> want;
	for (auto &s : settings()) {
		YAML::Node sec = root, val;
		bool there = true;
		auto child = [&](const YAML::Node &m, const std::string &k, YAML::Node &out) {
			for (auto it = m.begin(); it != m.end(); ++it)
				if (it->first.IsScalar() && it->first.Scalar() == k) {
					out.reset(it->second);
					return true;
				}
			return false;
		};
		if (!s.section.empty()) {
			YAML::Node x;
			there = child(root, s.section, x) && x.IsMap();
			if (there) sec.reset(x);
		}
		if (!there || !child(sec, s.key, val) || !val.IsScalar()) continue;
		std::string shown;
		Verdict v = meaning(s.type, val.Scalar(), shown);
		want[s.section + "." + s.key] = {v, shown};
	}
	return want;
}

bool duplicate_keys(const YAML::Node &n, int depth = 0)
{
	if (depth > 50) return true;
	if (n.IsMap()) {
		std::set<std::string> seen;
		for (auto it = n.begin(); it != n.end(); ++it) {
			if (!it->first.IsScalar()) continue;
			if (!seen.insert(it->first.Scalar()).second) return true;
			if (duplicate_keys(it->second, depth + 1)) return true;
		}
	}
	return false;
}

void c22(Ctx &ctx)
{
	Src c = ctx.config();
	bool mutate = c.chance(25);
	bool flow = c.below(4) == 1;
	int top = c.weighted({20, 1});
	const auto &S = settings();
	// document: section -> key -> value, in order of appearance
	std::vector<std::pair<std::string, std::vector<std::pair<std::string, Val>>>> doc;
	std::map<std::string, Val> section_is; // sections that are not maps
	auto put = [&](const std::string &sec, const std::string &key, const Val &v) {
		for (auto &d : doc)
			if (d.first == sec) {
				for (auto &k : d.second)
					if (k.first == key) {
						k.second = v;
						return;
					}
				d.second.push_back({key, v});
				return;
			}
		doc.push_back({sec, {{key, v}}});
	};
	auto render = [&](Src &s, Val &v) {
		switch (v.kind) {
		case 0: {
			int st = s.below(3);
			if (st == 0 && plain_ok(v.s)) v.text = v.s;
			else if (st == 1 && v.s.find('\n') == std::string::npos && v.s.find('\t') == std::string::npos) v.text = single(v.s);
			else v.text = quoted(v.s);
			break;
		}
		case 1: v.text = s.below(2) ? "[]" : "[80, x]"; break;
		case 2: v.text = s.below(2) ? "{}" : "{port: 80, address: y}"; break;
		default: v.text = s.below(2) ? "~" : "null"; break;
		}
	};
	int given = 0, odd = 0;
	for (size_t i = 0; i < ctx.ops(); i++) {
		Src s = ctx.op(i);
		size_t what = s.weighted({14, 2, 2, 1});
		Val v;
		if (what == 0) {
			auto &set = S[s.below((uint32_t) S.size())];
			v.kind = (int) s.weighted({14, 1, 1, 1});
			static const std::vector<std::string> files = {"/var/log/recodex/broker", "broker", "./x/log", "/broker", "a/b.c/d.log", "../x"};
			v.s = set.type == STR ? gen_str(s) : set.type == FILE_ ? s.pick(files) : gen_number(s, set.type);
			render(s, v);
			put(set.section, set.key, v);
			given++;
			odd += v.kind != 0;
		} else if (what == 1) {
			// a key that means nothing, or means something elsewhere
			static const std::vector<std::string> secs = {"", "clients", "workers", "monitor", "notifier", "logger", "other", "Clients", "client"};
			static const std::vector<std::string> keys = {"portx", "Port", "adress", "max_liveness2", "x", "level2", "queue-manager", "ping-interval"};
			v.kind = (int) s.below(4);
			v.s = gen_str(s);
			render(s, v);
			put(s.pick(secs), s.pick(keys), v);
			odd++;
		} else if (what == 2) {
			static const std::vector<std::pair<std::string, std::string>> wrong = {{"clients", "max_liveness"}, {"monitor", "username"}, {"logger", "port"}, {"notifier", "level"}, {"other", "port"}, {"", "port"}, {"", "address"}, {"", "level"}, {"workers", "queue_manager"}, {"workers", "file"}, {"clients", "ping_interval"}};
			auto &w = s.pick(wrong);
			v.s = s.below(2) ? "7" : "nonsense";
			render(s, v);
			put(w.first, w.second, v);
			odd++;
		} else {
			// a whole section that is not a map
			static const std::vector<std::string> secs = {"clients", "workers", "monitor", "notifier", "logger"};
			v.kind = s.below(3) == 0 ? 0 : s.below(2) ? 1 : 3;
			v.s = "80";
			render(s, v);
			section_is[s.pick(secs)] = v;
			odd++;
		}
	}
	std::string text;
	std::map<std::string, std::pair<Verdict, std::string>> want;
	bool map = true;
	if (top == 1) {
		static const std::vector<std::string> no = {"", "80", "[clients, workers]", "~", "- clients:\n    port: 80\n", "\"text\"", "# only a comment\n"};
		text = c.pick(no);
		map = false;
	} else {
		std::vector<std::string> parts;
		if (flow) text = "{";
		for (auto &d : doc) {
			if (d.first.empty()) {
				for (auto &k : d.second) parts.push_back(flow ? k.first + ": " + k.second.text : k.first + ": " + k.second.text + "\n");
				continue;
			}
			if (section_is.count(d.first)) continue;
			std::string b = d.first + ":" + (flow ? " {" : "\n");
			bool first = true;
			for (auto &k : d.second) {
				if (flow) b += (first ? "" : ", ") + k.first + ": " + k.second.text;
				else b += "    " + k.first + ": " + k.second.text + "\n";
				first = false;
			}
			if (flow) b += "}";
			parts.push_back(b);
		}
		for (auto &x : section_is) parts.push_back(x.first + ": " + x.second.text + (flow ? "" : "\n"));
		uint32_t r = c.raw();
		for (size_t k = parts.size(); k > 1; k--) {
			std::swap(parts[k - 1], parts[r % k]);
			r = r * 1664525u + 1013904223u;
		}
		for (size_t k = 0; k < parts.size(); k++) text += (flow && k ? ", " : "") + parts[k];
		if (flow) text += "}";
		if (parts.empty()) text = "{}";
		for (auto &d : doc) {
			if (section_is.count(d.first)) continue;
			for (auto &k : d.second)
				for (auto &s : S)
					if (s.section == d.first && s.key == k.first && k.second.kind == 0) {
						std::string shown;
						Verdict v = meaning(s.type, k.second.s, shown);
						want[s.section + "." + s.key] = {v, shown};
					}
		}
	}
	if (mutate) {
		// damage the text: whatever the YAML library makes of it is the document
		int n = 1 + c.below(4);
		for (int k = 0; k < n && !text.empty(); k++) {
			uint32_t x = c.raw();
			size_t at = x % text.size();
			static const std::string chars(" :\n-[]{}#'\"&*!|>%@\t,0\0\xff~x", 25);
			switch (x >> 16 & 3) {
			case 0: text.erase(at, 1 + (x >> 20) % 5); break;
			case 1: text.insert(at, 1, chars[(x >> 20) % chars.size()]); break;
			case 2: text[at] = chars[(x >> 20) % chars.size()]; break;
			default: text.insert(at, text.substr((x >> 20) % text.size(), 12)); break;
			}
		}
	}
	ctx.note(text);
	YAML::Node root;
	try {
		root = YAML::Load(text);
	} catch (const std::exception &) {
		if (!mutate) throw pbt::Inconclusive{"the generated document is not YAML"};
		ctx.label("not YAML");
		return;
	}
	if (mutate) {
		if (duplicate_keys(root)) {
			make(root, 0xAA);
			return;
		}
		map = root.IsMap();
		want.clear();
		if (map) want = meaning_of(root);
	}
	compare(root, want, map, text);
	ctx.nontrivial = given >= 2 && odd >= 1;
	bool bad = !map;
	for (auto &w : want) bad |= w.second.first == BAD;
	ctx.label(bad ? "to be refused" : "to be accepted");
	if (mutate) ctx.label("damaged text");
}

} // namespace

std::vector<pbt::Property> properties()
{
	pbt::Property p;
	p.id = "C22";
	p.run = c22;
	p.rule = "Random configuration documents built setting by setting (valid, out of range, not numbers, lists, maps, nulls, unknown "
			 "and misplaced keys, sections that are not maps, random order, quoting and style) and randomly damaged texts, compared "
			 "with a reference reading; every document is read twice into memory with different previous content. Non-trivial: at "
			 "least two known settings and one oddity.";
	p.min_ops = 0;
	p.max_ops = 16;
	p.width = 10;
	p.cfg_width = 14;
	p.confirm = 3;
	return {p};
}

#ifndef PBT_FUZZ
int main(int argc, char **argv)
{
	return pbt::run_main(argc, argv, properties());
}
#endif
