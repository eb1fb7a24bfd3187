#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

char *Ctx::live = nullptr;

void fail(const std::string &kind, const std::string &msg)
{
	throw Fail{kind, msg};
}

std::string hexdump(const std::string &s)
{
	static const char *d = "0123456789abcdef";
	std::string r = "'";
	size_t n = 0;
	for (unsigned char c : s) {
		if (++n > 60) {
			r += "...(" + std::to_string(s.size()) + " bytes)";
			break;
		}
		if (c >= 32 && c < 127 && c != '\'' && c != '\\') {
			r += (char) c;
		} else {
			r += "\\x";
			r += d[c >> 4];
			r += d[c & 15];
		}
	}
	return r + "'";
}

static double now_s()
{
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); // not the clock of the code under test
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += (char) c;
		} else if (c == '\n') {
			r += "\\n";
		} else if (c < 32 || c >= 127) {
			snprintf(buf, sizeof buf, "\\u%04x", c);
			r += buf;
		} else {
			r += (char) c;
		}
	}
	return r + "\"";
}

static Tape random_tape(uint64_t seed, uint64_t index, const Property &p)
{
	if (index < p.fixed.size()) return p.fixed[index];
	Rng rng(seed * 0xD1342543DE82EF95ull + index * 0x2545F4914F6CDD1Dull + 0x1234567);
	rng.next();
	Tape t;
	size_t span = p.max_ops - p.min_ops;
	size_t n;
	switch (rng.below(4)) {
	case 0: n = p.min_ops + rng.below((uint32_t) std::min<size_t>(span, 8) + 1); break;
	case 1:
	case 2: n = p.min_ops + rng.below((uint32_t) (span / 2) + 1); break;
	default: n = p.min_ops + rng.below((uint32_t) span + 1); break;
	}
	Block c(p.cfg_width);
	for (auto &x : c) x = (uint32_t) rng.next();
	t.push_back(c);
	for (size_t i = 0; i < n; i++) {
		Block b(p.width);
		for (auto &x : b) x = (uint32_t) rng.next();
		t.push_back(std::move(b));
	}
	return t;
}

Tape tape_from_bytes(const uint8_t *data, size_t size, const Property &p)
{
	Tape t;
	size_t i = 0;
	auto take = [&](size_t n) {
		Block b;
		for (size_t k = 0; k < n && i + 1 < size; k++, i += 2) b.push_back(data[i] | (data[i + 1] << 8));
		return b;
	};
	t.push_back(take(p.cfg_width));
	while (i + 1 < size && t.size() <= p.max_ops) t.push_back(take(p.width));
	return t;
}

static std::string tape_text(const Tape &t)
{
	std::string r;
	for (auto &b : t) {
		size_t n = b.size();
		while (n && b[n - 1] == 0) n--;
		for (size_t i = 0; i < n; i++) r += (i ? " " : "") + std::to_string(b[i]);
		r += "\n";
	}
	return r;
}

static Tape tape_parse(std::istream &in)
{
	Tape t;
	std::string line;
	while (std::getline(in, line)) {
		if (line.rfind("#", 0) == 0) continue;
		std::istringstream ls(line);
		Block b;
		uint64_t x;
		while (ls >> x) b.push_back((uint32_t) x);
		t.push_back(b);
	}
	return t;
}

struct Outcome {
	enum { PASS, FAIL, CRASH, HANG, INCONCLUSIVE } st = PASS;
	std::string kind, msg, trace;
};

/** Runs the decoder and oracle in this process. */
static Outcome run_inline(const Property &p, const Tape &t, Ctx &ctx)
{
	Outcome o;
	try {
		p.run(ctx);
	} catch (const Fail &f) {
		o.st = Outcome::FAIL;
		o.kind = f.kind;
		o.msg = f.msg;
	} catch (const Inconclusive &f) {
		o.st = Outcome::INCONCLUSIVE;
		o.msg = f.msg;
	} catch (const std::exception &e) {
		o.st = Outcome::FAIL;
		o.kind = "exception";
		o.msg = std::string("uncaught exception: ") + e.what();
	} catch (...) {
		o.st = Outcome::FAIL;
		o.kind = "exception";
		o.msg = "uncaught exception of unknown type";
	}
	o.trace = ctx.trace();
	return o;
}

static void put(std::string &buf, const std::string &s)
{
	uint32_t n = (uint32_t) s.size();
	buf.append((char *) &n, 4);
	buf += s;
}
static std::string get(const std::string &buf, size_t &i)
{
	if (i + 4 > buf.size()) return "";
	uint32_t n;
	memcpy(&n, buf.data() + i, 4);
	i += 4;
	std::string r = buf.substr(i, n);
	i += n;
	return r;
}

/** Runs one tape in a forked child, so that crashes and hangs are outcomes too. */
static Outcome run_forked(const Property &p, const Tape &t, double timeout, bool quiet)
{
	int fd[2];
	if (pipe(fd)) abort();
	fflush(nullptr);
	static char *live = (char *) mmap(nullptr, Ctx::live_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(live, 0, Ctx::live_size);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(fd[0]);
		if (quiet) {
			int n = open("/dev/null", O_WRONLY);
			dup2(n, 2);
		}
		Ctx::live = live;
		Ctx ctx(t);
		Outcome o = run_inline(p, t, ctx);
		std::string buf;
		buf += (char) o.st;
		put(buf, o.kind);
		put(buf, o.msg);
		put(buf, o.trace);
		size_t off = 0;
		while (off < buf.size()) {
			ssize_t k = write(fd[1], buf.data() + off, buf.size() - off);
			if (k <= 0) break;
			off += k;
		}
		_exit(0);
	}
	close(fd[1]);
	std::string buf;
	double end = now_s() + timeout;
	bool hang = false;
	while (true) {
		double left = end - now_s();
		if (left <= 0) {
			hang = true;
			break;
		}
		pollfd pf{fd[0], POLLIN, 0};
		int r = poll(&pf, 1, (int) (left * 1000) + 1);
		if (r <= 0) continue;
		char tmp[65536];
		ssize_t k = read(fd[0], tmp, sizeof tmp);
		if (k <= 0) break;
		buf.append(tmp, k);
	}
	close(fd[0]);
	if (hang) kill(pid, SIGKILL);
	int status = 0;
	waitpid(pid, &status, 0);
	Outcome o;
	if (hang) {
		o.st = Outcome::HANG;
		o.kind = "hang";
		o.msg = "the code under test did not return within " + std::to_string((int) timeout) + " s";
		o.trace = live;
		return o;
	}
	if (buf.empty() || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
		o.st = Outcome::CRASH;
		o.kind = "crash";
		o.msg = WIFSIGNALED(status) ? "the code under test died with signal " + std::to_string(WTERMSIG(status)) :
									  "the code under test died (memory or undefined-behaviour error reported, exit " +
				std::to_string(WEXITSTATUS(status)) + ")";
		o.trace = live;
		return o;
	}
	o.st = (decltype(o.st)) buf[0];
	size_t i = 1;
	o.kind = get(buf, i);
	o.msg = get(buf, i);
	o.trace = get(buf, i);
	return o;
}

static bool is_bad(const Outcome &o)
{
	return o.st == Outcome::FAIL || o.st == Outcome::CRASH || o.st == Outcome::HANG;
}

static Tape shrink(const Property &p, Tape best, Outcome &bo, double budget, size_t &tries)
{
	double end = now_s() + budget;
	double to = bo.st == Outcome::HANG ? std::min(p.case_timeout, 5.0) : p.case_timeout;
	auto attempt = [&](const Tape &t) {
		if (now_s() > end) return false;
		tries++;
		Outcome o = run_forked(p, t, to, true);
		if (is_bad(o) && o.kind == bo.kind) {
			bo = o;
			return true;
		}
		return false;
	};
	bool progress = true;
	while (progress && now_s() < end) {
		progress = false;
		// drop chunks of operations
		for (size_t len = std::max<size_t>(1, (best.size() - 1) / 2); len >= 1 && now_s() < end; len /= 2) {
			for (size_t i = best.size(); i > 1 && now_s() < end;) {
				size_t lo = i > len + 1 ? i - len : 1;
				Tape c(best.begin(), best.begin() + lo);
				c.insert(c.end(), best.begin() + i, best.end());
				if (c.size() < best.size() && attempt(c)) {
					best = c;
					progress = true;
					i = std::min(lo, best.size());
				} else {
					i = lo;
				}
			}
			if (len == 1) break;
		}
		// simplify blocks
		for (size_t i = 0; i < best.size() && now_s() < end; i++) {
			// truncate the block
			for (size_t n = 0; n < best[i].size() && now_s() < end; n = n ? n * 2 : 1) {
				Tape c = best;
				c[i].resize(n);
				if (c[i] != best[i] && attempt(c)) {
					best = c;
					progress = true;
					break;
				}
			}
			for (size_t k = 0; k < best[i].size() && now_s() < end; k++) {
				if (best[i][k] == 0) continue;
				for (uint32_t v : {0u, 1u, best[i][k] % 4, best[i][k] % 16, best[i][k] % 100, best[i][k] % 1000}) {
					if (v >= best[i][k]) continue;
					Tape c = best;
					c[i][k] = v;
					if (attempt(c)) {
						best = c;
						progress = true;
						break;
					}
				}
			}
		}
	}
	return best;
}

struct Shard {
	volatile uint64_t current; // index + 1 of the running case
	volatile uint64_t done;
	volatile uint64_t inconclusive;
	volatile int state; // 0 running, 1 finished, 2 failed
};
struct Shared {
	volatile int stop;
	Shard shard[64];
};

int run_main(int argc, char **argv, const std::vector<Property> &props)
{
	std::string prop, replay, out = "/dev/stdout", replay_out, first_tape;
	uint64_t seed = 1, cases = 1000, only = UINT64_MAX;
	double secs = 1e9, shrink_secs = 40;
	int jobs = 8;
	bool verbose = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") prop = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--secs") secs = atof(val().c_str());
		else if (a == "--shrink-secs") shrink_secs = atof(val().c_str());
		else if (a == "--jobs") jobs = atoi(val().c_str());
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--replay-out") replay_out = val();
		else if (a == "--first") first_tape = val();
		else if (a == "--only") only = strtoull(val().c_str(), nullptr, 10);
		else if (a == "-v") verbose = true;
	}
	signal(SIGPIPE, SIG_IGN);
	const Property *p = nullptr;
	for (auto &x : props)
		if (x.id == prop) p = &x;
	if (!p) {
		fprintf(stderr, "unknown property %s\n", prop.c_str());
		return 3;
	}
	if (jobs > 64) jobs = 64;
	Property with_first;
	if (!first_tape.empty()) {
		std::ifstream f(first_tape);
		with_first = *p;
		with_first.fixed.insert(with_first.fixed.begin(), tape_parse(f));
		p = &with_first;
	}

	if (!replay.empty() || only != UINT64_MAX) {
		Tape t;
		if (!replay.empty()) {
			std::ifstream f(replay);
			t = tape_parse(f);
		} else {
			t = random_tape(seed, only, *p);
		}
		if (verbose) {
			Ctx ctx(t);
			Outcome o = run_inline(*p, t, ctx);
			printf("%s\noutcome %d %s: %s\n", o.trace.c_str(), (int) o.st, o.kind.c_str(), o.msg.c_str());
			return is_bad(o) ? 1 : 0;
		}
		Outcome o;
		for (int i = 0; i < std::max(1, p->confirm); i++) {
			o = run_forked(*p, t, p->case_timeout, false);
			if (is_bad(o)) break;
		}
		printf("%s\noutcome: %s%s%s\n", o.trace.c_str(), is_bad(o) ? "VIOLATED " : "held", o.kind.c_str(),
			is_bad(o) ? (": " + o.msg).c_str() : "");
		return is_bad(o) ? 1 : 0;
	}

	char tmpl[] = "/tmp/pbtXXXXXX";
	std::string dir = mkdtemp(tmpl);
	Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void *) sh, 0, sizeof *sh);
	double t0 = now_s();
	std::vector<pid_t> pids(jobs);
	std::vector<int> generation(jobs, 0);
	std::vector<std::string> files;
	fflush(nullptr);
	auto spawn = [&](int s, uint64_t from) {
		std::string stats = dir + "/s" + std::to_string(s) + "_" + std::to_string(generation[s]++);
		files.push_back(stats);
		sh->shard[s].state = 0;
		sh->shard[s].current = 0;
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			std::unordered_set<uint64_t> seen;
			std::map<std::string, uint64_t> labels;
			std::vector<std::string> samples;
			uint64_t nontriv = 0;
			Shard &me = sh->shard[s];
			for (uint64_t i = from; i < cases; i += jobs) {
				if (sh->stop || now_s() - t0 > secs) break;
				me.current = i + 1;
				Tape t = random_tape(seed, i, *p);
				Ctx ctx(t);
				Outcome o = run_inline(*p, t, ctx);
				me.done = me.done + 1;
				if (o.st == Outcome::INCONCLUSIVE) {
					me.inconclusive = me.inconclusive + 1;
					labels["inconclusive: " + o.msg]++;
					continue;
				}
				if (is_bad(o)) {
					std::string buf;
					put(buf, o.kind);
					put(buf, o.msg);
					put(buf, o.trace);
					std::ofstream f(stats + "_fail", std::ios::binary);
					f << buf;
					f.close();
					me.state = 2;
					break;
				}
				for (auto &l : ctx.labels) labels[l]++;
				if (ctx.nontrivial) {
					nontriv++;
					if (seen.insert(ctx.hash()).second && samples.size() < 2 && (nontriv % 7) == 1 + (uint64_t) s % 3)
						samples.push_back(ctx.trace());
				}
			}
			std::ofstream f(stats, std::ios::binary);
			std::string buf;
			put(buf, std::to_string(seen.size()));
			std::string hs;
			for (auto h : seen) hs.append((char *) &h, 8);
			put(buf, hs);
			put(buf, std::to_string(labels.size()));
			for (auto &l : labels) {
				put(buf, l.first);
				put(buf, std::to_string(l.second));
			}
			put(buf, std::to_string(samples.size()));
			for (auto &x : samples) put(buf, x);
			f << buf;
			f.close();
			if (me.state == 0) me.state = 1;
			_exit(0);
		}
		pids[s] = pid;
	};
	for (int s = 0; s < jobs; s++) spawn(s, s);

	// supervise; a failure is confirmed by running the case again in a process of its own
	std::vector<uint64_t> last(jobs, 0);
	std::vector<double> last_t(jobs, now_s());
	std::vector<bool> gone(jobs, false);
	bool violated = false;
	Outcome vo;
	Tape vt;
	size_t tries = 0;
	uint64_t vindex = 0;
	std::vector<std::string> unconfirmed;
	std::map<std::string, std::vector<std::pair<uint64_t, Outcome>>> flaky;
	auto suspect = [&](int s, bool hung) {
		uint64_t idx = sh->shard[s].current ? sh->shard[s].current - 1 : s;
		if (violated) return;
		Outcome seen;
		seen.st = hung ? Outcome::HANG : Outcome::CRASH;
		seen.kind = hung ? "hang" : "crash";
		seen.msg = hung ? "the case did not end" : "the process ended";
		std::string ff = dir + "/s" + std::to_string(s) + "_" + std::to_string(generation[s] - 1) + "_fail";
		{
			std::ifstream f(ff, std::ios::binary);
			std::string buf((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
			if (!buf.empty()) {
				size_t i = 0;
				seen.st = Outcome::FAIL;
				seen.kind = get(buf, i);
				seen.msg = get(buf, i);
				seen.trace = get(buf, i);
			}
		}
		unlink(ff.c_str());
		Tape t = random_tape(seed, idx, *p);
		Outcome o;
		bool bad = false;
		for (int k = 0; k < p->confirm && !bad; k++) {
			o = run_forked(*p, t, p->case_timeout, true);
			bad = is_bad(o);
		}
		if (!bad) {
			unconfirmed.push_back("case " + std::to_string(idx) + ": " + seen.kind + ": " + seen.msg);
			auto &v = flaky[seen.kind];
			v.push_back({idx, seen});
			// a failure that depends on the schedule: it need not happen again at once, but it keeps coming
			if (v.size() >= 3) {
				bad = true;
				o = seen;
			}
		}
		if (bad) {
			violated = true;
			vo = o;
			vindex = idx;
			vt = t;
			sh->stop = 1;
		}
	};
	int alive = jobs;
	while (alive > 0) {
		for (int s = 0; s < jobs; s++) {
			if (gone[s]) continue;
			Shard &me = sh->shard[s];
			int status;
			pid_t r = waitpid(pids[s], &status, WNOHANG);
			bool failed = false;
			if (r == pids[s]) {
				if (me.state == 1) {
					gone[s] = true;
					alive--;
					continue;
				}
				failed = true;
				suspect(s, false);
			} else if (me.current != last[s]) {
				last[s] = me.current;
				last_t[s] = now_s();
			} else if (now_s() - last_t[s] > p->case_timeout * 2) {
				kill(pids[s], SIGKILL);
				waitpid(pids[s], &status, 0);
				failed = true;
				suspect(s, true);
			}
			if (!failed) continue;
			uint64_t next = me.current ? me.current - 1 + jobs : (uint64_t) s + jobs;
			if (violated || next >= cases || now_s() - t0 > secs) {
				gone[s] = true;
				alive--;
			} else {
				spawn(s, next);
				for (int k = 0; k < jobs; k++) last_t[k] = now_s();
			}
		}
		usleep(20000);
	}

	uint64_t evals = 0, inconc = 0;
	std::unordered_set<uint64_t> all;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	for (int s = 0; s < jobs; s++) {
		evals += sh->shard[s].done;
		inconc += sh->shard[s].inconclusive;
	}
	for (auto &file : files) {
		std::ifstream f(file, std::ios::binary);
		std::string buf((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		size_t i = 0;
		get(buf, i);
		std::string hs = get(buf, i);
		for (size_t k = 0; k + 8 <= hs.size(); k += 8) {
			uint64_t h;
			memcpy(&h, hs.data() + k, 8);
			all.insert(h);
		}
		size_t nl = strtoull(get(buf, i).c_str(), nullptr, 10);
		for (size_t k = 0; k < nl; k++) {
			std::string l = get(buf, i);
			labels[l] += strtoull(get(buf, i).c_str(), nullptr, 10);
		}
		size_t ns = strtoull(get(buf, i).c_str(), nullptr, 10);
		for (size_t k = 0; k < ns; k++) samples.push_back(get(buf, i));
		unlink(file.c_str());
		unlink((file + "_fail").c_str());
	}
	rmdir(dir.c_str());

	if (violated) vt = shrink(*p, vt, vo, shrink_secs, tries);

	std::string j = "{";
	j += "\"status\":" + jstr(violated ? "violated" : "held");
	j += ",\"evaluations\":" + std::to_string(evals);
	j += ",\"inconclusive\":" + std::to_string(inconc);
	j += ",\"distinct_nontrivial\":" + std::to_string(all.size());
	j += ",\"rule\":" + jstr(p->rule);
	j += ",\"wall_s\":" + std::to_string(now_s() - t0);
	j += ",\"labels\":{";
	bool first = true;
	for (auto &l : labels) {
		j += (first ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second);
		first = false;
	}
	j += "},\"samples\":[";
	first = true;
	size_t ns = 0;
	std::sort(samples.begin(), samples.end(), [](auto &a, auto &b) { return a.size() < b.size(); });
	for (auto &s : samples) {
		if (++ns > 4) break;
		j += (first ? "" : ",") + jstr(s.size() > 4000 ? s.substr(0, 4000) + "..." : s);
		first = false;
	}
	j += "],\"unconfirmed\":[";
	first = true;
	for (auto &s : unconfirmed) {
		j += (first ? "" : ",") + jstr(s);
		first = false;
	}
	j += "]";
	if (violated) {
		j += ",\"case\":" + std::to_string(vindex);
		j += ",\"kind\":" + jstr(vo.kind);
		j += ",\"message\":" + jstr(vo.msg);
		j += ",\"trace\":" + jstr(vo.trace);
		j += ",\"shrink_tries\":" + std::to_string(tries);
		if (!replay_out.empty()) {
			std::ofstream f(replay_out);
			f << "# property " << p->id << " seed " << seed << " case " << vindex << "\n";
			f << "# " << vo.kind << ": ";
			for (char c : vo.msg) {
				if (c == '\n') f << "\n#   ";
				else f << c;
			}
			f << "\n";
			std::istringstream is(vo.trace);
			std::string line;
			while (std::getline(is, line)) f << "#   " << line << "\n";
			f << tape_text(vt);
		}
	}
	j += "}\n";
	std::ofstream f(out);
	f << j;
	return violated ? 1 : 0;
}

} // namespace pbt
