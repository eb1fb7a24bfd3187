// A small property-based testing engine.
//
// Every case is decoded from a "choice tape": a list of blocks of 32-bit choices. Block 0 configures the case,
// every further block is one operation. Random generation fills a tape from a seeded generator; shrinking works
// on the tape (drop blocks, lower choices); replaying runs a stored tape. A decoder never looks at anything but
// its tape, so a case is a pure function of (code, tape).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

using Block = std::vector<uint32_t>;
using Tape = std::vector<Block>;

/** Thrown by an oracle when the property is violated. */
struct Fail {
	std::string kind; // stable category, used to keep shrinking on the same failure
	std::string msg;
};
[[noreturn]] void fail(const std::string &kind, const std::string &msg);

/** Thrown by a driver when a case cannot be judged (never a violation). */
struct Inconclusive {
	std::string msg;
};

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
};

/** Reads choices from one block; an exhausted block yields zeros (the simplest choice). */
class Src
{
	const Block *b_;
	size_t i_ = 0;

public:
	explicit Src(const Block *b) : b_(b) {}
	uint32_t raw() { return (b_ && i_ < b_->size()) ? (*b_)[i_++] : 0; }
	uint32_t below(uint32_t n) { return n <= 1 ? (raw(), 0u) : raw() % n; }
	int range(int lo, int hi) { return lo + (int) below((uint32_t)(hi - lo + 1)); }
	bool chance(uint32_t pct) { return raw() % 100 >= 100 - pct; }
	/** index chosen with given weights (zero choice -> first index of non-zero weight) */
	size_t weighted(const std::vector<uint32_t> &w)
	{
		uint32_t sum = 0;
		for (auto x : w) sum += x;
		uint32_t r = below(sum ? sum : 1);
		for (size_t i = 0; i < w.size(); i++) {
			if (r < w[i]) return i;
			r -= w[i];
		}
		return 0;
	}
	template <typename T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t) v.size())]; }
	bool exhausted() const { return !b_ || i_ >= b_->size(); }
};

/** Per-case context: the tape, a readable trace, classification labels. */
class Ctx
{
public:
	const Tape &tape;
	bool nontrivial = false;
	std::set<std::string> labels;
	explicit Ctx(const Tape &t) : tape(t) {}
	Src config() const { return Src(tape.empty() ? nullptr : &tape[0]); }
	size_t ops() const { return tape.empty() ? 0 : tape.size() - 1; }
	Src op(size_t i) const { return Src(&tape[i + 1]); }
	void label(const std::string &l) { labels.insert(l); }
	static char *live; // if set, the trace is mirrored here, so that it survives a crash of the process
	static const size_t live_size = 1 << 18;
	void note(const std::string &line)
	{
		trace_ += line;
		trace_ += '\n';
		if (live && trace_.size() + 1 < live_size) {
			line.copy(live + trace_.size() - line.size() - 1, line.size());
			live[trace_.size() - 1] = '\n';
		}
		for (char c : line) h_ = (h_ ^ (unsigned char) c) * 1099511628211ull;
	}
	const std::string &trace() const { return trace_; }
	uint64_t hash() const { return h_; }

private:
	std::string trace_;
	uint64_t h_ = 1469598103934665603ull;
};

struct Property {
	std::string id;
	std::function<void(Ctx &)> run;
	std::string rule; // how cases are made and what counts as non-trivial
	size_t min_ops = 0, max_ops = 40;
	size_t width = 16; // choices per operation block
	size_t cfg_width = 24;
	int confirm = 10; // tries to reproduce a failure
	double case_timeout = 30; // seconds without progress regarded as a hang
	bool threads = false; // case uses threads / sockets (fewer shards)
	std::vector<Tape> fixed; // always run first (regressions / directed)
};

std::string hexdump(const std::string &s); // printable representation of a byte string

/** Parses the command line, runs the property, prints a JSON result. */
int run_main(int argc, char **argv, const std::vector<Property> &props);

/** run one tape, return empty string if it held, else "kind: message" (for the fuzz front end) */
Tape tape_from_bytes(const uint8_t *data, size_t size, const Property &p);

} // namespace pbt
