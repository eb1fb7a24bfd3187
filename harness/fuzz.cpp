// libFuzzer front end: the bytes of an input are read as a choice tape of the property named by VERIF_FUZZ_PROP.
// With VERIF_FUZZ_TAPE set, the tape of each input is stored there before it is run.
#include "engine.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>

std::vector<pbt::Property> properties();

extern "C" void pbt_after_case() __attribute__((weak)); // back to the real clock

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	static const pbt::Property *p = nullptr;
	static const char *tape = getenv("VERIF_FUZZ_TAPE");
	if (!p) {
		static std::vector<pbt::Property> all = properties();
		const char *id = getenv("VERIF_FUZZ_PROP");
		for (auto &x : all)
			if (id && x.id == id) p = &x;
		if (!p) {
			fprintf(stderr, "VERIF_FUZZ_PROP does not name a property\n");
			_Exit(3);
		}
		signal(SIGPIPE, SIG_IGN);
	}
	pbt::Tape t = pbt::tape_from_bytes(data, size, *p);
	if (tape) {
		std::ofstream f(tape);
		f << "# property " << p->id << " found by coverage-guided search\n";
		for (auto &b : t) {
			for (size_t i = 0; i < b.size(); i++) f << (i ? " " : "") << b[i];
			f << "\n";
		}
	}
	struct After {
		~After() { if (pbt_after_case) pbt_after_case(); }
	} after;
	pbt::Ctx ctx(t);
	try {
		p->run(ctx);
	} catch (const pbt::Fail &f) {
		fprintf(stderr, "FAIL %s: %s\n", f.kind.c_str(), f.msg.c_str());
		abort();
	} catch (const pbt::Inconclusive &) {
	} catch (const std::exception &e) {
		fprintf(stderr, "EXCEPTION %s\n", e.what());
		abort();
	}
	return 0;
}
