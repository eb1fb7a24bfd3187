#include "world.hpp"
using namespace pbt;

std::vector<Property> properties()
{
	const std::string gen =
		"Random histories of up to 60 operations on the real broker_handler, worker_registry and single or multi queue "
		"manager (random failure limit, liveness and ping interval): registrations with random capabilities, repeated or "
		"changed, with or without a claimed job; submissions with headers derived from registered workers or random, "
		"bursts; completions OK/FAILED/INTERNAL_ERROR; stray, malformed and repeated completions; pings, progress, ticks "
		"of random length, periods of silence of some workers, freezing, clock adjustments; then all workers finish or "
		"all fall silent. Non-trivial: ";
	std::vector<Property> v;
	auto add = [&](const char *id, const std::string &rule) {
		Property p;
		p.id = id;
		std::string pid = id;
		p.run = [pid](Ctx &c) { run_world(pid, c); };
		p.rule = gen + rule;
		p.min_ops = 3;
		p.max_ops = 60;
		p.width = 24;
		p.cfg_width = 120;
		p.confirm = 3;
		v.push_back(p);
	};
	add("C01", "a job had to wait and there was a lost worker, an internal error or a changed registration.");
	add("C02", "a completion was reported and there was a lost worker, a stray completion, an exhausted job or an ended claimed job.");
	add("C03", "jobs were both accepted and refused for lack of a worker, and one was served from a queue or retried.");
	add("C04", "a job was served from a queue and there was a claimed job, an internal error or a lost worker.");
	add("C05", "a job waited and was served from a queue, and there was an unsuccessful completion, a lost worker or a claimed job.");
	add("C06", "at least two jobs were served from a queue.");
	add("C08", "a worker was dropped while another one was kept.");
	add("C09", "a job was retried or ran out of attempts.");
	add("C10", "a job was sent and there was a retry, a frame with zero bytes or a progress message.");
	add("C11", "submissions were accepted as well as refused because of a freeze.");
	add("C12", "a worker changed its capabilities, or one claimed a job and jobs were served from a queue.");
	add("C13", "a worker was lost with jobs, a job ran out of attempts or a submission was refused.");
	add("C14", "statistics were read and jobs waited or were lost with a worker.");
	{
		Property p;
		p.id = "C07";
		p.run = run_c07;
		p.rule = "Random sequences of calls to the multi queue manager (workers joining with and without a job, leaving; jobs "
				 "queued, finished, cancelled, reassigned) compared call by call with a reference model of rotation; and random "
				 "histories on the real broker_handler with the multi queue manager compared with the same model. Non-trivial: "
				 "at least three capable workers were dealt at least four jobs and one job was queued behind a busy worker.";
		p.min_ops = 4;
		p.max_ops = 60;
		p.width = 20;
		p.cfg_width = 40;
		p.confirm = 3;
		v.push_back(p);
	}
	{
		Property p;
		p.id = "C15";
		p.run = run_c15;
		p.rule = "Arbitrary frames (random bytes, mutated, truncated and extended protocol messages, extreme numbers, from known "
				 "and unknown peers) are thrown at the real broker_handler among regular traffic, under address and undefined "
				 "behaviour sanitizers; afterwards a fresh worker must get and finish a fresh job. In the other half of the cases "
				 "the same regular history is run with and without undefined messages in between and must produce the same output. "
				 "Non-trivial: at least five undefined messages among regular ones, with a busy worker.";
		p.min_ops = 3;
		p.max_ops = 50;
		p.width = 24;
		p.cfg_width = 40;
		p.confirm = 3;
		v.push_back(p);
	}
	{
		Property p;
		p.id = "C16";
		p.run = run_c16;
		p.rule = "Random workers (several values per header, several thread counts) and header sets close to what they announce, "
				 "compared with an independent definition of matching, under permutation of headers on both sides, and against "
				 "lookups in registries of random content. Non-trivial: both a matching and a non-matching verdict occurred with "
				 "at least two required headers.";
		p.min_ops = 2;
		p.max_ops = 24;
		p.width = 24;
		p.cfg_width = 8;
		p.confirm = 3;
		v.push_back(p);
	}
	return v;
}

#ifndef PBT_FUZZ
int main(int argc, char **argv)
{
	return run_main(argc, argv, properties());
}
#endif
