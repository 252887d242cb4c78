// Concurrency driver.  args: plan(calls) out seed strata mode schedules rounds
//   mode run: a fresh process computes every call alone (the reference), then
//     - sweep: after every instruction of a call, another thread makes a
//       complete related call;
//     - sched: two threads follow a schedule of Conc.tla, single stepping;
//     - stress: eight threads make all calls at once, in shuffled orders, on
//       shared and on own objects.
//   mode free: only the threads (for the thread sanitizer).
#include "hist.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <ucontext.h>

using namespace hx;

namespace
{
struct Ref { int n; int type[2]; double c[2][8]; long steps; char text[1600]; };
void pack(Ref & o, Res const & r)
{
	o.n = (int)r.ents.size();
	for (int i = 0; i < o.n && i < 2; ++i)
	{
		o.type[i] = (int)r.ents[i].index();
		Comps const c = compsOf(r.ents[i]);
		for (std::size_t k = 0; k < c.size(); ++k) o.c[i][k] = c[k];
	}
	std::snprintf(o.text, sizeof o.text, "%s", r.text.c_str());
}
Res unpack(Ref const & o)
{
	Res r;
	for (int i = 0; i < o.n; ++i) r.ents.push_back(makeVar(o.type[i], Comps(o.c[i], o.c[i] + 8)));
	r.text = o.text;
	r.has = true;
	return r;
}
std::string line(Call const & c, Call const & after, Res const & r, Call const & wc, Ref const & ref, char const * how)
{
	Rec rec;
	std::string sa, sb, sa2, sb2; recEnt(sa, c.a); recEnt(sb, c.b); recEnt(sa2, after.a); recEnt(sb2, after.b);
	rec.str("op", "hist").str("how", how).str("f", opName(c.op)).raw("a", sa).raw("b", sb).raw("a2", sa2).raw("b2", sb2);
	recRes(rec, "r", r);
	rec.str("text", r.text).in("io", 0).in("env", 0).raw("w", callJson(wc, unpack(ref)));
	return rec.s + "}\n";
}

// ------------------------------------------------------------ single stepping
inline __attribute__((always_inline)) void stepOn() { asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
inline __attribute__((always_inline)) void stepOff() { asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }

thread_local int tId = 0;
enum { COUNT, SWEEP, SCHED };
int gKind = COUNT;
std::atomic<long> gSteps{0};
// sweep: requests to and answers from the helper
std::atomic<long> gAsk{0}, gDone{0};
// schedule
struct Run { int t; long n; };
std::vector<Run> gSched;
std::atomic<int> gAt{0}, gTurn{0};
std::atomic<bool> gOver[2];
long gLeft = 0;          // only touched by the thread whose turn it is

// wait until pred holds, or for at most ms milliseconds (a thread may hold a lock the other needs)
template <typename P> bool waitFor(P && pred, double ms)
{
	for (int i = 0; i < 20000; ++i) { if (pred()) return true; __builtin_ia32_pause(); }
	timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	long seen = gSteps.load();
	while (! pred())
	{
		sched_yield();
		clock_gettime(CLOCK_MONOTONIC, &b);
		if (long const now = gSteps.load(); now != seen) { seen = now; a = b; continue; }     // the other makes progress
		if ((b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) * 1e-6 > ms) return false;
	}
	return true;
}
void advance()
{
	int const k = ++gAt;
	if (k < (int)gSched.size()) { gLeft = gSched[k].n; gTurn.store(gSched[k].t); }
	else { gLeft = 1l << 60; gTurn.store(1 - gTurn.load()); }
}
void onTrap(int, siginfo_t *, void *)
{
	int const saved = errno;
	if (gKind == COUNT) { ++gSteps; }
	else if (gKind == SWEEP)
	{
		++gSteps;
		long const ask = gAsk.load();
		if (gDone.load() == ask) gAsk.store(ask + 1);            // else the helper is still blocked
		long const want = gAsk.load();
		waitFor([&] { return gDone.load() >= want; }, 2.);
	}
	else
	{
		int const me = tId;
		++gSteps;
		if (gTurn.load() == me && --gLeft <= 0 && ! gOver[1 - me].load()) advance();
		if (gTurn.load() != me)
			if (! waitFor([&] { return gTurn.load() == me || gOver[1 - me].load(); }, 2.)) { gLeft = 200; gTurn.store(me); }
	}
	errno = saved;
}
void installTrap()
{
	struct sigaction sa; std::memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_RESTART;
	sigaction(SIGTRAP, &sa, nullptr);
}
long countSteps(Call const & c)
{
	gKind = COUNT; gSteps = 0;
	Res r;
	stepOn();
	r = invoke(c.op, c.a, c.b);
	stepOff();
	return gSteps.load();
}

FILE * gOut = nullptr;
void put(std::string const & s) { std::fwrite(s.data(), 1, s.size(), gOut); }

// run f in a forked process with its own output file, append what it wrote; a crash is a line
template <typename F> void child(std::string const & base, char const * what, F && f)
{
	std::fflush(nullptr);
	std::string const name = base + ".child";
	::unlink(name.c_str());
	pid_t const pid = fork();
	if (pid == 0)
	{
		alarm(150);
		gOut = std::fopen(name.c_str(), "w");
		if (! gOut) _exit(3);
		f();
		std::fclose(gOut);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	std::ifstream in(name);
	std::string l;
	while (std::getline(in, l)) if (! l.empty() && l.back() == '}') { l += '\n'; put(l); }
	::unlink(name.c_str());
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) std::exit(3);
	if (! WIFEXITED(st) || WEXITSTATUS(st) != 0) { Rec r; r.str("op", "crash").str("how", what).in("status", st); put(r.s + "}\n"); }
}
}

int main(int argc, char ** argv)
{
	if (argc < 8) return 2;
	Plan const plan(argv[1]);
	std::string const path = argv[2];
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const strata = std::atoi(argv[4]) + 1;
	bool const freeRun = std::string(argv[5]) == "free";
	int const rounds = std::atoi(argv[7]);
	gOut = std::fopen(path.c_str(), "w");
	if (! gOut) return 3;
	std::vector<Desc> ds;
	for (auto const & w : plan.lines) ds.push_back({opByName(w[0]), typeId(w[1]), w[2] == "-" ? 0 : typeId(w[2])});
	// schedules: t n t n ... in steps out of `total` per call
	std::vector<std::vector<Run>> scheds; int total = 4;
	if (! freeRun)
	{
		Plan const sp(argv[6]);
		for (auto const & w : sp.lines)
		{
			total = std::atoi(w[0].c_str());
			std::vector<Run> s;
			for (std::size_t i = 1; i + 1 < w.size(); i += 2) s.push_back({std::atoi(w[i].c_str()) - 1, std::atol(w[i + 1].c_str())});
			scheds.push_back(s);
		}
	}
	int const nd = (int)ds.size(), total8 = nd * strata * sNumVar;
	auto idOf = [&](int d, int k, int v) { return (d * strata + k) * sNumVar + v; };
	auto callOf = [&](int id) { int const v = id % sNumVar, k = id / sNumVar % strata, d = id / sNumVar / strata; return variant(ds[d], seed, d, stratumOf(d, k, strata - 1, seed), v); };
	std::vector<Call> calls; calls.reserve(total8);
	for (int id = 0; id < total8; ++id) calls.push_back(callOf(id));

	auto stress = [&](int lo, int hi, int nThreads, Ref const * ref, int nRounds)
	{
		std::atomic<int> ready{0};
		std::vector<std::string> outs(nThreads);
		std::vector<std::thread> ts;
		for (int t = 0; t < nThreads; ++t) ts.emplace_back([&, t] {
			Rng r(seed * 91 + t * 17 + lo);
			std::vector<int> order; for (int i = lo; i < hi; ++i) order.push_back(i);
			std::vector<Call> own(calls.begin() + lo, calls.begin() + hi);
			++ready; while (ready.load() < nThreads) sched_yield();
			int bad = 0;
			for (int round = 0; round < nRounds; ++round)
			{
				if (round % 4 == 1) for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
				else if (round % 4 == 2) { int const off = (hi - lo) * t / nThreads; for (int i = 0; i < hi - lo; ++i) order[i] = lo + (i + off) % (hi - lo); }
				else if (round % 4 == 3) { int const g = order.empty() ? lo : order[r.range(0, hi - lo - 1)] / sNumVar * sNumVar; for (auto & o : order) { o = g + r.range(0, sNumVar - 1); if (o < lo || o >= hi) o = lo; } }
				else for (int i = lo; i < hi; ++i) order[i - lo] = i;
				for (int id : order)
				{
					Call const & c = (round + t) % 2 ? calls[id] : own[id - lo];
					Res const res = invoke(c.op, c.a, c.same && r.coin() ? c.a : c.b);
					if (! ref || ! res.has) continue;
					bool const keep = bitsEqual(c.a, calls[id].a) && bitsEqual(c.b, calls[id].b);
					bool const same = resEqual(res, unpack(ref[id]));
					if ((! same || ! keep) ? ++bad < 4 : (round == nRounds - 1 && id % nThreads == t))
						outs[t] += line(callOf(id), c, res, callOf(id), ref[id], "stress");
				}
			}
		});
		for (auto & t : ts) t.join();
		for (auto const & o : outs) put(o);
	};

	if (freeRun)
	{
		int const chunk = sNumVar * strata * 16;
		for (int lo = 0; lo < total8; lo += chunk) stress(lo, std::min(lo + chunk, total8), 6, nullptr, rounds);
		Rec r; r.str("op", "clean").in("calls", total8); put(r.s + "}\n");
		std::fclose(gOut);
		return 0;
	}

	Ref * ref = (Ref *)mmap(nullptr, sizeof(Ref) * total8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (ref == MAP_FAILED) return 3;
	child(path, "reference", [&] {
		installTrap();
		for (int id = 0; id < total8; ++id)
		{
			pack(ref[id], invoke(calls[id].op, calls[id].a, calls[id].b));
			ref[id].steps = id % sNumVar < 2 ? countSteps(calls[id]) : ref[id - 1].steps;
		}
		if (std::getenv("HX_STEPS")) for (int id = 0; id < total8; id += strata * sNumVar) std::fprintf(stderr, "%s %s %ld\n", opName(calls[id].op), nameOf(calls[id].a), ref[id].steps);
	});
	if (std::getenv("HX_STEPS")) return 0;
	// threads at once
	{ int const chunk = sNumVar * strata * 24; for (int lo = 0; lo < total8; lo += chunk) child(path, "stress", [&] { stress(lo, std::min(lo + chunk, total8), 8, ref, rounds); }); }
	// a complete call after every instruction of another
	auto sweep = [&](int d, std::string const & path) {
		Rng r(seed * 5 + 9 + 1000 * d);
		for (int k = 0; k < strata; ++k)
		{
			if (k == strata - 1 && ! branches(ds[d].op)) break;
			int const idA = idOf(d, k, r.range(0, sNumVar - 1));
			std::vector<int> bs;
			for (int v = 0; v < sNumVar; ++v) bs.push_back(idOf(d, k, v));
			if (k % 2) { int const d2 = r.range(0, nd - 1); for (int v = 0; v < sNumVar; v += 2) bs[v] = idOf(d2, r.range(0, strata - 1), v); }
			child(path, "sweep", [&] {
				installTrap();
				std::atomic<bool> stop{false};
				Call const a = callOf(idA);
				std::vector<Call> bc; for (int b : bs) bc.push_back(callOf(b));
				std::vector<Res> want; for (int b : bs) want.push_back(unpack(ref[b]));
				std::string lines; int bad = 0; long cnt = 0;
				std::atomic<bool> up{false};
				std::thread helper([&] {
					up = true;
					while (! stop.load())
					{
						long const ask = gAsk.load();
						if (gDone.load() == ask) { __builtin_ia32_pause(); continue; }
						int const q = (int)(cnt++ % bs.size());
						Res const res = invoke(bc[q].op, bc[q].a, bc[q].b);
						if (res.has && ! resEqual(res, want[q]) && bad++ < 2) lines += line(callOf(bs[q]), bc[q], res, callOf(bs[q]), ref[bs[q]], "sweep other");
						gDone.store(ask);
					}
				});
				while (! up.load()) sched_yield();
				gKind = SWEEP;
				Res res;
				stepOn();
				res = invoke(a.op, a.a, a.b);
				stepOff();
				stop = true;
				helper.join();
				if (res.has) { put(line(callOf(idA), a, res, callOf(idA), ref[idA], "sweep")); put(lines); }
			});
		}
	};
	// schedules of the model
	auto schedule = [&](int d, std::string const & path) {
		Rng r(seed * 6 + 11 + 1000 * d);
		bool const isText = ds[d].op == Op::fixed || ds[d].op == Op::enote || ds[d].op == Op::put;
		for (int q = 0; q < (isText ? (rounds + 7) / 8 : rounds); ++q)
		{
			std::vector<Run> const & s = scheds[(seed * 13 + (std::size_t)d * rounds + q) % scheds.size()];
			int ids[2][2];
			int const k = r.range(0, strata - 1), d2 = r.coin(2, 3) ? d : r.range(0, nd - 1);
			for (int t = 0; t < 2; ++t) for (int c = 0; c < 2; ++c) ids[t][c] = idOf(t ? d2 : d, k, r.range(0, sNumVar - 1));
			long const mean = std::max(1l, (ref[idOf(d, k, 0)].steps + ref[idOf(d2, k, 0)].steps) / 2);
			std::uint64_t const js = r.next();
			child(path, "schedule", [&] {
				installTrap();
				Rng j(js);
				gSched.clear();
				for (auto const & x : s) gSched.push_back({x.t, std::max(1l, (long)(x.n * mean / total + (j.unit() - .5) * mean / total))});
				if (gSched.empty()) return;
				gAt = 0; gLeft = gSched[0].n; gTurn = gSched[0].t; gOver[0] = gOver[1] = false;
				gKind = SCHED;
				std::atomic<int> ready{0};
				Call cs[2][2]; Res rs[2][2];
				for (int t = 0; t < 2; ++t) for (int c = 0; c < 2; ++c) cs[t][c] = callOf(ids[t][c]);
				std::vector<std::thread> ts;
				for (int t = 0; t < 2; ++t) ts.emplace_back([&, t] {
					tId = t;
					++ready; while (ready.load() < 2) {}
					for (int c = 0; c < 2; ++c)
					{
						stepOn();
						rs[t][c] = invoke(cs[t][c].op, cs[t][c].a, cs[t][c].b);
						stepOff();
					}
					gOver[t] = true;
				});
				for (auto & t : ts) t.join();
				for (int t = 0; t < 2; ++t) for (int c = 0; c < 2; ++c)
					if (rs[t][c].has) put(line(callOf(ids[t][c]), cs[t][c], rs[t][c], callOf(ids[t][c]), ref[ids[t][c]], "schedule"));
			});
		}
	};
	// four processes share the work
	int const nw = 4;
	std::vector<pid_t> pids;
	std::fflush(nullptr);
	for (int w = 0; w < nw; ++w)
	{
		pid_t const pid = fork();
		if (pid) { pids.push_back(pid); continue; }
		std::string const mine = path + ".w" + std::to_string(w);
		gOut = std::fopen(mine.c_str(), "w");
		if (! gOut) _exit(3);
		// within a time budget (a busy machine single steps slowly), in an order that depends on the seed
		std::vector<int> mineD; for (int d = w; d < nd; d += nw) mineD.push_back(d);
		Rng ord(seed * 17 + w);
		for (int i = (int)mineD.size() - 1; i > 0; --i) std::swap(mineD[i], mineD[ord.range(0, i)]);
		std::stable_sort(mineD.begin(), mineD.end(), [&](int x, int y) { return branches(ds[x].op) > branches(ds[y].op); });
		double const budget = argc > 8 ? std::atof(argv[8]) : 1e9;
		auto const t0 = std::chrono::steady_clock::now();
		for (int d : mineD)
		{
			if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
			sweep(d, mine); schedule(d, mine);
		}
		std::fclose(gOut);
		_exit(0);
	}
	int failed = 0;
	for (int w = 0; w < nw; ++w)
	{
		int st = 0;
		waitpid(pids[w], &st, 0);
		if (! WIFEXITED(st) || WEXITSTATUS(st) != 0) failed = 1;
		std::string const mine = path + ".w" + std::to_string(w);
		std::ifstream in(mine);
		std::string l;
		while (std::getline(in, l)) put(l + "\n");
		::unlink(mine.c_str());
	}
	if (failed) return 3;
	std::fclose(gOut);
	return 0;
}
