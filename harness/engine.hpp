// Explicit-state / stateless exploration engine driving real library code.
//
// A *model* creates a *world* (system under test + reference). world.step(ch) performs one
// transition; every nondeterministic decision in it is ch.choose(n). A state is a history of
// choice lists and is rebuilt by replay; world.key() is its canonical form. explore() enumerates
// every choice list of every state, breadth first, in forked workers: a crash, sanitizer report,
// std::terminate or hang is attributed to the exact choice list kept in shared memory.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {
using Steps = std::vector<std::uint16_t>;   // choices of one step
using History = std::vector<Steps>;

// ---------------------------------------------------------------- shared state of one process
struct Slot {
	std::atomic<std::uint64_t> executions, faults;
	std::atomic<std::uint32_t> state;      // index into the frontier being expanded
	std::atomic<std::uint32_t> len;        // choices made so far in the explored step
	std::uint16_t trail[8192];
	char tag[64];
	char msg[8192];
	char label[128];
};
struct Shm {
	std::atomic<std::uint64_t> next_task;
	std::atomic<int> stop;
	Slot slot[64];
};

inline Slot local_slot_storage;
inline Slot * slot{&local_slot_storage};
inline bool verbose{false};          // replay: print what happens
inline std::vector<std::string> * narrative{nullptr};
inline std::set<std::string> mask;   // oracle tags this run decides ("" = all)
inline bool tainted{false};          // an oracle outside the mask failed in this execution

inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char * f, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	std::vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

struct Scope;
inline int sut_depth{0};

#define NOTE(...) do { if(::mc::narrative) { ::mc::Paused mc_paused; ::mc::narrative->push_back(::mc::fmt(__VA_ARGS__)); } } while(0)

//! suspends allocation tracking (harness code running inside a callback from the library)
struct Paused {
	int old;
	Paused() : old{sut_depth} { sut_depth = 0; }
	~Paused() { sut_depth = old; }
	Paused(const Paused &) =delete;
};

//! an oracle failed: end the process if the tag is selected, otherwise only mark the execution
inline void fail(const char * tag, const std::string & msg) {
	Paused p;
	if(!mask.empty() && !mask.count(tag)) {
		tainted = true;
		NOTE("  [foreign oracle %s failed: %s]", tag, msg.c_str());
		return;
	}
	std::snprintf(slot->tag, sizeof slot->tag, "%s", tag);
	std::snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
	if(narrative) {
		for(auto & l : *narrative) std::printf("%s\n", l.c_str());
		std::printf("FAILED oracle %s: %s\n", tag, msg.c_str());
		std::fflush(stdout);
	}
	_exit(3);
}
#define REQUIRE_(tag, cond, ...) do { if(!(cond)) { ::mc::fail(tag, ::mc::fmt(__VA_ARGS__) + " [" #cond "]"); } } while(0)

// ---------------------------------------------------------------- choices
struct Skip {}; // the prefix does not exist in this state

class Chooser {
	const Steps * fixed{nullptr};
	std::size_t pos{0};
	bool exploring{false};
public:
	Steps trail, width;
	const char * label_{"?"};
	int split_{1};
	static constexpr int per_choice{96};

	void begin(const Steps & prefix, bool explore) {
		fixed = &prefix;
		pos = 0;
		exploring = explore;
		trail.clear();
		width.clear();
		label_ = "?";
	}
	int choose(int n) {
		if(n <= 0) { std::fprintf(stderr, "engine: choose(%d)\n", n); std::abort(); }
		if(n == 1) return 0;
		if(exploring && pos < static_cast<std::size_t>(split_) && n > per_choice) { std::fprintf(stderr, "engine: choice of %d is too wide to split\n", n); std::abort(); }
		int v{0};
		if(pos < fixed->size()) {
			v = (*fixed)[pos];
			if(v >= n) {
				if(exploring) throw Skip{};
				std::fprintf(stderr, "engine: replay diverged (choice %d of %d)\n", v, n);
				_exit(4);
			}
		} else if(!exploring) {
			std::fprintf(stderr, "engine: replay diverged (extra choice of %d)\n", n);
			_exit(4);
		}
		++pos;
		Paused p;
		if(exploring) {
			const auto l{trail.size()};
			if(l < 8192) { slot->trail[l] = static_cast<std::uint16_t>(v); slot->len.store(static_cast<std::uint32_t>(l + 1), std::memory_order_relaxed); }
		}
		trail.push_back(static_cast<std::uint16_t>(v));
		width.push_back(static_cast<std::uint16_t>(n));
		return v;
	}
	bool flip() { return choose(2) != 0; }
	template<typename T, std::size_t N>
	T pick(const T (&a)[N]) { return a[choose(N)]; }
	template<typename T>
	T pick(const std::vector<T> & a) { return a[static_cast<std::size_t>(choose(static_cast<int>(a.size())))]; }
	void label(const char * l) {
		label_ = l;
		if(exploring) std::snprintf(slot->label, sizeof slot->label, "%s", l);
		NOTE("%s", l);
	}
	bool complete() const { return pos == fixed->size(); }
	//! false while a prefix is only being replayed (its checks were made when it was explored)
	bool fresh() const { return exploring || narrative; }
};
inline Chooser * chooser{nullptr};

// ---------------------------------------------------------------- faults
inline bool faults_on{false};   // may environment answers deviate from "success"?
inline int fault_budget{0};     // deviations left in this step
inline int fault_count{0};      // deviations that happened in this step
struct Injected : std::exception { const char * what() const noexcept override { return "injected"; } };

//! a fallible event: true = it fails this time
inline bool fault_here(const char * what) {
	if(!faults_on || fault_budget <= 0 || !sut_depth || !chooser) return false;
	const bool f{chooser->flip()};
	if(f) {
		--fault_budget;
		++fault_count;
		slot->faults.fetch_add(1, std::memory_order_relaxed);
		NOTE("  -> fault injected at: %s", what);
	}
	return f;
}
inline void may_throw(const char * what) {
	if(fault_here(what)) throw Injected{};
}
inline void arm(int n) { fault_budget = faults_on ? n : 0; fault_count = 0; }

// ---------------------------------------------------------------- allocation ledger
enum Kind : std::uint8_t { K_NEW, K_NEWARR, K_MALLOC, K_NEW_AL, K_NEWARR_AL };
inline const char * kind_name(Kind k) { static const char * n[]{"operator new", "operator new[]", "malloc/calloc", "aligned operator new", "aligned operator new[]"}; return n[k]; }
struct Alloc { void * ptr; std::size_t size; Kind kind; };
struct Ledger {
	static constexpr std::size_t max{256};
	Alloc a[max];
	std::size_t n{0};
	std::uint64_t allocs{0}, frees{0};      // during SUT scope
	const char * mem_tag{"mem"};

	void add(void * p, std::size_t s, Kind k) {
		++allocs;
		if(n == max) { fail(mem_tag, "too many live allocations made by the library"); return; }
		a[n++] = {p, s, k};
	}
	//! true: it was ours
	bool remove(void * p, Kind k) {
		for(std::size_t i{n}; i-- > 0;)
			if(a[i].ptr == p) {
				if(a[i].kind != k) fail(mem_tag, fmt("memory obtained from %s released as %s", kind_name(a[i].kind), kind_name(k)));
				a[i] = a[--n];
				++frees;
				return true;
			}
		return false;
	}
	const Alloc * find(const void * p) const { // allocation containing p
		for(std::size_t i{0}; i < n; ++i)
			if(p >= a[i].ptr && p < static_cast<const char *>(a[i].ptr) + a[i].size) return &a[i];
		return nullptr;
	}
};
inline Ledger ledger;

struct Scope {
	Scope() { ++sut_depth; }
	~Scope() { --sut_depth; }
};

enum Outcome { OK, BAD_ALLOC, LENGTH, RANGE, INJECTED, BAD_OPT, BAD_VAR, OTHER };
inline const char * outcome_name(Outcome o) { static const char * n[]{"ok", "bad_alloc", "length_error", "out_of_range", "injected exception", "bad_optional_access", "bad_variant_access", "other exception"}; return n[o]; }

//! run library code: allocations are tracked, exceptions classified
template<typename F>
Outcome sut(F && f) {
	Outcome o{OK};
	try {
		Scope s;
		f();
	}
	catch(const Skip &) { throw; }
	catch(const Injected &) { o = INJECTED; }
	catch(const std::bad_alloc &) { o = BAD_ALLOC; }
	catch(const std::length_error &) { o = LENGTH; }
	catch(const std::out_of_range &) { o = RANGE; }
	catch(const std::exception & e) {
		if(std::strcmp(e.what(), "bad optional access") == 0) o = BAD_OPT;
		else if(std::strstr(e.what(), "bad_variant_access") || std::strstr(e.what(), "variant")) o = BAD_VAR;
		else o = OTHER;
	}
	catch(...) { o = OTHER; }
	if(o != OK) NOTE("  -> threw %s", outcome_name(o));
	return o;
}

// ---------------------------------------------------------------- worlds and models
struct World {
	virtual ~World() =default;
	virtual void step(Chooser &) =0;
	//! canonical form of the state; "" = do not expand further
	virtual std::string key() =0;
};

struct Model {
	std::string name;
	std::function<World *()> make;
	int depth{1};          // maximal number of steps
	bool dedupe{true};     // false: stateless, every history
	bool faults{false};
	int split{1};          // choices used to cut a state's tree into tasks (1 or 2)
	std::vector<std::string> samples_hint;
};

struct Failure {
	bool present{false};
	std::string kind, tag, msg, label, log;
	History history; // including the failing step (possibly partial)
};

struct Result {
	std::string model;
	std::uint64_t states{0}, transitions{0}, executions{0}, faults{0}, foreign{0};
	int depth{0};
	bool complete{true};
	std::string cap;
	std::map<std::string, std::uint64_t> labels;
	std::vector<std::string> samples;
	double wall{0};
	Failure failure;
};

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Executed { std::string key; bool tainted; };

//! replay a history (all but the last step fixed), then run the last step
inline Executed run_history(const Model & m, const History & h, const Steps & last, Chooser & ch, bool explore) {
	chooser = &ch;
	tainted = false;
	ledger.n = 0;
	faults_on = false;
	static const Steps none;
	std::string key;
	{
		faults_on = m.faults;
		std::unique_ptr<World> w{m.make()};
		for(auto & s : h) {
			ch.begin(s, false);
			NOTE("step:");
			w->step(ch);
			if(!ch.complete()) { std::fprintf(stderr, "engine: replay diverged (choices left)\n"); _exit(4); }
		}
		ch.begin(last, explore);
		NOTE("step:");
		w->step(ch);
		key = w->key();
	}
	if(ledger.n) {
		fail("leak", fmt("%zu allocation(s) never released (first: %zu bytes from %s)", ledger.n, ledger.a[0].size, kind_name(ledger.a[0].kind)));
		ledger.n = 0;
	}
	faults_on = false;
	return {std::move(key), tainted};
}

inline std::string trail_text(const History & h) {
	std::string r;
	for(auto & s : h) {
		r += "[";
		for(std::size_t i{0}; i < s.size(); ++i) r += (i ? "," : "") + std::to_string(s[i]);
		r += "]";
	}
	return r;
}

inline std::uint64_t hash_bytes(const void * p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
	auto c{static_cast<const unsigned char *>(p)};
	for(std::size_t i{0}; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}

struct Options {
	int jobs{8};
	double deadline{0};   // absolute
	double hang{20};
	std::string dir{"."}; // scratch
};

namespace detail {
template<typename T> void put(std::FILE * f, const T & v) { std::fwrite(&v, sizeof v, 1, f); }
inline void put(std::FILE * f, const std::string & s) { put(f, static_cast<std::uint32_t>(s.size())); std::fwrite(s.data(), 1, s.size(), f); }
inline void put(std::FILE * f, const Steps & s) { put(f, static_cast<std::uint32_t>(s.size())); std::fwrite(s.data(), 2, s.size(), f); }
template<typename T> bool get(std::FILE * f, T & v) { return std::fread(&v, sizeof v, 1, f) == 1; }
inline bool get(std::FILE * f, std::string & s) { std::uint32_t n; if(!get(f, n)) return false; s.resize(n); return std::fread(&s[0], 1, n, f) == n; }
inline bool get(std::FILE * f, Steps & s) { std::uint32_t n; if(!get(f, n)) return false; s.resize(n); return std::fread(s.data(), 2, n, f) == n; }
inline std::string slurp(const std::string & p, std::size_t limit = 20000) {
	std::string r;
	if(auto f{std::fopen(p.c_str(), "rb")}) {
		char b[4096];
		std::size_t n;
		while(r.size() < limit && (n = std::fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
		std::fclose(f);
	}
	return r;
}
constexpr int per_choice{Chooser::per_choice};
}

struct Found { std::uint32_t state; Steps steps; std::string key; };

//! body of a worker: expand tasks until none is left
inline void worker(const Model & m, Shm * shm, int id, const std::vector<History> & frontier, const std::unordered_set<std::string> & seen, const std::string & out, const Options & opt) {
	slot = &shm->slot[id];
	Chooser ch;
	ch.split_ = m.split;
	std::unordered_set<std::string> local;
	std::unordered_set<std::uint64_t> edges;
	std::map<std::string, std::uint64_t> labels;
	std::vector<Found> found;
	std::uint64_t foreign{0};
	bool capped{false};
	const std::uint64_t tasks_per_state{m.split == 2 ? static_cast<std::uint64_t>(detail::per_choice) * detail::per_choice : detail::per_choice};
	const auto total{frontier.size() * tasks_per_state};
	const std::string own_src;
	for(;;) {
		const auto t{shm->next_task.fetch_add(1)};
		if(t >= total || shm->stop.load()) break;
		const auto si{static_cast<std::uint32_t>(t / tasks_per_state)};
		const auto rest{t % tasks_per_state};
		Steps prefix;
		if(m.split == 2) prefix = {static_cast<std::uint16_t>(rest / detail::per_choice), static_cast<std::uint16_t>(rest % detail::per_choice)};
		else prefix = {static_cast<std::uint16_t>(rest)};
		const auto fixed{prefix.size()};
		slot->state = si;
		auto & hist{frontier[si]};
		for(;;) {
			if(opt.deadline && now() > opt.deadline) { capped = true; break; }
			slot->len = 0;
			Executed e;
			bool skip{false};
			try {
				e = run_history(m, hist, prefix, ch, true);
			} catch(const Skip &) { skip = true; sut_depth = 0; ledger.n = 0; }
			if(skip) break;
			//the tree may have fewer choices than the split: only the all-zero remainder owns it
			if(ch.trail.size() < fixed) {
				bool dup{false};
				for(auto i{ch.trail.size()}; i < fixed; ++i) dup |= prefix[i] != 0;
				if(dup) break;
			}
			slot->executions.fetch_add(1, std::memory_order_relaxed);
			++labels[ch.label_];
			if(e.tainted) ++foreign;
			{
				auto h{hash_bytes(&si, sizeof si)};
				h = hash_bytes(ch.label_, std::strlen(ch.label_), h);
				h = hash_bytes(e.key.data(), e.key.size(), h);
				if(!m.dedupe) h = hash_bytes(ch.trail.data(), ch.trail.size() * 2, h);
				edges.insert(h);
			}
			if(!e.tainted && !e.key.empty()) {
				if(!m.dedupe) found.push_back({si, ch.trail, e.key});
				else if(!seen.count(e.key) && local.insert(e.key).second) found.push_back({si, ch.trail, e.key});
			}
			//next choice list: increment the last choice that still can
			auto n{ch.trail.size()};
			while(n > fixed && ch.trail[n - 1] + 1 >= ch.width[n - 1]) --n;
			if(n <= fixed) break;
			prefix.assign(ch.trail.begin(), ch.trail.begin() + static_cast<std::ptrdiff_t>(n));
			++prefix[n - 1];
		}
		if(capped) break;
	}
	auto f{std::fopen(out.c_str(), "wb")};
	detail::put(f, static_cast<std::uint64_t>(capped));
	detail::put(f, foreign);
	detail::put(f, static_cast<std::uint64_t>(labels.size()));
	for(auto & l : labels) { detail::put(f, l.first); detail::put(f, l.second); }
	detail::put(f, static_cast<std::uint64_t>(edges.size()));
	for(auto h : edges) detail::put(f, h);
	detail::put(f, static_cast<std::uint64_t>(found.size()));
	for(auto & x : found) { detail::put(f, x.state); detail::put(f, x.steps); detail::put(f, x.key); }
	std::fclose(f);
	_exit(0);
}

inline void redirect(const std::string & err) {
	const int fd{::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644)};
	if(fd >= 0) { ::dup2(fd, 2); ::close(fd); }
}

//! run one history alone in a child; used to confirm failures and to get the narrative
inline Failure confirm(const Model & m, const History & h, const Options & opt, double limit, bool explore_last) {
	Failure r;
	auto shm{static_cast<Shm *>(::mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))};
	new(shm) Shm{};
	const auto err{opt.dir + "/confirm.err"}, outp{opt.dir + "/confirm.out"};
	std::fflush(stdout);
	const auto pid{::fork()};
	if(pid == 0) {
		redirect(err);
		const int fd{::open(outp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644)};
		::dup2(fd, 1);
		slot = &shm->slot[0];
		std::vector<std::string> lines;
		narrative = &lines;
		std::signal(SIGALRM, SIG_DFL);
		Chooser ch;
		History pre(h.begin(), h.end() - 1);
		try {
			//choices after the recorded ones (crash in the middle of a step) default to 0
			run_history(m, pre, h.back(), ch, explore_last);
		} catch(const Skip &) { std::fprintf(stderr, "engine: replay diverged (skip)\n"); _exit(4); }
		for(auto & l : lines) std::printf("%s\n", l.c_str());
		std::fflush(stdout);
		_exit(0);
	}
	const auto t0{now()};
	int st{0};
	bool hang{false};
	while(::waitpid(pid, &st, WNOHANG) == 0) {
		if(now() - t0 > limit) { ::kill(pid, SIGKILL); ::waitpid(pid, &st, 0); hang = true; break; }
		::usleep(2000);
	}
	r.log = detail::slurp(outp) + detail::slurp(err);
	r.history = h;
	if(hang) { r.present = true; r.kind = "hang"; r.msg = fmt("no progress for %.0f s", limit); }
	else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) r.present = false;
	else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { r.present = true; r.kind = "oracle"; r.tag = shm->slot[0].tag; r.msg = shm->slot[0].msg; }
	else if(WIFEXITED(st) && WEXITSTATUS(st) == 4) { r.present = true; r.kind = "diverged"; r.msg = "replay diverged"; }
	else {
		r.present = true;
		r.kind = "crash";
		r.msg = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("sanitizer or runtime aborted (exit code %d)", WEXITSTATUS(st));
		const auto log{detail::slurp(err)};
		for(auto k : {"ERROR: ", "runtime error: ", "terminate called"})
			if(const auto p{log.find(k)}; p != std::string::npos) { r.msg += ": " + log.substr(p, log.find('\n', p) - p).substr(0, 300); break; }
	}
	r.label = shm->slot[0].label;
	::munmap(shm, sizeof(Shm));
	return r;
}

inline Result explore(const Model & m, Options opt) {
	Result res;
	int retries{0};
	res.model = m.name;
	const auto t0{now()};
	std::unordered_set<std::string> seen;
	std::unordered_set<std::uint64_t> edges;
	std::vector<History> frontier{History{}};
	res.states = 1;
	auto shm{static_cast<Shm *>(::mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))};
	for(int level{0}; level < m.depth && !frontier.empty() && !res.failure.present; ++level) {
		new(shm) Shm{};
		std::vector<pid_t> pids;
		std::vector<std::string> outs;
		std::fflush(stdout);
		for(int i{0}; i < opt.jobs; ++i) {
			outs.push_back(opt.dir + "/w" + std::to_string(i));
			::unlink(outs.back().c_str());
			const auto pid{::fork()};
			if(pid == 0) {
				redirect(outs.back() + ".err");
				worker(m, shm, i, frontier, seen, outs.back(), opt);
			}
			pids.push_back(pid);
		}
		std::vector<std::uint64_t> last(static_cast<std::size_t>(opt.jobs), ~0ull);
		std::vector<double> since(static_cast<std::size_t>(opt.jobs), now());
		int alive{opt.jobs};
		std::vector<int> status(static_cast<std::size_t>(opt.jobs), -1);
		std::vector<int> failed;
		while(alive) {
			bool any{false};
			for(int i{0}; i < opt.jobs; ++i) {
				const auto u{static_cast<std::size_t>(i)};
				if(pids[u] == 0) continue;
				int st{0};
				if(::waitpid(pids[u], &st, WNOHANG) == pids[u]) {
					pids[u] = 0;
					--alive;
					any = true;
					status[u] = st;
					if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failed.push_back(i); shm->stop = 1; }
					continue;
				}
				const auto e{shm->slot[u].executions.load()};
				if(e != last[u]) { last[u] = e; since[u] = now(); }
				else if(now() - since[u] > opt.hang) { ::kill(pids[u], SIGKILL); since[u] = now(); }
			}
			if(!failed.empty() && alive) { //stop the others soon
				::usleep(20000);
				for(auto & p : pids) if(p) ::kill(p, SIGKILL);
			}
			if(!any) ::usleep(level == 0 ? 500 : 2000);
		}
		for(int i{0}; i < opt.jobs; ++i) {
			res.executions += shm->slot[i].executions.load();
			res.faults += shm->slot[i].faults.load();
		}
		if(!failed.empty()) {
			//first failing worker that was not killed because another one had failed
			for(auto i : failed) {
				const auto u{static_cast<std::size_t>(i)};
				auto & s{shm->slot[u]};
				auto h{frontier[s.state.load()]};
				h.emplace_back(s.trail, s.trail + std::min<std::uint32_t>(s.len.load(), 8192));
				const auto st{status[u]};
				if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
					//hang (or killed after another failure): decide alone, with a longer limit
					auto f{confirm(m, h, opt, 3 * opt.hang, true)};
					if(f.present) { res.failure = f; break; }
					continue;
				}
				auto f{confirm(m, h, opt, 3 * opt.hang, true)};
				if(f.present && f.kind != "diverged") {
					auto g{confirm(m, h, opt, 3 * opt.hang, true)};
					if(g.present && g.kind == f.kind && g.msg.substr(0, 40) == f.msg.substr(0, 40)) { res.failure = f; break; }
				}
				Failure x;
				x.present = true;
				x.kind = "unreproducible";
				x.tag = s.tag;
				x.msg = fmt("worker failed (status %d, %s) but the history did not fail when run alone", st, s.msg);
				x.history = h;
				x.log = detail::slurp(outs[u] + ".err");
				res.failure = x;
			}
			if(!res.failure.present && retries < 2) { //slow, but alive: explore this level again with more patience
				++retries;
				opt.hang *= 4;
				--level;
				for(auto & o : outs) { ::unlink(o.c_str()); ::unlink((o + ".err").c_str()); }
				continue;
			}
			if(!res.failure.present) res.cap = "a worker was killed repeatedly (machine too slow or out of memory)";
			res.complete = false;
			break;
		}
		std::vector<Found> found;
		for(auto & o : outs) {
			auto f{std::fopen(o.c_str(), "rb")};
			if(!f) { std::fprintf(stderr, "engine: missing worker output\n"); std::exit(5); }
			std::uint64_t capped, foreign, n;
			detail::get(f, capped);
			detail::get(f, foreign);
			if(capped) { res.complete = false; res.cap = "time budget"; }
			res.foreign += foreign;
			detail::get(f, n);
			for(std::uint64_t i{0}; i < n; ++i) { std::string l; std::uint64_t c; detail::get(f, l); detail::get(f, c); res.labels[l] += c; }
			detail::get(f, n);
			for(std::uint64_t i{0}; i < n; ++i) { std::uint64_t h; detail::get(f, h); edges.insert(h ^ (static_cast<std::uint64_t>(level) * 0x9e3779b97f4a7c15ull)); }
			detail::get(f, n);
			for(std::uint64_t i{0}; i < n; ++i) { Found x; detail::get(f, x.state); detail::get(f, x.steps); detail::get(f, x.key); found.push_back(std::move(x)); }
			std::fclose(f);
			::unlink(o.c_str());
			::unlink((o + ".err").c_str());
		}
		//deterministic choice of the representative history of every new state
		std::sort(found.begin(), found.end(), [](const Found & a, const Found & b) {
			if(a.steps.size() != b.steps.size()) return a.steps.size() < b.steps.size();
			if(a.state != b.state) return a.state < b.state;
			return a.steps < b.steps;
		});
		std::vector<History> next;
		for(auto & x : found) {
			if(m.dedupe && !seen.insert(x.key).second) continue;
			++res.states;
			auto h{frontier[x.state]};
			h.push_back(x.steps);
			next.push_back(std::move(h));
		}
		res.depth = level + 1;
		//samples: histories of this level, written out
		if(!next.empty() && res.samples.size() < 6)
			for(auto idx : {std::size_t{0}, next.size() / 2, next.size() - 1}) {
				if(res.samples.size() >= 6) break;
				auto f{confirm(m, next[idx], opt, 3 * opt.hang, false)};
				auto s{f.log};
				for(auto & c : s) if(c == '\n') c = ';';
				res.samples.push_back(s.substr(0, 700));
			}
		if(level + 1 == m.depth && m.dedupe && !next.empty()) { if(m.depth > 1) res.cap = fmt("depth bound %d (%zu states left unexpanded)", m.depth, next.size()); }
		frontier = std::move(next);
		if(!res.complete) break;
	}
	if(res.samples.empty() && !res.failure.present) { //flat model without successor states
		History h{Steps{}};
		auto f{confirm(m, h, opt, 3 * opt.hang, true)};
		auto s{f.log};
		for(auto & c : s) if(c == '\n') c = ';';
		res.samples.push_back(s.substr(0, 700));
	}
	res.transitions = edges.size();
	res.wall = now() - t0;
	::munmap(shm, sizeof(Shm));
	return res;
}
} // namespace mc
