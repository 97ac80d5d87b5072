// C31: every operation on const objects in every reached state, while the objects, the memory they own and
// the library's own static data are write-protected. The library lives in a module (reader.cpp).
#include "driver.hpp"
#include "reader.hpp"
#include <link.h>

using mc::Chooser;
using mc::fmt;

namespace {
constexpr char tag[]{"const"}, apart[]{"apart"};
constexpr std::size_t page{4096}, object_bytes{4 * page}, arena_bytes{256 * page}, region_bytes{object_bytes + arena_bytes};
constexpr int regions{4};        // each: an object, then the buffers it owns
char * memory{nullptr};
std::size_t used[regions];
int current{0};                  // the region of the object being changed
bool building{true};             // false: nothing in the regions may change
const char * type_name{""}, * op_name{""}, * failing{tag};
char * data_begin{nullptr}, * data_end{nullptr}; // the module's static data

char * region(int i) { return memory + static_cast<std::size_t>(i) * region_bytes; }
int region_of(const void * p) { return p >= memory && p < region(regions) ? static_cast<int>(static_cast<std::size_t>(static_cast<const char *>(p) - memory) / region_bytes) : -1; }
void * host_alloc(std::size_t n, std::size_t align, int) noexcept {
	mc::Paused p;
	if(!building) return align > 16 ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
	auto & u{used[current]};
	u = (u + align - 1) / align * align;
	if(u + n > arena_bytes) { mc::fail(failing, fmt("%s: '%s' owns more memory than expected", type_name, op_name)); }
	const auto r{region(current) + object_bytes + u};
	std::memset(r, 0xCD, n);
	u += n ? n : 1;
	return r;
}
void host_release(void * q, int) noexcept {
	mc::Paused p;
	const auto r{region_of(q)};
	if(r < 0) { __real_free(q); return; }
	if(!building) mc::fail(failing, fmt("%s: '%s' released memory owned by a const object", type_name, op_name));
	if(r != current) mc::fail(failing, fmt("%s: '%s' released memory owned by another object", type_name, op_name));
}
const ReaderHost host{host_alloc, host_release};

void protect(int i, int how) { if(mprotect(region(i), region_bytes, how)) std::abort(); }
void protect_data(bool on) { if(data_begin != data_end && mprotect(data_begin, static_cast<std::size_t>(data_end - data_begin), on ? PROT_READ : PROT_READ | PROT_WRITE)) std::abort(); }

void on_fault(int sig, siginfo_t * info, void *) {
	const auto p{static_cast<char *>(info->si_addr)};
	const auto r{region_of(p)};
	if(p >= data_begin && p < data_end) mc::fail(failing, fmt("%s: '%s' writes to static data of the library", type_name, op_name));
	else if(r >= 0) {
		const auto what{p < region(r) + object_bytes ? "" : "a buffer of "};
		if(building) mc::fail(failing, fmt("%s: '%s' on object %d accesses %sobject %d", type_name, op_name, current, what, r));
		else mc::fail(failing, fmt("%s: '%s' writes to %sobject %d, which is const", type_name, op_name, what, r));
	}
	std::signal(sig, SIG_DFL);
}
int find_data(dl_phdr_info * info, std::size_t, void * module) {
	bool ours{false};
	for(int i{0}; i < info->dlpi_phnum; ++i) {
		const auto & h{info->dlpi_phdr[i]};
		const auto at{reinterpret_cast<char *>(info->dlpi_addr + h.p_vaddr)};
		if(h.p_type == PT_LOAD && module >= at && module < at + h.p_memsz) ours = true;
	}
	if(!ours) return 0;
	char * relro{nullptr};
	for(int i{0}; i < info->dlpi_phnum; ++i) {
		const auto & h{info->dlpi_phdr[i]};
		if(h.p_type == PT_GNU_RELRO) relro = reinterpret_cast<char *>((info->dlpi_addr + h.p_vaddr + h.p_memsz) / page * page);
	}
	for(int i{0}; i < info->dlpi_phnum; ++i) {
		const auto & h{info->dlpi_phdr[i]};
		if(h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
		data_begin = reinterpret_cast<char *>((info->dlpi_addr + h.p_vaddr) / page * page);
		data_end = reinterpret_cast<char *>((info->dlpi_addr + h.p_vaddr + h.p_memsz + page - 1) / page * page);
		if(relro && relro > data_begin) data_begin = relro;
	}
	return 1;
}
const ReaderModule * module{nullptr};
struct Attach {
	Attach() {
		module = reader_module();
		module->attach(&host);
		if(sysconf(_SC_PAGESIZE) != static_cast<long>(page)) std::abort();
		memory = static_cast<char *>(mmap(nullptr, regions * region_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if(memory == MAP_FAILED) std::abort();
		dl_iterate_phdr(find_data, const_cast<ReaderModule *>(module));
		struct sigaction a{};
		a.sa_sigaction = on_fault;
		a.sa_flags = SA_SIGINFO | SA_NODEFER;
		sigaction(SIGSEGV, &a, nullptr);
	}
} attach_;

void clear() {
	building = true;
	for(int i{0}; i < regions; ++i) {
		used[i] = 0;
		protect(i, PROT_READ | PROT_WRITE);
		std::memset(region(i), 0xCD, object_bytes);
	}
}
struct World : mc::World {
	const ReaderType & t;
	explicit World(const ReaderType & t) : t{t} {
		clear();
		type_name = t.name;
		failing = tag;
		for(current = 0; current < 2; ++current) t.init(region(current));
	}
	~World() override { building = true; for(current = 0; current < 2; ++current) t.destroy(region(current)); }
	void read() {
		const void * const a{region(0)}, * const b{region(1)};
		building = false;
		for(int i{0}; i < 2; ++i) protect(i, PROT_READ);
		for(int i{0}; i < t.op_count; ++i) {
			const auto & op{t.ops[i]};
			op_name = op.name;
			NOTE("  reading: %s", op.name);
			//function-local statics may be set up once
			const auto first{op.run(a, b)};
			const auto other{op.run(b, a)};
			protect_data(true);
			const auto again{op.run(a, b)};
			const auto again_other{op.run(b, a)};
			protect_data(false);
			REQUIRE_(tag, first == again && other == again_other, "%s: '%s' sees something else the second time", t.name, op.name);
		}
		for(int i{0}; i < 2; ++i) protect(i, PROT_READ | PROT_WRITE);
		building = true;
	}
	void step(Chooser & ch) override {
		const auto k{ch.choose(1 + 2 * t.mutator_count)};
		if(!k) ch.label("initial");
		else {
			const auto & m{t.mutators[(k - 1) / 2]};
			ch.label(m.name);
			NOTE("object %d", (k - 1) % 2);
			current = (k - 1) % 2;
			op_name = m.name;
			m.run(region(current));
		}
		if(ch.fresh()) read();
	}
	std::string key() override { return fmt("%llx %llx", static_cast<unsigned long long>(t.state(region(0))), static_cast<unsigned long long>(t.state(region(1)))); }
};
// Operations on distinct objects: while one works, everything belonging to the other is inaccessible and the
// library's static data is write-protected. So the operations of two threads on different objects commute.
// Each step is first made on a mirror pair (2, 3) so that function-local statics may be set up once.
struct Distinct : mc::World {
	const ReaderType & t;
	explicit Distinct(const ReaderType & t) : t{t} {
		clear();
		type_name = t.name;
		failing = apart;
		for(current = 0; current < 4; ++current) t.init(region(current));
	}
	~Distinct() override {
		op_name = "destruction";
		building = true;
		for(current = 2; current < 4; ++current) t.destroy(region(current));
		for(current = 0; current < 2; ++current) alone(PROT_NONE, [&] { t.destroy(region(current)); });
	}
	template<typename F> void alone(int other, F f) {
		const auto me{current};
		for(int i{0}; i < regions; ++i) if(i != me) protect(i, i == 1 - me ? other : PROT_NONE);
		protect_data(true);
		f();
		protect_data(false);
		for(int i{0}; i < regions; ++i) if(i != me) protect(i, PROT_READ | PROT_WRITE);
	}
	void step(Chooser & ch) override {
		const auto who{ch.choose(2)}, k{ch.choose(t.mutator_count + t.op_count + 1)};
		op_name = k < t.mutator_count ? t.mutators[k].name : k == t.mutator_count ? "copy-assign" : t.ops[k - t.mutator_count - 1].name;
		ch.label(op_name);
		NOTE("object %d", who);
		building = true;
		const auto other{t.state(region(1 - who))};
		std::uint64_t seen[2]{};
		const auto go{[&](int self, int source, std::uint64_t & r) {
			if(k < t.mutator_count) t.mutators[k].run(region(self));
			else if(k == t.mutator_count) t.copy(region(self), region(source));
			else r = t.ops[k - t.mutator_count - 1].run(region(self), region(self));
		}};
		const bool reads{k > t.mutator_count};
		building = !reads; //temporaries of observers are not part of the objects
		current = 2 + who;
		go(2 + who, 3 - who, seen[0]);
		current = who;
		alone(k == t.mutator_count ? PROT_READ : PROT_NONE, [&] { go(who, 1 - who, seen[1]); });
		building = true;
		REQUIRE_(apart, seen[0] == seen[1], "%s: '%s' sees something else for an equal object", t.name, op_name);
		REQUIRE_(apart, t.state(region(who)) == t.state(region(2 + who)), "%s: '%s' acts differently on equal objects", t.name, op_name);
		REQUIRE_(apart, t.state(region(1 - who)) == other, "%s: '%s' changed another object", t.name, op_name);
	}
	std::string key() override { return fmt("%llx %llx", static_cast<unsigned long long>(t.state(region(0))), static_cast<unsigned long long>(t.state(region(1)))); }
};
}

mc::Plan plan(const std::string & prop, bool thorough) {
	mc::Plan p;
	if(prop == "C34") {
		p.mask = {apart};
		for(int i{0}; i < module->type_count; ++i) {
			const auto & t{module->types[i]};
			mc::Model m;
			m.name = fmt("two %s: %d operations", t.name, t.op_count + t.mutator_count + 1);
			m.make = [&t] { return new Distinct{t}; };
			m.depth = thorough ? 6 : 4;
			p.models.push_back(m);
		}
		return p;
	}
	p.mask = {tag};
	for(int i{0}; i < module->type_count; ++i) {
		const auto & t{module->types[i]};
		mc::Model m;
		m.name = fmt("%s: %d const operations", t.name, t.op_count);
		m.make = [&t] { return new World{t}; };
		m.depth = thorough ? 8 : 5;
		p.models.push_back(m);
	}
	return p;
}
