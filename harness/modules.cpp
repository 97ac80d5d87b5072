// C27: objects handed between separately built modules (module.cpp, several compilers, options and
// versions of the library). This program knows no library type: it hands out raw storage, keeps every
// module's heap apart and compares what each module reads with std:: references.
#include "driver.hpp"
#include "module.hpp"
#include <optional>
#include <array>
#include <variant>

using mc::Chooser;
using mc::fmt;

#ifndef MODULES
#define MODULES 4
#endif
extern "C" {
const Module * module_table_0();
const Module * module_table_1();
const Module * module_table_2();
const Module * module_table_3();
}

namespace {
// ---------------------------------------------------------------- the modules' heaps
struct Block { char * p; std::size_t n; int module, kind; bool freed; char * mem; };
std::vector<Block> blocks;
long live_elements;
constexpr std::size_t zone{32};
const char * kinds[]{"operator new", "malloc", "aligned operator new"};
constexpr char tag[]{"modules"};

void * host_alloc(int module, std::size_t n, std::size_t align, int kind) noexcept {
	mc::Paused p;
	if(n > (std::size_t{1} << 20)) { mc::fail(tag, fmt("module %d asks for %zu bytes", module, n)); n = 1 << 20; }
	if(align < 16) align = 16;
	const auto mem{static_cast<char *>(__real_malloc(n + 2 * zone + align))};
	const auto at{(reinterpret_cast<std::uintptr_t>(mem) + zone + align - 1) / align * align};
	const auto r{reinterpret_cast<char *>(at)};
	std::memset(r - zone, 0xA5, zone);
	std::memset(r, 0xCD, n);
	std::memset(r + n, 0xA5, zone);
	blocks.push_back({r, n, module, kind, false, mem});
	return r;
}
void check_block(const Block & b) {
	for(std::size_t i{0}; i < zone; ++i)
		if(static_cast<unsigned char>(b.p[b.n + i]) != 0xA5 || static_cast<unsigned char>(*(b.p - 1 - i)) != 0xA5) { mc::fail(tag, fmt("memory around a buffer of %zu bytes made by module %d was overwritten", b.n, b.module)); return; }
	if(b.freed)
		for(std::size_t i{0}; i < b.n; ++i)
			if(static_cast<unsigned char>(b.p[i]) != 0xDD) { mc::fail(tag, fmt("a released buffer of %zu bytes made by module %d was written to", b.n, b.module)); return; }
}
void host_release(int module, void * q, int kind) noexcept {
	mc::Paused p;
	for(auto i{blocks.rbegin()}; i != blocks.rend(); ++i)
		if(i->p == q) {
			if(i->freed) { mc::fail(tag, fmt("a buffer made by module %d is released a second time by module %d", i->module, module)); return; }
			if(i->module != module) { mc::fail(tag, fmt("a buffer made by module %d is released by module %d", i->module, module)); }
			if(i->kind != kind) { mc::fail(tag, fmt("a buffer obtained by %s is released as if by %s", kinds[i->kind], kinds[kind])); }
			check_block(*i);
			std::memset(i->p, 0xDD, i->n);
			i->freed = true;
			return;
		}
	mc::fail(tag, fmt("module %d releases memory no module obtained", module));
}
void host_fail(int module, const char * what) noexcept { mc::fail(tag, fmt("module %d: %s", module, what)); }
void host_born(int) noexcept { ++live_elements; }
void host_died(int) noexcept { --live_elements; }
const Host host{host_alloc, host_release, host_fail, host_born, host_died};

const Module * modules[MODULES];
int count{MODULES};
struct Attach {
	Attach() {
		using F = const Module * (*)();
		const F f[]{module_table_0, module_table_1, module_table_2, module_table_3};
		for(int i{0}; i < MODULES; ++i) { modules[i] = f[i](); modules[i]->attach(&host, i); }
	}
} attach_;

const Block * block_at(const void * q) {
	for(auto & b : blocks) if(b.p == q && !b.freed) return &b;
	return nullptr;
}
//! structure reachable from an object: which module's buffers, of which size, are linked from where
void structure(const void * p, std::size_t n, std::string & k, int depth = 0) {
	for(std::size_t i{0}; i + 8 <= n; ++i) {
		const void * q;
		std::memcpy(&q, static_cast<const char *>(p) + i, 8);
		if(const auto b{block_at(q)}) {
			k += fmt("(%zu:%d/%zu", i, b->module, b->n);
			if(depth < 3) structure(b->p, b->n, k, depth + 1);
			k += ')';
			i += 7;
		}
	}
}

struct alignas(64) Raw {
	char b[192];
	Raw() { std::memset(b, 0xCD, sizeof b); }
};
std::string quote(const std::string & s) { return s.size() > 40 ? fmt("%zu characters", s.size()) : "\"" + s + "\""; }
std::string pattern(std::size_t n, int salt) {
	std::string s;
	for(std::size_t i{0}; i < n; ++i) s += static_cast<char>('a' + (i + static_cast<std::size_t>(salt)) % 26);
	if(n > 4) s[3] = 0;
	return s;
}
Args args(const std::string & s) { Args a{}; a.data = s.data(); a.n = s.size(); return a; }

struct Base : mc::World {
	Base() {
		for(auto & b : blocks) __real_free(b.mem);
		blocks.clear();
		live_elements = 0;
	}
	void finish(const char * what) {
		for(auto & b : blocks) {
			check_block(b);
			if(!b.freed) REQUIRE_(tag, b.freed, "a buffer of %zu bytes made by module %d is never released (%s)", b.n, b.module, what);
		}
		REQUIRE_(tag, live_elements == 0, "%ld element(s) alive at the end (%s)", live_elements, what);
		for(auto & b : blocks) __real_free(b.mem);
		blocks.clear();
	}
	static void check_blocks() { for(auto & b : blocks) check_block(b); }
};
int pick_module(Chooser & ch) { return ch.choose(count); }

// ---------------------------------------------------------------- strings
struct Strings : Base {
	Raw obj[2];
	std::string ref[2];
	Strings() { call(0, S_INIT, 0); call(1 % count, S_INIT, 1); }
	~Strings() override {
		call(1 % count, S_DESTROY, 0);
		call(0, S_DESTROY, 1);
		finish("strings");
	}
	Out call(int m, int op, int who, Args a = {}) {
		Out o{};
		modules[m]->string(op, obj[who].b, &a, &o);
		return o;
	}
	std::string text(const Out & o) const { return {o.text, std::min(o.n, sizeof o.text)}; }
	void step(Chooser & ch) override {
		const int m{pick_module(ch)};
		struct Choice { int op; std::size_t at, m, n; };
		static const std::size_t sizes[]{0, 3, 22, 23, 40};
		static const std::vector<Choice> choices{[] {
			std::vector<Choice> c{{S_INIT, 0, 0, 0}, {S_INIT_COPY, 0, 0, 0}, {S_INIT_MOVE, 0, 0, 0}, {S_ASSIGN_COPY, 0, 0, 0}, {S_ASSIGN_MOVE, 0, 0, 0}, {S_SWAP, 0, 0, 0}, {S_APPEND_OTHER, 0, 0, 0}, {S_SHRINK, 0, 0, 0}, {S_CLEAR, 0, 0, 0}, {S_PUSH, 0, 0, 0}, {S_POP, 0, 0, 0}, {S_ADD, 0, 0, 0}};
			for(auto n : sizes) { c.push_back({S_INIT_TEXT, 0, 0, n}); c.push_back({S_ASSIGN, 0, 0, n}); c.push_back({S_RESIZE, 0, n, 0}); }
			for(std::size_t n : {1, 20, 47}) { c.push_back({S_APPEND, 0, 0, n}); }
			for(std::size_t n : {1, 24}) for(std::size_t at : {0, 1, 2}) c.push_back({S_INSERT, at, 0, n}); // at: beginning, middle, end
			for(std::size_t at : {0, 1}) c.push_back({S_ERASE, at, 0, 0});
			for(std::size_t at : {0, 1}) for(std::size_t n : {1, 30}) c.push_back({S_REPLACE, at, 0, n});
			for(std::size_t n : {30, 49}) c.push_back({S_RESERVE, 0, n, 0});
			return c;
		}()};
		const auto c{ch.pick(choices)};
		const int who{c.op == S_SWAP ? 0 : ch.choose(2)};
		auto & r{ref[who]};
		auto & other{ref[1 - who]};
		Args a{};
		a.other = obj[1 - who].b;
		const auto t{pattern(c.n, 5)};
		a.data = t.data();
		a.n = t.size();
		static const char * names[]{"init", "init (text)", "init (copy)", "init (move)", "destroy", "assign", "copy", "move", "swap", "append", "append other", "insert", "erase", "replace", "resize", "reserve", "shrink_to_fit", "clear", "push_back", "pop_back", "operator+", "read"};
		if(c.op == S_POP && r.empty()) { ch.label("(skipped)"); return; }
		if(r.size() + c.n + (c.op == S_APPEND_OTHER || c.op == S_ADD ? other.size() : 0) > 110) { ch.label("(skipped)"); return; }
		ch.label(names[c.op]);
		NOTE("module %d: %s at %zu, %zu, %zu characters on string %d", m, names[c.op], c.at, c.m, c.n, who);
		bool moved{false};
		std::ptrdiff_t result{-1};
		const auto at{c.at == 0 ? 0 : c.at == 1 ? r.size() / 2 : r.size()};
		a.at = at;
		a.m = c.m;
		switch(c.op) {
			case S_INIT: case S_INIT_TEXT: case S_INIT_COPY: case S_INIT_MOVE: call(m, S_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof obj[who].b); break;
			case S_ERASE: a.m = r.size() - at > 1 ? (r.size() - at) / 2 + 1 : r.size() - at; break;
			case S_REPLACE: a.m = (r.size() - at) / 2; break;
			case S_RESIZE: a.value = 'r'; break;
			case S_PUSH: a.value = 'p'; break;
		}
		const auto o{call(m, c.op, who, a)};
		switch(c.op) {
			case S_INIT: r.clear(); break;
			case S_INIT_TEXT: case S_ASSIGN: r = t; break;
			case S_INIT_COPY: case S_ASSIGN_COPY: r = other; break;
			case S_INIT_MOVE: case S_ASSIGN_MOVE: r = other; moved = true; break;
			case S_SWAP: std::swap(r, other); break;
			case S_APPEND: r += t; break;
			case S_APPEND_OTHER: r += other; break;
			case S_INSERT: r.insert(at, t); result = static_cast<std::ptrdiff_t>(at); break;
			case S_ERASE: r.erase(at, a.m); result = static_cast<std::ptrdiff_t>(at); break;
			case S_REPLACE: r.replace(at, a.m, t); break;
			case S_RESIZE: r.resize(c.m, 'r'); break;
			case S_CLEAR: r.clear(); break;
			case S_PUSH: r += 'p'; break;
			case S_POP: r.pop_back(); break;
			case S_ADD: r += other; break;
		}
		if(result >= 0) REQUIRE_(tag, o.value == result, "%s returned position %lld, expected %td", names[c.op], o.value, result);
		if(moved) other = text(call(m, S_READ, 1 - who));
		check();
	}
	void check() {
		check_blocks();
		for(int who{0}; who < 2; ++who)
			for(int m{0}; m < count; ++m) {
				Args a{};
				a.other = obj[1 - who].b;
				const auto o{call(m, S_READ, who, a)};
				REQUIRE_(tag, text(o) == ref[who], "string %d: module %d (%s) reads %s, expected %s", who, m, modules[m]->name, quote(text(o)).c_str(), quote(ref[who]).c_str());
				REQUIRE_(tag, o.m >= ref[who].size(), "string %d: module %d (%s) reports capacity %zu for size %zu", who, m, modules[m]->name, o.m, ref[who].size());
				const auto c{ref[who].compare(ref[1 - who])};
				const auto want{(c == 0 ? 0 : c < 0 ? -1 : 1) * 4 + (c != 0) + 2 * (c > 0)};
				REQUIRE_(tag, o.value == want, "string %d: module %d (%s) compares them as %lld, expected %d", who, m, modules[m]->name, o.value, want);
			}
	}
	std::string key() override {
		std::string k;
		for(int who{0}; who < 2; ++who) { k += ref[who] + "|"; structure(obj[who].b, 32, k); k += ';'; }
		return k;
	}
};

// ---------------------------------------------------------------- vectors
struct Vectors : Base {
	int element;
	Raw obj[2];
	std::vector<int> ref[2];
	explicit Vectors(int e) : element{e} { call(0, V_INIT, 0); call(1 % count, V_INIT, 1); }
	~Vectors() override {
		call(1 % count, V_DESTROY, 0);
		call(0, V_DESTROY, 1);
		finish("vectors");
	}
	Out call(int m, int op, int who, Args a = {}) {
		Out o{};
		modules[m]->vector(element, op, obj[who].b, &a, &o);
		return o;
	}
	static std::vector<int> values(const Out & o) {
		std::vector<int> r(std::min<std::size_t>(o.n, 128));
		if(!r.empty()) std::memcpy(r.data(), o.text, 4 * r.size());
		return r;
	}
	void step(Chooser & ch) override {
		const int m{pick_module(ch)};
		struct Choice { int op; std::size_t at, n; };
		static const std::vector<Choice> choices{[] {
			std::vector<Choice> c{{V_INIT, 0, 0}, {V_INIT_COPY, 0, 0}, {V_INIT_MOVE, 0, 0}, {V_ASSIGN_COPY, 0, 0}, {V_ASSIGN_MOVE, 0, 0}, {V_SWAP, 0, 0}, {V_PUSH, 0, 0}, {V_SHRINK, 0, 0}, {V_CLEAR, 0, 0}, {V_POP, 0, 0}, {V_SET, 1, 0}};
			for(std::size_t n : {0, 3, 11}) { c.push_back({V_INIT_N, 0, n}); c.push_back({V_ASSIGN, 0, n}); c.push_back({V_RESIZE, 0, n}); }
			for(std::size_t at : {0, 1, 2}) { c.push_back({V_EMPLACE, at, 0}); for(std::size_t n : {2, 9}) c.push_back({V_INSERT, at, n}); }
			c.push_back({V_INSERT_N, 1, 2});
			c.push_back({V_INSERT_N, 0, 8});
			c.push_back({V_ERASE, 0, 0});
			c.push_back({V_ERASE, 1, 0});
			for(std::size_t n : {12, 20}) c.push_back({V_RESERVE, 0, n});
			return c;
		}()};
		const auto c{ch.pick(choices)};
		const int who{c.op == V_SWAP ? 0 : ch.choose(2)};
		auto & r{ref[who]};
		auto & other{ref[1 - who]};
		static const char * names[]{"init", "init (range)", "init (copy)", "init (move)", "destroy", "assign", "copy", "move", "swap", "push_back", "emplace", "insert", "insert n", "erase", "resize", "reserve", "shrink_to_fit", "clear", "pop_back", "write", "read"};
		if(((c.op == V_POP || c.op == V_SET || c.op == V_ERASE) && r.empty()) || r.size() + c.n > 40) { ch.label("(skipped)"); return; }
		ch.label(names[c.op]);
		std::vector<int> src;
		for(std::size_t i{0}; i < c.n; ++i) src.push_back(static_cast<int>(i * 37 + 11) % 200);
		Args a{};
		a.other = obj[1 - who].b;
		a.data = src.data();
		a.n = c.n;
		a.m = c.n;
		a.value = 99;
		const auto at{c.at == 0 ? 0 : c.at == 1 ? r.size() / 2 : r.size()};
		const auto pos{static_cast<std::ptrdiff_t>(at)};
		a.at = at;
		NOTE("module %d: %s at %zu, %zu elements on vector %d", m, names[c.op], at, c.n, who);
		if(c.op >= V_INIT && c.op <= V_INIT_MOVE) { call(m, V_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof obj[who].b); }
		if(c.op == V_ERASE) a.m = (r.size() - at) / 2 + 1;
		const auto o{call(m, c.op, who, a)};
		bool moved{false};
		std::ptrdiff_t result{-1};
		switch(c.op) {
			case V_INIT: case V_CLEAR: r.clear(); break;
			case V_INIT_N: case V_ASSIGN: r = src; break;
			case V_INIT_COPY: case V_ASSIGN_COPY: r = other; break;
			case V_INIT_MOVE: case V_ASSIGN_MOVE: r = other; moved = true; break;
			case V_SWAP: std::swap(r, other); break;
			case V_PUSH: r.push_back(99); break;
			case V_EMPLACE: r.insert(r.begin() + pos, 99); break;
			case V_INSERT: r.insert(r.begin() + pos, src.begin(), src.end()); result = pos; break;
			case V_INSERT_N: r.insert(r.begin() + pos, c.n, 99); break;
			case V_ERASE: r.erase(r.begin() + pos, r.begin() + pos + static_cast<std::ptrdiff_t>(a.m)); result = pos; break;
			case V_RESIZE: r.resize(c.n, 99); break;
			case V_POP: r.pop_back(); break;
			case V_SET: r[at] = 99; break;
		}
		if(result >= 0) REQUIRE_(tag, o.value == result, "%s returned position %lld, expected %td", names[c.op], o.value, result);
		if(moved) other = values(call(m, V_READ, 1 - who));
		check();
	}
	void check() {
		check_blocks();
		if(element == 1) REQUIRE_(tag, live_elements == static_cast<long>(ref[0].size() + ref[1].size()), "%ld elements are alive, expected %zu", live_elements, ref[0].size() + ref[1].size());
		for(int who{0}; who < 2; ++who)
			for(int m{0}; m < count; ++m) {
				Args a{};
				a.other = obj[1 - who].b;
				const auto o{call(m, V_READ, who, a)};
				REQUIRE_(tag, values(o) == ref[who] && o.n == ref[who].size(), "vector %d: module %d (%s) reads %zu other elements than the expected %zu", who, m, modules[m]->name, o.n, ref[who].size());
				REQUIRE_(tag, o.m >= ref[who].size(), "vector %d: module %d (%s) reports capacity %zu for size %zu", who, m, modules[m]->name, o.m, ref[who].size());
				const int want{ref[who] == ref[1 - who] ? 0 : ref[who] < ref[1 - who] ? -1 : 1};
				REQUIRE_(tag, o.value == want, "vector %d: module %d (%s) compares them as %lld, expected %d", who, m, modules[m]->name, o.value, want);
			}
	}
	std::string key() override {
		std::string k;
		for(int who{0}; who < 2; ++who) {
			for(auto v : ref[who]) k += std::to_string(v) + ",";
			structure(obj[who].b, 32, k);
			k += ';';
		}
		return k;
	}
};

// ---------------------------------------------------------------- sum types, products, bitset, nesting
const std::string texts[]{pattern(0, 0), pattern(7, 1), pattern(22, 2), pattern(35, 3)};

struct Mixed : Base {
	Raw obj[2];
	int size_index, destroy_op;
	explicit Mixed(int s, int init, int destroy) : size_index{s}, destroy_op{destroy} { call(0, init, 0); call(1 % count, init, 1); }
	~Mixed() override {
		call(1 % count, destroy_op, 0);
		call(0, destroy_op, 1);
		finish("object");
	}
	Out call(int m, int op, int who, Args a = {}) {
		Out o{};
		modules[m]->mixed(op, obj[who].b, &a, &o);
		return o;
	}
	std::size_t bytes() const { return modules[0]->size(size_index); }
	void sizes() const { for(int m{1}; m < count; ++m) REQUIRE_(tag, modules[m]->size(size_index) == bytes(), "modules disagree on the size of type %d", size_index); }
	std::string text(const Out & o) const { return {o.text, std::min(o.n, sizeof o.text)}; }
	void objects(std::string & k) { for(auto & o : obj) { structure(o.b, bytes(), k); k += ';'; } }
	Args with(const std::string & s, int who) { auto a{args(s)}; a.other = obj[1 - who].b; return a; }
};
#define READS(cond, ...) REQUIRE_(tag, cond, __VA_ARGS__)

struct Optionals : Mixed {
	std::optional<std::string> ref[2];
	Optionals() : Mixed{2, O_INIT, O_DESTROY} { sizes(); }
	std::optional<std::string> read(int m, int who) { const auto o{call(m, O_READ, who)}; if(!o.value) return {}; return text(o); }
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(5 + 2 * 4)}, who{ch.choose(2)};
		static const char * names[]{"reset", "copy", "move", "swap", "destroy and init"};
		ch.label(what < 5 ? names[what] : what < 9 ? "assign" : "emplace");
		auto a{with(what < 5 ? texts[0] : texts[static_cast<std::size_t>((what - 5) % 4)], who)};
		NOTE("module %d on optional %d: %d", m, who, what);
		switch(what) {
			case 0: call(m, O_RESET, who); ref[who].reset(); break;
			case 1: call(m, O_COPY, who, a); ref[who] = ref[1 - who]; break;
			case 2: call(m, O_MOVE, who, a); ref[who] = ref[1 - who]; ref[1 - who] = read(m, 1 - who); break;
			case 3: call(m, O_SWAP, who, a); std::swap(ref[0], ref[1]); break;
			case 4: call(m, O_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, O_INIT, who); ref[who].reset(); break;
			default: call(m, what < 9 ? O_ASSIGN : O_EMPLACE, who, a); ref[who] = texts[static_cast<std::size_t>((what - 5) % 4)];
		}
		check_blocks();
		for(int w{0}; w < 2; ++w) for(int k{0}; k < count; ++k) READS(read(k, w) == ref[w], "optional %d: module %d (%s) reads another value than expected", w, k, modules[k]->name);
	}
	std::string key() override { std::string k; for(auto & r : ref) k += r ? "=" + *r : "?"; objects(k); return k; }
};

struct Variants : Mixed {
	struct Ref {
		int index{0};
		char c{'-'};
		long long n{0};
		std::string s;
		std::vector<std::string> v;
		bool operator==(const Ref & o) const { return index == o.index && (index == 0 ? c == o.c : index == 1 ? n == o.n : index == 2 ? s == o.s : v == o.v); }
	} ref[2];
	Variants() : Mixed{3, R_INIT, R_DESTROY} { sizes(); }
	Ref read(int m, int who) {
		const auto o{call(m, R_READ, who)};
		Ref r;
		r.index = static_cast<int>(o.value);
		if(r.index == 0) r.c = static_cast<char>(o.n);
		else if(r.index == 1) r.n = static_cast<long long>(o.n);
		else if(r.index == 2) r.s = text(o);
		else r.v.assign(o.m, text(o)); // all elements are equal in this model
		return r;
	}
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(6 + 4 + 3)}, who{ch.choose(2)};
		static const char * names[]{"char", "long long", "copy", "move", "swap", "destroy and init"};
		ch.label(what < 6 ? names[what] : what < 10 ? "string" : "vector<string>");
		auto & t{what < 6 ? texts[0] : texts[static_cast<std::size_t>(what - 6) % 4]};
		auto a{with(t, who)};
		NOTE("module %d on variant %d: %d", m, who, what);
		auto & r{ref[who]};
		switch(what) {
			case 0: a.value = 'c'; call(m, R_CHAR, who, a); r = {}; r.c = 'c'; break;
			case 1: a.value = -3; call(m, R_INT64, who, a); r = {}; r.index = 1; r.n = -3ll * 1000000007; break;
			case 2: call(m, R_COPY, who, a); r = ref[1 - who]; break;
			case 3: call(m, R_MOVE, who, a); r = ref[1 - who]; ref[1 - who] = read(m, 1 - who); break;
			case 4: call(m, R_SWAP, who, a); std::swap(ref[0], ref[1]); break;
			case 5: call(m, R_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, R_INIT, who); r = {}; break;
			case 10: case 11: case 12: {
				const std::size_t n{what == 10 ? std::size_t{1} : what == 11 ? std::size_t{3} : std::size_t{12}};
				a.m = n;
				call(m, R_VECTOR, who, a);
				r = {};
				r.index = 3;
				r.v.assign(n, t);
				break;
			}
			default: call(m, R_STRING, who, a); r = {}; r.index = 2; r.s = t;
		}
		check_blocks();
		for(int w{0}; w < 2; ++w) for(int k{0}; k < count; ++k) READS(read(k, w) == ref[w], "variant %d: module %d (%s) reads another value than expected", w, k, modules[k]->name);
	}
	std::string key() override {
		std::string k;
		for(auto & r : ref) k += fmt("%d:%d:%lld:%zu:", r.index, r.index ? 0 : r.c, r.index == 1 ? r.n : 0, r.v.size()) + (r.index == 2 ? r.s : r.index == 3 && !r.v.empty() ? r.v[0] : "");
		objects(k);
		return k;
	}
};

struct Tuples : Mixed {
	struct Ref { char c{'-'}; std::string s; short n{0}; bool operator==(const Ref & o) const { return c == o.c && s == o.s && n == o.n; } } ref[2];
	Tuples() : Mixed{4, T_INIT, T_DESTROY} { sizes(); }
	static Ref decode(const Out & o) { // c * 100000 + n
		Ref r;
		r.s.assign(o.text, std::min(o.n, sizeof o.text));
		auto c{o.value / 100000};
		auto n{o.value - c * 100000};
		if(n > 50000) { ++c; n -= 100000; }
		if(n < -50000) { --c; n += 100000; }
		r.c = static_cast<char>(c);
		r.n = static_cast<short>(n);
		return r;
	}
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(6 + 4)}, who{ch.choose(2)};
		static const char * names[]{"first member", "first member (negative)", "copy", "move", "swap", "destroy and init"};
		ch.label(what < 6 ? names[what] : "other members");
		auto & t{what < 6 ? texts[0] : texts[static_cast<std::size_t>(what - 6)]};
		auto a{with(t, who)};
		NOTE("module %d on tuple %d: %d", m, who, what);
		auto & r{ref[who]};
		switch(what) {
			case 0: a.value = 'c'; call(m, T_SET_CHAR, who, a); r.c = 'c'; break;
			case 1: a.value = -2; call(m, T_SET_CHAR, who, a); r.c = -2; break;
			case 2: call(m, T_COPY, who, a); r = ref[1 - who]; break;
			case 3: call(m, T_MOVE, who, a); r = ref[1 - who]; ref[1 - who] = decode(call(m, T_READ, 1 - who)); break;
			case 4: call(m, T_SWAP, who, a); std::swap(ref[0], ref[1]); break;
			case 5: call(m, T_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, T_INIT, who); r = {}; break;
			default: a.value = what - 8; call(m, T_SET, who, a); r.s = t; r.n = static_cast<short>((what - 8) * 257);
		}
		check_blocks();
		for(int w{0}; w < 2; ++w) for(int k{0}; k < count; ++k) READS(decode(call(k, T_READ, w)) == ref[w], "tuple %d: module %d (%s) reads another value than expected", w, k, modules[k]->name);
	}
	std::string key() override { std::string k; for(auto & r : ref) k += fmt("%d:%d:", r.c, r.n) + r.s + "|"; objects(k); return k; }
};

struct Arrays : Mixed {
	std::array<std::string, 2> ref[2];
	Arrays() : Mixed{5, A_INIT, A_DESTROY} { sizes(); }
	std::array<std::string, 2> read(int m, int who) { const auto o{call(m, A_READ, who)}; return {std::string(o.text, std::min<std::size_t>(o.n, 200)), std::string(o.text + std::min<std::size_t>(o.n, 200), std::min<std::size_t>(o.m, 200))}; }
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(4 + 8)}, who{ch.choose(2)};
		static const char * names[]{"copy", "move", "swap", "destroy and init"};
		ch.label(what < 4 ? names[what] : "element");
		auto & t{what < 4 ? texts[0] : texts[static_cast<std::size_t>(what - 4) / 2]};
		auto a{with(t, who)};
		NOTE("module %d on array %d: %d", m, who, what);
		auto & r{ref[who]};
		switch(what) {
			case 0: call(m, A_COPY, who, a); r = ref[1 - who]; break;
			case 1: call(m, A_MOVE, who, a); r = ref[1 - who]; ref[1 - who] = read(m, 1 - who); break;
			case 2: call(m, A_SWAP, who, a); std::swap(ref[0], ref[1]); break;
			case 3: call(m, A_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, A_INIT, who); r = {}; break;
			default: a.at = static_cast<std::size_t>(what) % 2; call(m, A_SET, who, a); r[a.at] = t;
		}
		check_blocks();
		for(int w{0}; w < 2; ++w) for(int k{0}; k < count; ++k) READS(read(k, w) == ref[w], "array %d: module %d (%s) reads another value than expected", w, k, modules[k]->name);
	}
	std::string key() override { std::string k; for(auto & r : ref) k += r[0] + "|" + r[1] + "|"; objects(k); return k; }
};

struct Bitsets : Mixed {
	static constexpr unsigned long long all{(1ull << 37) - 1};
	unsigned long long ref[2]{0, 0};
	Bitsets() : Mixed{6, B_INIT, B_DESTROY} { sizes(); }
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(21)}, who{ch.choose(2)};
		static const char * names[]{"and", "xor", "not", "copy", "destroy and init", "flip"};
		static const std::size_t positions[]{0, 7, 8, 36, 17}, shifts[]{1, 8, 19, 36, 40};
		ch.label(what < 6 ? names[what] : what < 11 ? "set" : what < 16 ? "<<=" : ">>=");
		auto a{with(texts[0], who)};
		NOTE("module %d on bitset %d: %d", m, who, what);
		auto & r{ref[who]};
		switch(what) {
			case 0: call(m, B_AND, who, a); r &= ref[1 - who]; break;
			case 1: call(m, B_XOR, who, a); r ^= ref[1 - who]; break;
			case 2: call(m, B_NOT, who, a); r = ~r & all; break;
			case 3: call(m, B_COPY, who, a); r = ref[1 - who]; break;
			case 4: call(m, B_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, B_INIT, who); r = 0; break;
			case 5: a.at = 99; call(m, B_FLIP, who, a); r = ~r & all; break;
			default:
				if(what < 11) { a.at = positions[what - 6]; a.value = what % 3 != 0; call(m, B_SET, who, a); r = (r & ~(1ull << a.at)) | (static_cast<unsigned long long>(a.value) << a.at); }
				else if(what < 16) { a.m = shifts[what - 11]; call(m, B_SHIFT_L, who, a); r = (r << a.m) & all; }
				else { a.m = shifts[what - 16]; call(m, B_SHIFT_R, who, a); r >>= a.m; }
		}
		for(int w{0}; w < 2; ++w)
			for(int k{0}; k < count; ++k) {
				const auto o{call(k, B_READ, w, with(texts[0], w))};
				const auto want{(ref[w] != 0) + 2u * (ref[w] == all) + 4u * (ref[w] == 0) + 8u * (ref[0] == ref[1])};
				READS(static_cast<unsigned long long>(o.value) == ref[w] && o.n == static_cast<std::size_t>(__builtin_popcountll(ref[w])) && o.m == want, "bitset %d: module %d (%s) reads %llx (%zu bits set, %zu), expected %llx", w, k, modules[k]->name, static_cast<unsigned long long>(o.value), o.n, o.m, ref[w]);
			}
	}
	std::string key() override { return fmt("%llx %llx", ref[0], ref[1]); }
};

struct Nested : Mixed {
	using Ref = std::vector<std::optional<std::string>>;
	Ref ref[2];
	Nested() : Mixed{7, N_INIT, N_DESTROY} { sizes(); }
	static std::string encode(const Ref & r) { std::string s; for(auto & e : r) { if(!e) s += '?'; else s += "=" + *e; } return s; }
	std::string read(int m, int who, std::size_t & n) { const auto o{call(m, N_READ, who)}; n = o.m; return text(o); }
	void step(Chooser & ch) override {
		const int m{pick_module(ch)}, what{ch.choose(7 + 8)}, who{ch.choose(2)};
		static const char * names[]{"push empty", "pop", "erase", "copy", "move", "swap", "destroy and init"};
		auto & r{ref[who]};
		if(((what == 1 || what == 2 || what >= 11) && r.empty()) || (r.size() == 12 && (what == 0 || (what >= 7 && what < 11)))) { ch.label("(skipped)"); return; }
		ch.label(what < 7 ? names[what] : what < 11 ? "push string" : "assign last");
		auto & t{what < 7 ? texts[0] : texts[static_cast<std::size_t>(what - 7) % 4]};
		auto a{with(t, who)};
		NOTE("module %d on vector<optional<string>> %d: %d", m, who, what);
		switch(what) {
			case 0: call(m, N_PUSH, who, a); r.emplace_back(); break;
			case 1: call(m, N_POP, who, a); r.pop_back(); break;
			case 2: call(m, N_ERASE, who, a); r.erase(r.begin()); break;
			case 3: call(m, N_COPY, who, a); r = ref[1 - who]; break;
			case 4: {
				call(m, N_MOVE, who, a);
				r = ref[1 - who];
				std::size_t n;
				read(m, 1 - who, n);
				READS(n == 0 || n == r.size(), "a moved-from vector has %zu elements", n);
				ref[1 - who].resize(n);
				break;
			}
			case 5: call(m, N_SWAP, who, a); std::swap(ref[0], ref[1]); break;
			case 6: call(m, N_DESTROY, who); std::memset(obj[who].b, 0xCD, sizeof(Raw)); call((m + 1) % count, N_INIT, who); r.clear(); break;
			default:
				if(what < 11) { call(m, N_PUSH_TEXT, who, a); r.emplace_back(t); }
				else { a.at = r.size() - 1; call(m, N_TEXT, who, a); r.back() = t; }
		}
		check_blocks();
		for(int w{0}; w < 2; ++w) for(int k{0}; k < count; ++k) { std::size_t n; const auto s{read(k, w, n)}; READS(s == encode(ref[w]) && n == ref[w].size(), "vector<optional<string>> %d: module %d (%s) reads another value than expected", w, k, modules[k]->name); }
	}
	std::string key() override { std::string k; for(auto & r : ref) k += encode(r) + "|"; objects(k); return k; }
};

// ---------------------------------------------------------------- references
struct Refs : Base {
	void step(Chooser & ch) override {
		const int owner{pick_module(ch)}, maker{pick_module(ch)}, copier{ch.choose(count + 1)}, user{pick_module(ch)}, kind{ch.choose(9)}, length{ch.choose(4)};
		static const char * names[]{"string_ref", "array_ref", "array_ref write", "optional_ref", "empty optional_ref", "variant_ref (int)", "variant_ref (string)", "function_ref (object)", "function_ref (function)"};
		ch.label(names[kind]);
		NOTE("object of module %d, reference made by module %d, copied by %d, used by %d", owner, maker, copier, user);
		Raw s, v, ref, copy;
		const auto & t{texts[length]};
		std::vector<int> src;
		for(int i{0}; i < length * 4; ++i) src.push_back(i * 13);
		int number{4711};
		Args a{args(t)};
		Out o{};
		modules[owner]->string(S_INIT_TEXT, s.b, &a, &o);
		Args b{};
		b.data = src.data();
		b.n = src.size();
		modules[owner]->vector(0, V_INIT_N, v.b, &b, &o);
		Out data{}, elements{};
		Args none{};
		modules[owner]->string(S_READ, s.b, &none, &data);
		modules[owner]->vector(0, V_READ, v.b, &none, &elements);
		static const int make[]{X_STRING_REF, X_ARRAY_REF, X_ARRAY_REF, X_OPTIONAL_REF, X_OPTIONAL_REF_EMPTY, X_VARIANT_REF_INT, X_VARIANT_REF_STRING, X_FUNCTION_REF, X_FUNCTION_REF_FUNCTION};
		static const int family[]{0, 1, 1, 2, 2, 3, 3, 4, 4};
		Args m{};
		m.other = kind == 1 || kind == 2 ? static_cast<void *>(v.b) : kind == 5 ? static_cast<void *>(&number) : static_cast<void *>(s.b);
		modules[maker]->ref(make[kind], ref.b, &m, &o);
		void * used{ref.b};
		if(copier < count) {
			Args c{};
			c.value = family[kind];
			c.other = ref.b;
			modules[copier]->ref(X_COPY, copy.b, &c, &o);
			std::memset(ref.b, 0xCD, sizeof ref.b); // the copy does not depend on its source
			used = copy.b;
		}
		Args u{};
		Out r{};
		u.value = 5;
		switch(kind) {
			case 0: modules[user]->ref(X_STRING_REF_READ, used, &u, &r); READS(std::string(r.text, std::min(r.n, sizeof r.text)) == t && (t.empty() || r.p == data.p), "string_ref denotes other characters in another module"); break;
			case 1: modules[user]->ref(X_ARRAY_REF_READ, used, &u, &r); READS(Vectors::values(r) == src && r.n == src.size() && r.p == elements.p, "array_ref denotes other elements in another module"); break;
			case 2:
				if(src.empty()) break;
				u.at = src.size() / 2;
				modules[user]->ref(X_ARRAY_REF_WRITE, used, &u, &r);
				src[u.at] = 5;
				modules[owner]->vector(0, V_READ, v.b, &none, &elements);
				READS(Vectors::values(elements) == src, "a write through array_ref did not reach the element");
				break;
			case 3: modules[user]->ref(X_OPTIONAL_REF_READ, used, &u, &r); READS(r.value == 1 && r.p == s.b && std::string(r.text, r.n) == t, "optional_ref refers to another object in another module"); break;
			case 4: modules[user]->ref(X_OPTIONAL_REF_READ, used, &u, &r); READS(r.value == 0, "empty optional_ref is not empty in another module"); break;
			case 5: modules[user]->ref(X_VARIANT_REF_READ, used, &u, &r); READS(r.value == 0 && r.p == &number && r.n == sizeof(int), "variant_ref refers to another object in another module"); break;
			case 6: modules[user]->ref(X_VARIANT_REF_READ, used, &u, &r); READS(r.value == 1 && r.p == s.b && r.n == 32, "variant_ref refers to another object in another module"); break;
			case 7: modules[user]->ref(X_FUNCTION_REF_CALL, used, &u, &r); READS(r.value == 5 + 1000 * (maker + 1), "function_ref called something else in another module (%lld)", r.value); break;
			case 8: modules[user]->ref(X_FUNCTION_REF_CALL, used, &u, &r); READS(r.value == 35, "function_ref called something else in another module (%lld)", r.value); break;
		}
		modules[user]->string(S_DESTROY, s.b, &none, &o);
		modules[user]->vector(0, V_DESTROY, v.b, &none, &o);
		finish("references");
	}
	std::string key() override { return ""; }
};
}

mc::Plan plan(const std::string & prop, bool thorough) {
	mc::Plan p;
	p.mask = {tag};
	if(prop != "C27") return p;
	count = MODULES;
	const auto add{[&](const char * name, auto make, int depth) {
		mc::Model m;
		m.name = name;
		m.make = make;
		m.depth = depth;
		p.models.push_back(m);
	}};
	add("references between modules", [] { return new Refs; }, 1);
	add("strings between modules", [] { return new Strings; }, thorough ? 4 : 3);
	add("vectors of int between modules", [] { return new Vectors{0}; }, thorough ? 4 : 3);
	add("vectors of elements with lifetime between modules", [] { return new Vectors{1}; }, thorough ? 4 : 3);
	add("vectors of bytes between modules", [] { return new Vectors{2}; }, thorough ? 4 : 3);
	add("optionals between modules", [] { return new Optionals; }, thorough ? 8 : 5);
	add("variants between modules", [] { return new Variants; }, thorough ? 6 : 4);
	add("tuples between modules", [] { return new Tuples; }, thorough ? 6 : 4);
	add("arrays between modules", [] { return new Arrays; }, thorough ? 6 : 4);
	add("bitsets between modules", [] { return new Bitsets; }, thorough ? 8 : 5);
	add("vectors of optional strings between modules", [] { return new Nested; }, thorough ? 5 : 4);
	return p;
}
