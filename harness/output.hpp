// Text output compared with that of a reference object, over all formats, prior states and failing buffers
#pragma once
#include "common.hpp"
#include <ostream>
#include <streambuf>
#include <string>

namespace mc {
struct Sink : std::streambuf { //accepts a limited number of characters
	std::string text;
	std::size_t limit;
	explicit Sink(std::size_t limit) : limit{limit} {}
	int overflow(int c) override {
		if(c == EOF || text.size() >= limit) return EOF;
		text += static_cast<char>(c);
		return static_cast<unsigned char>(c);
	}
};
struct Format { std::size_t width; int adjust, state, mask; std::size_t limit; };
template<typename T>
struct Written {
	Sink sink;
	std::ostream os;
	bool threw{false}, same{true};
	Written(const Format & f, const T & t) : sink{f.limit}, os{&sink} {
		if(f.adjust) os.setf(f.adjust == 1 ? std::ios::left : f.adjust == 2 ? std::ios::right : std::ios::internal, std::ios::adjustfield);
		os.fill(f.adjust == 2 ? ' ' : '*');
		os.width(static_cast<std::streamsize>(f.width));
		os.setstate(f.state == 1 ? std::ios::eofbit : f.state == 2 ? std::ios::failbit : f.state == 3 ? std::ios::badbit : std::ios::goodbit);
		try {
			os.exceptions(f.mask == 1 ? std::ios::failbit | std::ios::badbit : f.mask == 2 ? std::ios::badbit : std::ios::goodbit);
			same = &(os << t) == &os;
			os << '|' << t;
		} catch(const std::ios_base::failure &) { threw = true; }
	}
};
template<typename T, typename R>
void same_output(const char * tag, const T & t, const R & reference, std::size_t n) {
	Paused p;
	const auto compare{[&](const Format & f) {
		const Written<T> a{f, t};
		const Written<R> b{f, reference};
		const auto how{fmt("width %zu, alignment %d, prior state %d, exceptions %d, room for %zu", f.width, f.adjust, f.state, f.mask, f.limit)};
		REQUIRE_(tag, a.same, "insertion into a stream returned another stream");
		REQUIRE_(tag, a.sink.text == b.sink.text, "wrote \"%s\" instead of \"%s\" (%s)", a.sink.text.c_str(), b.sink.text.c_str(), how.c_str());
		REQUIRE_(tag, a.os.rdstate() == b.os.rdstate() && a.threw == b.threw, "output left the stream in state %d (threw %d), expected %d (%d) (%s)", static_cast<int>(a.os.rdstate()), a.threw, static_cast<int>(b.os.rdstate()), b.threw, how.c_str());
		REQUIRE_(tag, a.os.width() == b.os.width() && a.os.fill() == b.os.fill() && a.os.flags() == b.os.flags(), "output left width %d, expected %d (%s)", static_cast<int>(a.os.width()), static_cast<int>(b.os.width()), how.c_str());
	}};
	const std::size_t all{static_cast<std::size_t>(-1)};
	for(std::size_t width : {std::size_t{0}, std::size_t{1}, n ? n - 1 : n, n, n + 1, n + 6})
		for(int adjust{0}; adjust < 4; ++adjust) compare({width, adjust, 0, 0, all});
	for(int state{0}; state < 4; ++state)
		for(int mask{0}; mask < 3; ++mask)
			for(std::size_t limit : {all, std::size_t{0}, n / 2, n, n + 1, n + 3}) compare({state % 2 ? n + 2 : 0, 0, state, mask, limit});
}
}
