// The frozen binary representation (x86-64), read from and written as raw bytes.
#pragma once
#include "common.hpp"

namespace layout {
using u64 = std::uint64_t;
inline u64 word(const void * p, std::size_t at) { u64 r; std::memcpy(&r, static_cast<const char *>(p) + at, 8); return r; }
inline unsigned char byte(const void * p, std::size_t at) { return static_cast<const unsigned char *>(p)[at]; }

//! string: release function (null: inline) @0; inline: size @8, characters @9 (22 + terminator); heap: characters @8, capacity @16, size @24
inline void string(const void * obj, std::size_t sizeof_, std::size_t alignof_, const void * data, std::size_t cap, const char * chars, std::size_t size, const char * who) {
	REQUIRE_("layout", sizeof_ == 32 && alignof_ == 8, "string has %zu bytes aligned at %zu", sizeof_, alignof_);
	const auto o{static_cast<const char *>(obj)};
	if(word(o, 0) == 0) {
		REQUIRE_("layout", byte(o, 8) == size, "%s: inline size byte is %d, expected %zu", who, byte(o, 8), size);
		REQUIRE_("layout", data == o + 9 && cap == 22, "%s: inline text at offset %td with capacity %zu", who, static_cast<const char *>(data) - o, cap);
		if(size <= 22) REQUIRE_("layout", std::memcmp(o + 9, chars, size) == 0 && o[9 + size] == 0, "%s: inline bytes differ from the text", who);
	} else {
		REQUIRE_("layout", word(o, 24) == size, "%s: heap size field is %llu, expected %zu", who, static_cast<unsigned long long>(word(o, 24)), size);
		REQUIRE_("layout", word(o, 16) == cap && cap >= size, "%s: heap capacity field is %llu but capacity() is %zu", who, static_cast<unsigned long long>(word(o, 16)), cap);
		REQUIRE_("layout", word(o, 8) == reinterpret_cast<u64>(data), "%s: heap pointer field is not data()", who);
		if(word(o, 8) == reinterpret_cast<u64>(data) && word(o, 24) == size) {
			const auto p{reinterpret_cast<const char *>(word(o, 8))};
			REQUIRE_("layout", std::memcmp(p, chars, size) == 0 && p[size] == 0, "%s: characters behind the pointer differ from the text", who);
		}
	}
}
//! vector: release function (null: no buffer) @0, elements @8, capacity @16, size @24; capacity in elements
inline void vector(const void * obj, std::size_t sizeof_, std::size_t alignof_, const void * data, std::size_t cap, std::size_t size, const char * who) {
	REQUIRE_("layout", sizeof_ == 32 && alignof_ == 8, "vector has %zu bytes aligned at %zu", sizeof_, alignof_);
	REQUIRE_("layout", word(obj, 24) == size, "%s: size field is %llu, expected %zu", who, static_cast<unsigned long long>(word(obj, 24)), size);
	REQUIRE_("layout", word(obj, 16) == cap, "%s: capacity field is %llu but capacity() is %zu", who, static_cast<unsigned long long>(word(obj, 16)), cap);
	REQUIRE_("layout", word(obj, 8) == reinterpret_cast<u64>(data), "%s: pointer field is not data()", who);
	const bool none{word(obj, 0) == 0};
	REQUIRE_("layout", none == (cap == 0) && none == (data == nullptr), "%s: release function %s with capacity %zu", who, none ? "missing" : "set", cap);
}
}
