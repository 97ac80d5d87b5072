// Replacement of every allocation function. Library code (sut_depth > 0) is tracked in the
// ledger, its memory is poisoned, and each allocation is a fault point.
// Link with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign
#pragma once
#include "engine.hpp"

extern "C" {
void * __real_malloc(std::size_t);
void * __real_calloc(std::size_t, std::size_t);
void * __real_realloc(void *, std::size_t);
void __real_free(void *);
void * __real_aligned_alloc(std::size_t, std::size_t);
}

namespace mc::hooks {
inline std::size_t size_limit{std::size_t{64} << 20};
inline std::size_t last_size{0};

inline void * get(std::size_t n, Kind k, bool zero, std::size_t align = 0) {
	if(sut_depth) {
		if(n > size_limit || fault_here(kind_name(k))) return nullptr;
	}
	if(n > (std::size_t{1} << 33)) return nullptr;
	void * p;
	if(align) p = __real_aligned_alloc(align, (n + align - 1) / align * align);
	else if(zero) p = __real_calloc(n ? n : 1, 1);
	else p = __real_malloc(n ? n : 1);
	if(p && sut_depth) {
		if(!zero) std::memset(p, 0xCD, n < 65536 ? n : 65536);
		last_size = n;
		ledger.add(p, n, k);
	}
	return p;
}
inline void put(void * p, Kind k, bool own_kind_required = true) {
	if(!p) return;
	if(!ledger.remove(p, k) && sut_depth && own_kind_required) fail(ledger.mem_tag, fmt("release (%s) of memory the library does not own", kind_name(k)));
	__real_free(p);
}
inline void * need(void * p) {
	if(!p) throw std::bad_alloc{};
	return p;
}
}

extern "C" {
void * __wrap_malloc(std::size_t n) { return mc::hooks::get(n, mc::K_MALLOC, false); }
void * __wrap_calloc(std::size_t a, std::size_t b) {
	if(b && a > static_cast<std::size_t>(-1) / b) return nullptr;
	return mc::hooks::get(a * b, mc::K_MALLOC, true);
}
void __wrap_free(void * p) { mc::hooks::put(p, mc::K_MALLOC); }
void * __wrap_realloc(void * p, std::size_t n) {
	if(!p) return mc::hooks::get(n, mc::K_MALLOC, false);
	const auto a{mc::ledger.find(p)};
	if(!a) return __real_realloc(p, n);
	const auto old{a->size};
	const auto q{mc::hooks::get(n, mc::K_MALLOC, false)};
	if(!q) return nullptr;
	std::memcpy(q, p, old < n ? old : n);
	mc::hooks::put(p, mc::K_MALLOC);
	return q;
}
void * __wrap_aligned_alloc(std::size_t al, std::size_t n) { return mc::hooks::get(n, mc::K_MALLOC, false, al); }
int __wrap_posix_memalign(void ** r, std::size_t al, std::size_t n) {
	*r = mc::hooks::get(n, mc::K_MALLOC, false, al);
	return *r ? 0 : ENOMEM;
}
}

void * operator new(std::size_t n) { return mc::hooks::need(mc::hooks::get(n, mc::K_NEW, false)); }
void * operator new[](std::size_t n) { return mc::hooks::need(mc::hooks::get(n, mc::K_NEWARR, false)); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return mc::hooks::get(n, mc::K_NEW, false); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return mc::hooks::get(n, mc::K_NEWARR, false); }
void * operator new(std::size_t n, std::align_val_t a) { return mc::hooks::need(mc::hooks::get(n, mc::K_NEW_AL, false, static_cast<std::size_t>(a))); }
void * operator new[](std::size_t n, std::align_val_t a) { return mc::hooks::need(mc::hooks::get(n, mc::K_NEWARR_AL, false, static_cast<std::size_t>(a))); }
void operator delete(void * p) noexcept { mc::hooks::put(p, mc::K_NEW, false); }
void operator delete[](void * p) noexcept { mc::hooks::put(p, mc::K_NEWARR, false); }
void operator delete(void * p, std::size_t) noexcept { mc::hooks::put(p, mc::K_NEW, false); }
void operator delete[](void * p, std::size_t) noexcept { mc::hooks::put(p, mc::K_NEWARR, false); }
void operator delete(void * p, const std::nothrow_t &) noexcept { mc::hooks::put(p, mc::K_NEW, false); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { mc::hooks::put(p, mc::K_NEWARR, false); }
void operator delete(void * p, std::align_val_t) noexcept { mc::hooks::put(p, mc::K_NEW_AL, false); }
void operator delete[](void * p, std::align_val_t) noexcept { mc::hooks::put(p, mc::K_NEWARR_AL, false); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { mc::hooks::put(p, mc::K_NEW_AL, false); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { mc::hooks::put(p, mc::K_NEWARR_AL, false); }
