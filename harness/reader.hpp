// What the program exploring const operations and the module containing the library share.
#pragma once
#include <cstddef>
#include <cstdint>
struct ReaderHost {
	void * (*alloc)(std::size_t n, std::size_t align, int kind) noexcept;
	void (*release)(void * p, int kind) noexcept;
};
struct ReaderOp {
	const char * name;
	std::uint64_t (*run)(const void * self, const void * other); // neither may be written to; the result says what was seen
};
struct ReaderMutator {
	const char * name;
	void (*run)(void * self);
};
struct ReaderType {
	const char * name;
	std::size_t size, align;
	void (*init)(void *);
	void (*destroy)(void *);
	void (*copy)(void * self, const void * other); // copy-assign
	std::uint64_t (*state)(const void *);
	const ReaderMutator * mutators;
	int mutator_count;
	const ReaderOp * ops;
	int op_count;
};
struct ReaderModule {
	void (*attach)(const ReaderHost *);
	const ReaderType * types;
	int type_count;
};
extern "C" const ReaderModule * reader_module();
