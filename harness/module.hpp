// What separately built modules and the program driving them share: raw memory and C functions.
#pragma once
#include <cstddef>
#include <cstdint>

struct Host { // services of the program
	void * (*alloc)(int module, std::size_t n, std::size_t align, int kind) noexcept;
	void (*release)(int module, void * p, int kind) noexcept;
	void (*fail)(int module, const char * what) noexcept;
	void (*born)(int module) noexcept;  // tracked elements
	void (*died)(int module) noexcept;
};
enum : int { H_NEW, H_MALLOC, H_ALIGNED };

struct Args { const void * data; std::size_t n, at, m; int value; void * other; };
struct Out { std::size_t n, m; long long value; const void * p; char text[512]; };

// string operations; self and other are strings
enum StringOp : int { S_INIT, S_INIT_TEXT, S_INIT_COPY, S_INIT_MOVE, S_DESTROY, S_ASSIGN, S_ASSIGN_COPY, S_ASSIGN_MOVE, S_SWAP, S_APPEND, S_APPEND_OTHER, S_INSERT, S_ERASE, S_REPLACE, S_RESIZE, S_RESERVE, S_SHRINK, S_CLEAR, S_PUSH, S_POP, S_ADD, S_READ, S_OPS };
// vector operations; the element type is chosen by the table
enum VectorOp : int { V_INIT, V_INIT_N, V_INIT_COPY, V_INIT_MOVE, V_DESTROY, V_ASSIGN, V_ASSIGN_COPY, V_ASSIGN_MOVE, V_SWAP, V_PUSH, V_EMPLACE, V_INSERT, V_INSERT_N, V_ERASE, V_RESIZE, V_RESERVE, V_SHRINK, V_CLEAR, V_POP, V_SET, V_READ, V_OPS };
// sum types, products and references holding strings; see module.cpp
enum MixedOp : int {
	O_INIT, O_DESTROY, O_ASSIGN, O_EMPLACE, O_RESET, O_COPY, O_MOVE, O_SWAP, O_READ,                      // optional<string>
	R_INIT, R_DESTROY, R_CHAR, R_INT64, R_STRING, R_VECTOR, R_COPY, R_MOVE, R_SWAP, R_READ,               // variant<char, long long, string, vector<string>>
	T_INIT, T_DESTROY, T_SET, T_SET_CHAR, T_COPY, T_MOVE, T_SWAP, T_READ,                                 // tuple<char, string, short>
	A_INIT, A_DESTROY, A_SET, A_COPY, A_MOVE, A_SWAP, A_READ,                                             // array<string, 2>
	B_INIT, B_DESTROY, B_SET, B_FLIP, B_SHIFT_L, B_SHIFT_R, B_AND, B_XOR, B_NOT, B_COPY, B_READ,          // bitset<37>
	N_INIT, N_DESTROY, N_PUSH, N_PUSH_TEXT, N_POP, N_ERASE, N_TEXT, N_COPY, N_MOVE, N_SWAP, N_READ,       // vector<optional<string>>
	M_OPS
};
// references made by one module and used by another
enum RefOp : int { X_STRING_REF, X_STRING_REF_READ, X_ARRAY_REF, X_ARRAY_REF_READ, X_ARRAY_REF_WRITE, X_OPTIONAL_REF, X_OPTIONAL_REF_EMPTY, X_OPTIONAL_REF_READ, X_VARIANT_REF_INT, X_VARIANT_REF_STRING, X_VARIANT_REF_READ, X_FUNCTION_REF, X_FUNCTION_REF_FUNCTION, X_FUNCTION_REF_CALL, X_COPY, X_OPS };

struct Module {
	void (*attach)(const Host *, int id);
	void (*string)(int op, void * self, const Args *, Out *);
	void (*vector)(int element, int op, void * self, const Args *, Out *);
	void (*mixed)(int op, void * self, const Args *, Out *);
	void (*ref)(int op, void * self, const Args *, Out *);
	std::size_t (*size)(int type); // 0: string 1: vector 2: optional 3: variant 4: tuple 5: array 6: bitset 7: vector<optional>
	const char * name;
};
