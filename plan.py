"""Which harness binaries decide which property, and what the manifest says about it."""
_SO = ["-DMODULE_NAME=\"%s\"", "-Wl,--version-script=@HARN@/module.map", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=aligned_alloc"]
def _module(i, cxx, inc, *flags):
    name = cxx + " " + " ".join(flags) + (" (pinned headers)" if "frozen" in inc else " (this tree)")
    return {"name": str(i), "cxx": cxx, "inc": inc, "src": "module.cpp", "flags": list(flags) + ["-DMODULE=%d" % i, _SO[0] % name] + _SO[1:]}
def _reader(cxx, *flags):
    return {"name": "reader", "cxx": cxx, "inc": "@INC@", "src": "reader.cpp", "flags": list(flags) + (["-fno-gnu-unique"] if cxx == "g++" else []) + ["-Wl,-z,now,-z,relro", "-Wl,--version-script=@HARN@/reader.map", _SO[2]]}
def _consteval(cxx, std):
    limits = ["-fconstexpr-ops-limit=20000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-cache-depth=1"] if cxx == "g++" else ["-fconstexpr-steps=4000000000"]
    return {"src": "consteval.cpp", "cxx": cxx, "san": False, "flags": ["-std=c++" + std, "-g0", "-DWHO=\"%s C++%s\"" % (cxx, std)] + limits, "tier_flags": {"quick": ["-DDEPTH=2"], "thorough": ["-DDEPTH=3"]}}
def _uses(cxx, std): return {"src": "uses.cpp", "cxx": cxx, "san": False, "flags": ["-std=c++" + std, "-O0", "-g0"]}
HARNESSES = {
    "const_g17": _consteval("g++", "17"), "const_g20": _consteval("g++", "20"), "const_c17": _consteval("clang++", "17"), "const_c20": _consteval("clang++", "20"),
    "weak": {},
    "uses_g17": _uses("g++", "17"), "uses_c17": _uses("clang++", "17"), "uses_c20": _uses("clang++", "20"),
    "modules": {"san": False, "modules": [
        _module(0, "g++", "@INC@", "-O2"), _module(1, "clang++", "@INC@", "-O0", "-std=c++20"),
        _module(2, "g++", "@ROOT@/frozen", "-O1"), _module(3, "clang++", "@ROOT@/frozen", "-O2")]},
    "readers": {"san": False, "modules": [_reader("g++", "-O1")]},
    "readers_plain": {"src": "readers.cpp", "san": False, "modules": [_reader("clang++", "-O0")]},
    "string": {},
    "bitset": {},
    "optional": {},
    "variant_a": {"src": "variant.cpp", "flags": ["-DPART=0"]},
    "variant_b": {"src": "variant.cpp", "flags": ["-DPART=1"]},
    "visit": {"src": "variant.cpp", "flags": ["-DPART=2", "-O0", "-g0"], "cxx": "clang++", "san": False},
    "variant_many": {"flags": ["-g0"], "cxx": "clang++", "san": False},
    "iter_own": {"src": "iterators.cpp", "flags": ["-DPART=0"]}, "iter_ref": {"src": "iterators.cpp", "flags": ["-DPART=1"]},
    "large_bits": {"src": "large.cpp", "flags": ["-DPART=0"]}, "large": {"src": "large.cpp", "flags": ["-DPART=1"]},
    "kinds_va": {"src": "kinds.cpp", "flags": ["-DPART=0", "-O0", "-g0"]}, "kinds_vb": {"src": "kinds.cpp", "flags": ["-DPART=3", "-O0", "-g0"]}, "kinds_arr": {"src": "kinds.cpp", "flags": ["-DPART=1", "-g0"]}, "kinds_opt": {"src": "kinds.cpp", "flags": ["-DPART=2", "-g0"]},
    "huge_refs": {"src": "huge.cpp", "san": False, "flags": ["-DPART=0", "-O2", "-w"]}, "huge": {"src": "huge.cpp", "san": False, "flags": ["-DPART=1", "-O2", "-w"]},
    "access": {}, "order": {}, "abi": {},
    "nested": {},
    "array": {}, "tuple": {}, "refs": {}, "optvar_ref": {}, "function_ref": {},
    "vec_elem": {"src": "vector.cpp", "flags": ["-DPART=0"]},
    "vec_int": {"src": "vector.cpp", "flags": ["-DPART=1"]},
    "vec_wide": {"src": "vector.cpp", "flags": ["-DPART=2"]},
    "vec_str": {"src": "vector.cpp", "flags": ["-DPART=3"]},
}
PROPS = {
    "C01": ["string", "huge"], "C02": ["string"], "C03": ["string"], "C04": ["string"],
    "C05": ["vec_elem", "vec_int", "vec_str", "nested", "kinds_va", "kinds_vb", "huge"], "C06": ["vec_elem", "vec_wide", "vec_str"], "C07": ["vec_elem", "vec_int", "vec_wide"],
    "C08": ["vec_elem", "vec_wide", "vec_str", "nested"], "C09": ["vec_elem", "vec_wide"],
    "C10": ["string", "vec_elem", "vec_int", "vec_wide"],
    "C11": ["bitset", "large_bits"], "C12": ["bitset", "large_bits"], "C13": ["bitset", "large_bits"],
    "C14": ["optional", "nested", "kinds_opt"], "C15": ["optional", "nested"],
    "C16": ["variant_a", "variant_b", "variant_many", "nested", "kinds_opt"], "C17": ["variant_a", "variant_b", "nested"], "C18": ["visit", "variant_many", "optvar_ref"],
    "C19": ["array", "weak", "large", "kinds_arr"], "C20": ["tuple", "weak", "large", "kinds_arr"], "C21": ["refs", "large", "huge_refs"], "C22": ["refs", "large", "huge_refs"], "C23": ["optvar_ref"], "C24": ["optvar_ref", "variant_many"], "C25": ["function_ref"],
    "C26": ["abi", "string", "vec_elem", "vec_int", "vec_str", "bitset", "optional", "variant_a", "variant_b", "array", "tuple", "refs", "optvar_ref"],
    "C27": ["modules"],
    "C28": ["order", "weak", "array", "tuple", "optional", "variant_a", "variant_b", "bitset", "refs", "large", "large_bits", "huge_refs"],
    "C29": ["iter_own", "iter_ref", "refs", "large", "huge_refs"],
    "C30": ["access", "array", "refs", "optvar_ref", "bitset", "optional", "variant_a", "variant_b", "large", "large_bits", "huge_refs"],
    "C31": ["readers", "readers_plain"], "C34": ["readers", "readers_plain"], "C35": ["const_g17", "const_g20", "const_c17", "const_c20"],
    "C36": ["uses_g17", "uses_c17", "uses_c20"],
    "C32": ["string", "vec_elem", "vec_int"], "C33": ["string", "vec_elem", "vec_int", "bitset", "optional", "variant_a", "variant_b", "array", "tuple", "nested", "large"],
}
_EX = "explicit-state exploration of the real code against a reference model stepped in lock-step"
_FA = "explicit-state exploration of the real code with exhaustive fault-point enumeration"
TECHNIQUE = {k: _EX for k in PROPS}
TECHNIQUE["C36"] = "exhaustive enumeration of the finite space of uses (target x source type matrices), each judged against a written rule"
TECHNIQUE.update({k: _FA for k in ("C04", "C08", "C15", "C17") if k in PROPS})
_N = "Every operation, argument and fault choice of every reached state within the stated bounds is executed on the real headers (compiled from /repo, ASan+UBSan, tracked allocator) and compared with the reference; nothing is claimed beyond the bounds on sizes, values and depth. Trusts g++ 13, libstdc++ and the std:: reference types."
NOTE = {k: _N for k in PROPS}
NOTE["C36"] = "Every cell of the type matrices in harness/uses.cpp is decided by the compilers themselves (g++ C++17, clang++ C++17 and C++20) through the library's constraints and compared with a rule written independently of the headers; nothing is claimed for types outside the lists, nor for uses whose rejection is a hard error rather than a constraint."
