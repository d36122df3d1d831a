"""Compile-time witnesses: translation units that use the public interface with element types that offer exactly what a
container may ask for, or that state promises of the types. The compilers decide; nothing is run."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import core

WIT = os.path.join(core.VERIF, "witness")
COMPILERS = ["g++", "clang++"]
SEQ_ELEMS = [["Mv"], ["Cp", "COPY"], ["Hos", "COPY"], ["Ali", "COPY"], ["int"], ["std::string"], ["double", "NOALX"], ["bool"], ["std::unique_ptr<int>"]]
ASC_ELEMS = [["Mv"], ["Cp", "COPY"], ["Hos", "COPY"], ["Ali", "COPY"], ["int", "COPY", "STD"], ["std::string", "COPY", "STD"]]
MORE_ELEMS = [["Mv"], ["Cp", "COPY"], ["std::string", "COPY", "STD", "STRKEY"], ["HetKey", "HET"]]
KINDS = [["KIND=1"], ["KIND=1", "MULTI"], ["KIND=2"], ["KIND=3"], ["KIND=4"], ["KIND=5"]]
HEADERS = ["algorithm", "any", "bits", "charconv", "concurrent_map", "devector", "flat_map", "format", "hash", "lock", "ordered_map", "radix_hash_map", "radix_map",
           "sequence", "tagged_pointer", "tiered_vector", "tiny_string", "type_traits", "utils"]


def t01_units(tier):
    u = []
    for c in "123":
        for e in SEQ_ELEMS:
            u.append(("seqs.cpp", ["CONT=" + c, "ELEM=" + e[0]] + e[1:]))
    for k in KINDS:
        for e in ASC_ELEMS:
            for m in [[], ["MAP", "MAPPED=int"], ["MAP", "MAPPED=std::unique_ptr<int>"]]:
                d = k + ["ELEM=" + e[0]] + [x for x in e[1:] if x != "COPY" or len(m) == 0 or "unique" not in m[1]] + m
                u.append(("assoc.cpp", d))
    for k in KINDS:
        for e in MORE_ELEMS:
            for m in [[], ["MAP", "MAPPED=int"]] + ([["MAP", "MAPPED=std::unique_ptr<int>"]] if "COPY" not in e else []):
                u.append(("more.cpp", k + ["ELEM=" + e[0]] + e[1:] + m))
    for w in range(1, 11):
        u.append(("inst.cpp", ["W=%d" % w]))
    for h in HEADERS:
        if os.path.exists(os.path.join(core.REPO, "seq", h + ".hpp")):
            u.append(("header.cpp", ["HEADER=<seq/%s.hpp>" % h]))
    return u


def compile_one(unit):
    comp, std, (src, defs) = unit
    cmd = [comp, "-std=" + std, "-fsyntax-only", "-w", "-I" + core.REPO, "-I" + WIT, *["-D" + d for d in defs], os.path.join(WIT, src)]
    cmd += ["-fmax-errors=3"] if comp == "g++" else ["-ferror-limit=3"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=300, env={**os.environ, "LC_ALL": "C"})
    except subprocess.TimeoutExpired:
        return unit, None, "timeout"
    return unit, r.returncode, r.stderr


def first_error(err):
    lines = err.splitlines()
    k = next((i for i, l in enumerate(lines) if re.search(r"\b(fatal )?error: ", l)), 0)
    return lines, k


def check(units_of, what):
    def run(res, tier):
        units = [(c, s, u) for u in units_of(tier) for c in COMPILERS for s in (["c++17"] if tier == "quick" or u[0] == "traits.cpp" else ["c++17", "c++20"])]
        # a compiler that cannot compile the helpers alone says nothing about the library
        for c in COMPILERS:
            _, rc, err = compile_one((c, "c++17", ("header.cpp", ["HEADER=<wit.hpp>"])))
            if rc:
                raise core.NoAnswer("%s does not compile the witness types: %s" % (c, err[:300]))
        with ThreadPoolExecutor(max_workers=8) as ex:
            out = list(ex.map(compile_one, units))
        res.counts["translation_units"] = len(out)
        for (c, s, (src, defs)), rc, err in out:
            if rc is None:
                res.undecided.append("%s %s %s: no answer in time" % (c, src, " ".join(defs)))
                continue
            if src in ("assoc.cpp", "more.cpp", "seqs.cpp"):
                res.counts["member_suites"] = res.counts.get("member_suites", 0) + 1
            if rc == 0:
                continue
            lines, k = first_error(err)
            e = re.sub(r"^" + re.escape(core.REPO) + "/", "", lines[k] if lines else "?")
            e = re.sub(r"^.*?/seq/internal/\.\./", "seq/", e)
            use = [re.sub(r"^.*/", "", l) for l in lines[:k + 40] if re.search(r"(assoc|more|seqs|inst|traits|header)\.cpp:\d+", l)]
            text = "%s (%s %s %s; used by %s)" % (e[:420], c, src, " ".join(defs), use[0][:160] if use else "?")
            key = re.sub(r":\d+(:\d+)?", "", e)[:160]
            res.add(src + "|" + key, what + ": " + text, "\n".join(lines[:60]))
    return run


def t02_units(tier):
    return [("traits.cpp", ["GROUP=%d" % g]) for g in (2, 3, 4)]


def r01_units(tier):
    return [("traits.cpp", ["GROUP=1"])]
