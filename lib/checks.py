import re
import core
import wit

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


# ---------------------------------------------------------------- concurrent containers
def conc_jobs(pid, tier):
    S = "SHARDS=seq::"
    base = [[S + "low_concurrency_shared"], [S + "low_concurrency"]]
    if tier == "thorough":
        base += [[S + "low_concurrency_shared", "ELT=ElT"], [S + "medium_concurrency_shared"], [S + "medium_concurrency"],
                 [S + "high_concurrency_shared"], [S + "medium_concurrency", "ELT=ElT"], [S + "low_concurrency", "ELT=ElT"]]
    jobs = []
    for i, b in enumerate(base):
        for m in ([], ["MAP"]):
            for g in (5, 3, 2, 1, 4):
                if tier == "quick" and i and (m or g in (3, 5)):
                    continue
                args = ["--rules=" + pid, "--roots=vf_.*"] + (["--opaque-ctors"] if g == 3 else [])
                d = m + ["GROUP=%d" % g] + b
                jobs.append({"harness": "conc.cpp", "defs": d, "analysis": "locks", "args": args, "name": " ".join(d),
                             "min": {1: {"roots": 13, "element_sites": 150, "lock_sites": 100, "publication_sites": 1},
                                     2: {"roots": 14, "element_sites": 120, "lock_sites": 50, "publication_sites": 4},
                                     3: {"roots": 2, "element_sites": 60, "lock_sites": 30, "publication_sites": 1},
                                     4: {"roots": 3, "element_sites": 20, "lock_sites": 12},
                                     5: {"roots": 4, "element_sites": 60, "lock_sites": 30, "publication_sites": 1}}[g]})
    return jobs


def locks_check(pid):
    def f(res, tier):
        jobs = conc_jobs(pid, tier)
        reps = core.run_jobs(jobs, res, {})
        for rep in reps:
            for v in rep["violations"]:
                if v["rule"] != pid:
                    continue
                msg, _, path = v["msg"].partition("  [path")
                key = v["where"].split(" <- ")[0].split(" (")[-1].rstrip(")") + "|" + v["root"] + "|" + re.sub(r"seq/\S+:\d+", "", msg)
                res.add(key, "%s: %s\n   at %s" % (v["root"], msg, core.short_where(v["where"])), "variant %s\npath%s" % (v["variant"], path))
    return f


for _p in ("C01", "C02", "C03", "C05", "C06"):
    CHECKS[_p] = locks_check(_p)


# ---------------------------------------------------------------- call graph analyses
SEQS = [("devector", "seqs.cpp", ["CONT=1"]), ("tiered_vector", "seqs.cpp", ["CONT=2"]), ("sequence", "seqs.cpp", ["CONT=3"])]
ASSOC = [("flat", "assoc.cpp", ["KIND=1"]), ("ordered", "assoc.cpp", ["KIND=2"]), ("radix", "assoc.cpp", ["KIND=3"]),
         ("radix string keys", "assoc.cpp", ["KIND=3", "STRKEY"]), ("radix_hash", "assoc.cpp", ["KIND=4"])]
MULTI = [("flat multi", "assoc.cpp", ["KIND=1", "MULTI"])]
CONC = [("concurrent", "conc.cpp", [])]


def fn_key(where):
    return where.split(" <- ")[0].split(" (")[-1].rstrip(")")


def config_jobs(conf, analysis, args, extra=((),), maps=False, mins=None):
    jobs = []
    for name, h, d in conf:
        for x in extra:
            for m in ([], ["MAP"]) if maps and h != "seqs.cpp" else ([],):
                dd = ["NDEBUG"] + d + list(x) + m
                jobs.append({"harness": h, "defs": dd, "analysis": analysis, "args": list(args), "name": name + " " + " ".join(dd), "min": dict(mins or {})})
    return jobs


def calls_check(pid, rules, extra, mins):
    def f(res, tier):
        ex = extra if tier == "thorough" else extra[:2]
        jobs = config_jobs(SEQS + ASSOC + MULTI + CONC, "calls", ["--rules=" + rules], ex, True, mins)
        if tier == "thorough":
            for s in ("low_concurrency", "medium_concurrency_shared", "high_concurrency"):
                jobs += config_jobs([("concurrent", "conc.cpp", ["SHARDS=seq::" + s])], "calls", ["--rules=" + rules], ((),), True, mins)
        for rep in core.run_jobs(jobs, res, {}):
            for v in rep["violations"]:
                if v["rule"] not in rules.split(","):
                    continue
                msg = re.sub(r"<[^|]*>", "", v["msg"])
                key = "%s|%s|%s|%s" % (rep["harness"], v["rule"], v["root"], msg)
                res.add(key, "%s\n   at %s" % (v["msg"], core.short_where(v["where"])), "variant %s" % v["variant"])
    return f


CHECKS["E01"] = calls_check("E01", "E01,E02", ((), ("ELT=ElT",), ("NXFUN",), ("ALLOC=AlN",)), {"roots": 35, "functions": 200, "invoke_sites": 20})
CHECKS["A01"] = calls_check("A01", "A01", ((), ("ALLOC=AlN",), ("ELT=ElT",)), {"roots": 35, "functions_allocation": 200, "allocator_call_sites": 2})


# ---------------------------------------------------------------- whole-container state and effects
# algorithms whose bodies do not matter to these rules and whose inlining is expensive: sorting and merging of ranges
OPAQUE = r"--opaque=seq::.*(sort|merge)[a-z_]*<|std::(inplace_merge|stable_sort|sort|__inplace|__stable|__merge|__rotate|rotate)"
WHOLE = "^vf_(k_|swap|copy_assign|move_assign|dtor|clear)"


def state_check(pid, analysis, jobs_of, undecided=None):
    def f(res, tier):
        for rep in core.run_jobs(jobs_of(tier), res, {}):
            for v in rep["violations"]:
                if v["rule"] != pid or (undecided and undecided(v)):
                    continue
                msg = re.sub(r"<[^|]*>", "", v["msg"])
                root = re.sub(r"<.*", "", fn_key(v["where"])) if pid == "R01" else v["root"]
                key = "%s|%s|%s|%s" % (rep["harness"], " ".join(d for d in v["variant"].split() if d.split("=")[0] in ("CONT", "KIND")), root, msg)
                res.add(key, "%s\n   at %s" % (v["msg"], core.short_where(v["where"])), "variant %s" % v["variant"])
    return f


def m02_jobs(tier):
    a = ["--rules=M02", "--roots=^vf_(c_|at_c)", OPAQUE]
    m = {"roots": 8}
    jobs = config_jobs(SEQS + ASSOC + MULTI, "flow", a, ((),), True, m)
    if tier == "thorough":
        jobs += config_jobs(SEQS + ASSOC + MULTI, "flow", a, (("ELT=ElT",), ("NXFUN",)), False, m)
    return jobs


def cells_jobs(pid):
    def f(tier):
        jobs = []
        extra = [()] if tier == "quick" else [(), ("ELT=ElT",)]
        for conf in SEQS + ASSOC + MULTI:
            name, h, d = conf
            if pid == "M05" and (h == "seqs.cpp" or "KIND=3" in d):
                continue
            if tier == "quick" and name == "radix string keys":
                continue
            # the other operations are there to learn the layout: which fields there are, which hold functors and allocator
            roots = "^vf_" if pid == "M05" else WHOLE[:-1] + "|c_find|c_alloc|c_size|c_iter|m_insert$|m_push_back$)"
            if pid == "M07" and "KIND=3" in d:
                roots = "^vf_(k_move|swap|move_assign|dtor|clear|c_find|c_alloc|c_size|c_iter)"
            for x in extra:
                for m in ([[], ["MAP"]] if h != "seqs.cpp" else [[]]):
                    dd = ["NDEBUG"] + d + list(x) + m
                    mins = {"roots": 8, "operations": 4, "field_obligations": 8}
                    if pid == "M05":
                        mins["functors"] = 1
                        mins["functor_calls"] = 20
                    if pid == "A04":
                        mins["allocators"] = 1
                    jobs.append({"harness": h, "defs": dd, "analysis": "cells", "args": ["--rules=" + pid, "--roots=" + roots, OPAQUE], "name": name + " " + " ".join(dd), "min": mins})
                    if pid == "A04":
                        jobs.append({"harness": h, "defs": dd + ["ALLOC=AlN"], "analysis": "cells", "args": ["--rules=" + pid, "--nonprop", "--roots=" + roots, OPAQUE], "name": name + " " + " ".join(dd), "min": mins})
                        few = "^vf_(swap|copy_assign|move_assign|dtor|c_find|c_alloc|c_size|c_iter|m_push_back$|m_insert$)"
                        for al in "CMS":
                            jobs.append({"harness": h, "defs": dd + ["ALLOC=Al" + al], "analysis": "cells", "args": ["--rules=" + pid, "--prop=" + al.lower(), "--roots=" + few, OPAQUE], "name": name + " " + " ".join(dd),
                                         "min": {"roots": 6, "operations": 3, "field_obligations": 1, "allocators": 1}})
        return jobs
    return f


def a02_jobs(tier):
    jobs = []
    for conf in SEQS + ASSOC + MULTI:
        name, h, d = conf
        if tier == "quick" and name in ("radix string keys", "flat multi"):
            continue
        groups = ["^vf_"]
        if "KIND=3" in d:  # one large body per operation: erase and merge are beyond the solver
            groups = ["^vf_k_", "^vf_(m_insert|m_try)", "^vf_(m_em|m_sub|copy_assign|move_assign|swap|dtor|clear|c_)"]
        for x in [()] if tier == "quick" else [(), ("ELT=ElT",)]:
            for np in ([], ["ALLOC=AlN"], ["MAP"], ["MAP", "ALLOC=AlN"]):
                if np and tier == "quick" and "KIND=3" in d or "MAP" in np and h == "seqs.cpp" or len(np) > 1 and tier == "quick":
                    continue
                for g in groups:
                    jobs.append({"harness": h, "defs": ["NDEBUG"] + d + list(x) + np, "analysis": "flow", "args": ["--rules=A02", "--roots=" + g, OPAQUE] + (["--nonprop"] if "ALLOC=AlN" in np else []),
                                 "name": name + " " + g, "min": {"roots": 6, "allocations": 5}, "timeout": 800})
    return jobs


def l01_jobs(tier):
    jobs = []
    for conf in SEQS + ASSOC + MULTI:
        name, h, d = conf
        if tier == "quick" and name in ("radix string keys", "flat multi"):
            continue
        groups = ["^vf_"]
        if "KIND=3" in d or "KIND=4" in d:  # erase and merge are beyond the solver
            groups = ["^vf_(k_|dtor)", "^vf_(m_insert|m_try|dtor)", "^vf_(m_em|m_sub|copy_assign|move_assign|swap|dtor|clear|c_)"]
        for x in ([(), ("ELT=ElT",)] if h == "seqs.cpp" else [()]) if tier == "quick" else [(), ("ELT=ElT",), ("ALLOC=AlN",)]:
            for m in [[]] if h == "seqs.cpp" or tier == "quick" and len(groups) > 1 else [[], ["MAP"]]:
                for g in groups:
                    jobs.append({"harness": h, "defs": ["NDEBUG"] + d + list(x) + m, "analysis": "leaks", "args": ["--rules=L01", "--roots=" + g, OPAQUE],
                                 "name": name + " " + " ".join(d + list(x) + m) + " " + g, "min": dict({"roots": 6, "allocations": 5, "owning_fields": 1}, **({"list_links": 1, "unlinked_nodes": 10} if "CONT=3" in d or "KIND=2" in d else {})), "timeout": 800})
    for g in (2, 6, 7, 8):  # merge and copy assignment of concurrent containers are beyond the solver
        for m in ([], ["MAP"]):
            for sh in ["low_concurrency_shared"] if tier == "quick" else ["low_concurrency_shared", "low_concurrency", "medium_concurrency"]:
                jobs.append({"harness": "conc.cpp", "defs": ["NDEBUG", "GROUP=%d" % g, "SHARDS=seq::" + sh] + m, "analysis": "leaks", "args": ["--rules=L01", "--roots=^vf_"],
                             "name": "concurrent %d %s" % (g, " ".join(m)), "min": {"roots": 4, "allocations": 5, "owning_fields": 1}, "timeout": 800})
    return jobs


# a merged radix directory is linked to the root only after the loop which merges it again: that loop cannot run twice (the directory just split has
# leaves below), which this analysis does not know
def l01_undecided(v):
    return "(allocate_dir)" in v["where"] and "(merge_dir)" in v["where"]


def m03_jobs(tier):
    jobs = []
    for conf in SEQS + ASSOC + MULTI:
        name, h, d = conf
        nodes = "CONT=3" in d or "KIND=2" in d
        for x in [()] if tier == "quick" else [(), ("ELT=ElT",)]:
            for m in [[]] if h == "seqs.cpp" else [[], ["MAP"]]:
                jobs.append({"harness": h, "defs": ["NDEBUG"] + d + list(x) + m, "analysis": "flow", "args": ["--rules=M03", "--roots=^vf_" if nodes else "--roots=^vf_(swap|k_move)$", OPAQUE] + (["--nodes"] if nodes else []),
                             "name": name + " " + " ".join(m), "min": dict({"roots": 2, "whole_container_operations": 2}, **({"stable_operations": 15, "element_operations": 20, "moves_examined": 1} if nodes else {})), "timeout": 800})
    return jobs


CHECKS["M03"] = state_check("M03", "flow", m03_jobs)
CHECKS["L01"] = state_check("L01", "leaks", l01_jobs, l01_undecided)
CHECKS["M02"] = state_check("M02", "flow", m02_jobs)
for _p in ("M05", "M07", "A04"):
    CHECKS[_p] = state_check(_p, "cells", cells_jobs(_p))
CHECKS["A02"] = state_check("A02", "flow", a02_jobs)


def c04_jobs(tier):
    locks = [("seq::spinlock", ["TIMED"])] + [("seq::shared_spinner<%s>" % t, ["FAST"]) for t in ("unsigned", "unsigned char", "unsigned short", "unsigned long long")]
    return [{"harness": "lockw.cpp", "defs": ["NDEBUG", "LK=" + l] + d, "analysis": "lockword", "args": [], "name": l, "std": std,
             "min": {"roots": 9, "paths": 15, "acquisitions": 4, "word_operations": 2}} for l, d in locks for std in (["c++17"] if tier == "quick" else ["c++17", "c++20"])]


CHECKS["C04"] = state_check("C04", "lockword", c04_jobs)


# ---------------------------------------------------------------- compile-time witnesses
CHECKS["T01"] = wit.check(wit.t01_units, "a member does not compile")
CHECKS["T02"] = wit.check(wit.t02_units, "a promise of the types is broken")


def r01_jobs(tier):
    jobs = []
    for conf in SEQS + ASSOC + MULTI:
        name, h, d = conf
        groups = ["^vf_"]
        if "KIND=3" in d:  # operations that are not inlined are analysed function by function
            groups = ["^vf_k_", "^vf_(m_insert|m_try)", "^vf_(m_em|m_sub|copy_assign|move_assign|swap|dtor|clear|c_)"]
        if tier == "quick" and name == "radix string keys":
            continue
        for x in [()] if tier == "quick" else [(), ("ELT=ElT",)]:
            for m in [[]] if h == "seqs.cpp" or tier == "quick" and "KIND=3" in d else [[], ["MAP"]]:
                for g in groups:
                    jobs.append({"harness": h, "defs": ["NDEBUG", "ELPAD=17"] + d + list(x) + m, "analysis": "flow", "args": ["--rules=R01", "--roots=" + g, OPAQUE],
                                 "name": name + " " + g, "min": {"roots": 5, "element_operations": 100}, "timeout": 800})
    return jobs


_r01_traits = wit.check(wit.r01_units, "a relocation trait is wrong")
_r01_bulk = state_check("R01", "flow", r01_jobs)


@check("R01")
def r01(res, tier):
    _r01_traits(res, tier)
    _r01_bulk(res, tier)
