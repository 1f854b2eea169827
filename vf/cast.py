"""The project's C functions, parsed by clang from /repo's current sources on every run.

Nothing is rewritten: clang's AST of the real translation unit (macros expanded, types
resolved) is what the verifier interprets.  The headers of the absent dependencies
(BLASFEO, HPIPM) come from /verif/stubs/include.
"""
import functools, json, os, subprocess, re
from .core import REPO, HOME, Unsupported

STUBS = os.path.join(HOME, "stubs", "include")
_cache = {}


class TU:
    pass


def parse(relpath, defs=()):
    key = (relpath, tuple(defs))
    if key in _cache:
        return _cache[key]
    path = os.path.join(REPO, relpath) if not os.path.isabs(relpath) else relpath
    cmd = ["clang", "-std=gnu11", "-fsyntax-only", "-w", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-implicit-function-declaration", "-DVF_CSYM", "-I" + STUBS, "-I" + REPO, "-I" + os.path.join(REPO, "interfaces"),
           *["-D" + d for d in defs], "-Xclang", "-ast-dump=json", path]
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode != 0:
        raise Unsupported(f"clang cannot parse {relpath}: {r.stderr.decode()[:400]}")
    d = json.loads(r.stdout)
    tu = TU()
    tu.path = relpath
    tu.funcs, tu.records, tu.enums, tu.typedefs, tu.globals = {}, {}, {}, {}, {}
    tu.recid = {}
    for n in d["inner"]:
        k = n["kind"]
        if k == "FunctionDecl":
            if any(c["kind"] == "CompoundStmt" for c in n.get("inner", [])):
                n["_tu"] = tu
                tu.funcs[n["name"]] = n
        elif k == "RecordDecl" and n.get("completeDefinition"):
            fields = [(c["name"], c["type"]) for c in n.get("inner", []) if c["kind"] == "FieldDecl" and "name" in c]
            if "name" in n:
                tu.records[n.get("tagUsed", "struct") + " " + n["name"]] = fields
            tu.recid[n["id"]] = fields
        elif k == "EnumDecl":
            v = -1
            for c in n.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    val = _find_const(c)
                    v = val if val is not None else v + 1
                    tu.enums[c["name"]] = v
        elif k == "TypedefDecl":
            tu.typedefs[n["name"]] = n
            rid = _find_record(n)
            if rid and rid in tu.recid:
                tu.records[n["name"]] = tu.recid[rid]
        elif k == "VarDecl":
            tu.globals[n["name"]] = n
    _cache[key] = tu
    return tu


def _find_const(n):
    for c in n.get("inner", []):
        if c["kind"] == "ConstantExpr" and "value" in c:
            return int(c["value"])
        r = _find_const(c)
        if r is not None:
            return r
    return None


def _find_record(n):
    for c in n.get("inner", []):
        for f in ("decl", "ownedTagDecl"):
            if f in c and c[f].get("kind") == "RecordDecl":
                return c[f]["id"]
        r = _find_record(c)
        if r:
            return r
    return None


class Program:
    def __init__(self, files, defs=()):
        self.tus = [parse(f, defs) for f in files]
        self.funcs, self.records, self.enums = {}, {}, {}
        self.typedefs = {}
        for t in self.tus:
            for n, f in t.funcs.items():
                # a definition in its own .c file wins over a header's static inline copy
                self.funcs.setdefault(n, f)
            self.records.update(t.records)
            self.enums.update(t.enums)
            self.typedefs.update(t.typedefs)

    def lookup(self, name, tu=None):
        if tu is not None and name in tu.funcs:
            return tu.funcs[name]
        return self.funcs.get(name)


# ---------------------------------------------------------------- types
def tstr(t):
    """canonical type string of a clang type object"""
    return _clean(t.get("desugaredQualType", t.get("qualType", "")) if isinstance(t, dict) else t)


@functools.lru_cache(None)
def _clean(s):
    s = re.sub(r"\b(const|volatile|restrict|__restrict)\b", "", s)
    return re.sub(r"\s+", " ", s).strip()


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short",
        "char", "unsigned char", "signed char", "size_t", "acados_size_t", "int64_t", "uint64_t", "int32_t", "ssize_t", "hpipm_size_t"}
FLOATS = {"double", "float", "long double", "real_t"}


@functools.lru_cache(None)
def tkind(s):
    s = s.strip()
    if re.search(r"\(\s*\*\s*\)", s) or re.search(r"\(\*\)", s):
        return "fptr"
    if s.endswith("]"):
        return "array"
    if s.endswith("*"):
        return "ptr"
    if s in FLOATS:
        return "float"
    if s in ("_Bool", "bool"):
        return "bool"
    if s in INTS or s.startswith("enum "):
        return "int"
    if s == "void":
        return "void"
    return "record"


@functools.lru_cache(None)
def pointee(s):
    s = s.strip()
    if s.endswith("]"):
        m = re.match(r"^(.*?)\s*\[[^\]]*\]((?:\[[^\]]*\])*)$", s)
        return (m.group(1) + m.group(2)).strip()
    return s[:-1].strip()


def fname_params(fn):
    return [(c.get("name", f"_arg{i}"), tstr(c["type"]), c["id"]) for i, c in enumerate(x for x in fn.get("inner", []) if x["kind"] == "ParmVarDecl")]


def body(fn):
    return [c for c in fn["inner"] if c["kind"] == "CompoundStmt"][0]
