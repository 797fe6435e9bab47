"""Extraction: clang AST of the whole of /repo/core/src, read afresh on every run.

Every .cpp under core/src (but app/, the CLI main) is included, unmodified, in one
translation unit inside `namespace HB`, after the system headers; clang dumps the
typed AST of that namespace as JSON.  What the extraction drops: preprocessor
branches not taken on this platform, NDEBUG asserts (the Release build drops them
too), and source comments.
"""
import json, os, re, subprocess, hashlib, sys, tempfile, glob

REPO = os.environ.get("HB_REPO", "/repo")
SYS_HEADERS = ["bits/stdc++.h", "Eigen/Dense", "yaml-cpp/yaml.h", "netcdf.h"]


def source_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "core/src")):
        if os.path.basename(root) == "app":
            continue
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def include_dirs():
    base = os.path.join(REPO, "core/src")
    return [base] + sorted(os.path.join(base, d) for d in os.listdir(base) if os.path.isdir(os.path.join(base, d)))


def clang_flags():
    return (["-std=c++23", "-w", "-DNDEBUG", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined",
             "-DHYDROBRICKS_MAJOR_VERSION=0", "-DHYDROBRICKS_MINOR_VERSION=0", "-DHYDROBRICKS_PATCH_VERSION=0"]
            + ["-I" + d for d in include_dirs()] + ["-I/usr/include/eigen3"])


class ExtractError(Exception):
    pass


def dump_ast(workdir):
    u = os.path.join(workdir, "unit.cpp")
    clash = write_unit(u)
    out = os.path.join(workdir, "unit.json")
    with open(out, "w") as fo:
        p = subprocess.run(["clang++", *clang_flags(), "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
                            "-ast-dump-filter=HB", u], stdout=fo, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ExtractError("clang could not parse the sources:\n" + p.stderr[-3000:])
    s = open(out).read()
    os.unlink(out)
    d = json.JSONDecoder()
    i, ns = 0, []
    while True:
        i = s.find("{", i)
        if i < 0:
            break
        o, i = d.raw_decode(s, i)
        drop_comments(o)
        if o.get("kind") == "NamespaceDecl" and o.get("name") == "HB":
            ns.append(o)
    return ns


def write_unit(u):
    """names of internal linkage two files share are told apart by a macro around the later file"""
    clash = {}
    for attempt in range(6):
        with open(u, "w") as f:
            for h in SYS_HEADERS:
                f.write("#include <%s>\n" % h)
            f.write("namespace HB {\n")
            for k, s in enumerate(source_files()):
                names = sorted(clash.get(s, ()))
                f.writelines("#define %s %s__f%d\n" % (n, n, k) for n in names)
                f.write('#include "%s"\n' % s)
                f.writelines("#undef %s\n" % n for n in names)
            f.write("}\n")
        if not attempt and not may_clash():
            return clash
        p = subprocess.run(["clang++", *clang_flags(), "-fsyntax-only", "-ferror-limit=0", u], capture_output=True, text=True)
        new = [(m.group(1), m.group(2)) for m in re.finditer(r"^(\S+\.cpp):\d+:\d+: error: (?:redefinition of|call to|reference to) '(\w+)'", p.stderr, re.M)]
        new = [(f, n) for f, n in new if n not in clash.get(f, ()) and f != u]
        if p.returncode == 0 or not new:
            return clash
        for f, n in new:
            clash.setdefault(f, set()).add(n)
    return clash


def may_clash():
    """cheap test: a name defined at file level in an anonymous namespace or as static in two files"""
    seen = {}
    for s in source_files():
        t = open(s, errors="replace").read()
        names = set(re.findall(r"^static\s[^;={(]*?(\w+)\s*[({=;]", t, re.M))
        for m in re.finditer(r"^namespace\s*\{(.*?)^\}", t, re.M | re.S):
            names |= set(re.findall(r"^(?:\s{0,4})(?:[\w:<>,&*\s]+?)[\s&*](\w+)\s*[({=;\[]", m.group(1), re.M))
        for n in names:
            if n in seen:
                return True
            seen[n] = s
    return False


def drop_comments(n):
    st = [n]
    while st:
        x = st.pop()
        inn = x.get("inner")
        if inn:
            x["inner"] = inn = [c for c in inn if not c.get("kind", "").endswith("Comment")]
            st.extend(c for c in inn)


FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}


class Func:
    __slots__ = ("name", "qname", "cls", "node", "body", "params", "type", "static", "virtual", "kind", "ids", "const",
                 "file", "inits", "pure", "deleted")

    def __repr__(self):
        return "<Func %s>" % self.qname


class Cls:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.fields = {}     # name -> type string
        self.field_init = {}  # name -> node
        self.methods = {}    # name -> [Func]
        self.abstract = False
        self.id = None
        self.polymorphic = False


class Program:
    def __init__(self):
        self.classes = {}
        self.funcs = {}      # qname -> [Func]
        self.by_id = {}      # decl id -> Func
        self.field_by_id = {}  # decl id -> (cls, name, type)
        self.enum_consts = {}  # id -> (qname, int value)
        self.globals = {}    # id -> VarDecl node
        self.enums = {}
        self.cls_by_id = {}

    def subclasses(self, c):
        r = [c]
        for k, v in self.classes.items():
            if k != c and c in self.all_bases(k):
                r.append(k)
        return r

    def all_bases(self, c):
        out = []
        st = list(self.classes[c].bases) if c in self.classes else []
        while st:
            b = st.pop()
            if b in self.classes and b not in out:
                out.append(b)
                st.extend(self.classes[b].bases)
        return out

    def find_field_class(self, c, f):
        for k in [c] + self.all_bases(c):
            if k in self.classes and f in self.classes[k].fields:
                return k
        return None

    def find_method(self, c, name):
        """methods named `name` visible in class c (nearest class first)."""
        if c not in self.classes:
            return []
        if name in self.classes[c].methods:
            return self.classes[c].methods[name]
        for b in self.classes[c].bases:
            r = self.find_method(b, name)
            if r:
                return r
        return []


def load(workdir=None):
    tmp = workdir or tempfile.mkdtemp(prefix="hbx")
    try:
        nss = dump_ast(tmp)
    finally:
        if not workdir:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    return build(nss)


def qt(node):
    t = node.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


def build(nss):
    P = Program()
    decl2prev = {}
    ctx_of = {}
    pending = []

    curfile = [None]

    def note_loc(n):
        loc = n.get("loc", {})
        for l in (loc, loc.get("expansionLoc", {})):
            if "file" in l:
                curfile[0] = l["file"]

    def add_func(n, cls, static_ns):
        f = Func()
        f.name = n.get("name")
        f.node = n
        f.kind = n["kind"]
        f.cls = cls
        f.qname = (cls + "::" if cls else "") + f.name
        f.type = n["type"]["qualType"]
        f.static = n.get("storageClass") == "static"
        f.virtual = bool(n.get("virtual"))
        f.pure = bool(n.get("pure"))
        f.deleted = bool(n.get("explicitlyDeleted"))
        f.const = f.type.endswith("const") or f.type.endswith("const noexcept")
        f.ids = [n["id"]]
        f.file = curfile[0]
        f.params = []
        f.body = None
        f.inits = []
        for c in n.get("inner", []):
            if c.get("kind") == "ParmVarDecl":
                f.params.append(c)
            elif c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                f.body = c
            elif c.get("kind") == "CXXCtorInitializer":
                f.inits.append(c)
        prev = n.get("previousDecl")
        if prev and prev in P.by_id:
            g = P.by_id[prev]
            g.ids.append(n["id"])
            P.by_id[n["id"]] = g
            if f.body is not None:
                g.body = f.body
                g.params = f.params
                g.inits = f.inits
                g.node = n
                g.file = f.file
            return
        P.by_id[n["id"]] = f
        P.funcs.setdefault(f.qname, []).append(f)
        if cls and cls in P.classes:
            P.classes[cls].methods.setdefault(f.name, []).append(f)

    def visit(n, scope, cls):
        note_loc(n)
        k = n.get("kind")
        if k == "NamespaceDecl":
            for c in n.get("inner", []):
                visit(c, scope + ([n["name"]] if n.get("name") and n["name"] != "HB" else []), cls)
        elif k in ("CXXRecordDecl",):
            name = n.get("name")
            if not name:
                return
            q = (cls + "::" if cls else "") + name
            P.cls_by_id[n["id"]] = q
            if not n.get("completeDefinition"):
                return
            C = P.classes.setdefault(q, Cls(q))
            C.id = n["id"]
            C.polymorphic = bool(n.get("definitionData", {}).get("isPolymorphic"))
            C.abstract = bool(n.get("definitionData", {}).get("isAbstract"))
            for b in n.get("bases", []):
                t = b["type"].get("desugaredQualType") or b["type"]["qualType"]
                C.bases.append(norm_cls(t))
            for c in n.get("inner", []):
                visit(c, scope, q)
        elif k == "FieldDecl":
            P.classes[cls].fields[n["name"]] = qt(n)
            for c in n.get("inner", []):
                if c.get("kind", "").endswith("Expr") or c.get("kind", "").endswith("Literal") or c.get("kind") in ("ExprWithCleanups",):
                    P.classes[cls].field_init[n["name"]] = c
            P.field_by_id[n["id"]] = (cls, n["name"], qt(n))
        elif k in FUNC_KINDS:
            q = cls
            par = n.get("parentDeclContextId")
            if par and par in P.cls_by_id:
                q = P.cls_by_id[par]
            elif n.get("previousDecl") and n["previousDecl"] in P.by_id:
                q = P.by_id[n["previousDecl"]].cls
            if q is None and scope:
                q2 = "::".join(scope)
                add_func_ns(n, q2)
            else:
                add_func(n, q, None)
        elif k == "EnumDecl":
            val = -1
            en = (cls + "::" if cls else "") + (n.get("name") or "")
            vals = {}
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v = None
                    for x in c.get("inner", []):
                        v = const_value(x)
                    val = v if v is not None else val + 1
                    P.enum_consts[c["id"]] = (en + "::" + c["name"], val)
                    vals[c["name"]] = val
            P.enums[en] = vals
        elif k == "VarDecl":
            P.globals[n["id"]] = n
        elif k == "FunctionTemplateDecl":
            insts = [c for c in n.get("inner", []) if c.get("kind") in FUNC_KINDS]
            for c in insts:
                q2 = "::".join(scope) if scope else None
                if any(x.get("kind") == "TemplateArgument" for x in c.get("inner", [])):
                    if q2 and cls is None:
                        add_func_ns(c, q2)
                    else:
                        add_func(c, cls, None)
        elif k == "LinkageSpecDecl":
            for c in n.get("inner", []):
                visit(c, scope, cls)

    def add_func_ns(n, ns):
        f_before = set(P.by_id)
        add_func(n, None, ns)
        f = P.by_id[n["id"]]
        if n["id"] == f.ids[0]:
            # re-key with the namespace
            P.funcs[f.qname].remove(f)
            if not P.funcs[f.qname]:
                del P.funcs[f.qname]
            f.qname = ns + "::" + f.name
            P.funcs.setdefault(f.qname, []).append(f)

    for ns in nss:
        visit(ns, [], None)
    return P


def const_value(x):
    if "value" in x and x.get("kind") in ("ConstantExpr", "IntegerLiteral"):
        try:
            return int(x["value"])
        except ValueError:
            return None
    for c in x.get("inner", []):
        v = const_value(c)
        if v is not None:
            return v
    return None


def norm_cls(t):
    t = t.replace("const ", "").replace("class ", "").replace("struct ", "").strip()
    while t.endswith("*") or t.endswith("&") or t.endswith(" const") or t.endswith(" "):
        t = t[:-6] if t.endswith(" const") else t[:-1]
    if t.startswith("HB::"):
        t = t[4:]
    return t.strip()


if __name__ == "__main__":
    import collections, time
    t = time.time()
    P = load()
    print(len(P.classes), len(P.funcs), time.time() - t)
    cnt = collections.Counter()

    def walk(n):
        cnt[n.get("kind")] += 1
        for c in n.get("inner", []):
            walk(c)
    nb = 0
    for fs in P.funcs.values():
        for f in fs:
            if f.body:
                nb += 1
                walk(f.body)
    print(nb, "bodies")
    for k, v in cnt.most_common():
        print(k, v)
