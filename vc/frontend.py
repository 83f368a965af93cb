"""Turns /repo's C++ (as clang sees it, on every run) into a table of declarations and bodies.

Nothing of the code is dropped or rewritten here: the nodes are clang's own AST (after template
instantiation and overload resolution), read back from `-ast-dump=json`.
"""
import json, os, re, subprocess, hashlib, tempfile, shutil

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ["-I" + VERIF + "/stub", "-I" + REPO + "/cpp_utils/include", "-I" + REPO + "/cpp_utils/src/cpp",
       "-I" + REPO + "/thirdparty/filewatch", "-I" + REPO + "/thirdparty/optionparser"]
CLANG = "clang++"
STD = "-std=c++17"


class ExtractError(Exception):
    pass


class Unsupported(Exception):
    """A construct the generator has no rule for: the function is out of reach, not wrong."""
    def __init__(self, msg, node=None):
        if node is not None:
            msg += " at " + where(node)
        super().__init__(msg)


def where(n):
    r = n.get("_loc")
    return "%s:%s" % (os.path.relpath(r[0], REPO) if r and r[0] else "?", r[1] if r else "?")


# ---------------------------------------------------------------- types

class T:
    """A parsed C++ type: name, template args, constness, pointer/reference suffix."""
    __slots__ = ("name", "args", "const", "ref", "ptr", "fn")

    def __init__(self, name, args=(), const=False, ref="", ptr=0, fn=None):
        self.name, self.args, self.const, self.ref, self.ptr, self.fn = name, tuple(args), const, ref, ptr, fn

    def __repr__(self):
        s = self.name
        if self.args:
            s += "<" + ", ".join(map(repr, self.args)) + ">"
        return s + "*" * self.ptr + self.ref

    def key(self):
        return repr(self)

    def noref(self):
        return T(self.name, self.args, self.const, "", self.ptr, self.fn)

    def pointee(self):
        return T(self.name, self.args, self.const, "", self.ptr - 1, self.fn)

    @property
    def isref(self):
        return bool(self.ref)


ALIASES = {
    "size_t": "unsigned long", "std::size_t": "unsigned long", "uint64_t": "unsigned long",
    "std::uint64_t": "unsigned long", "uint32_t": "unsigned int", "std::uint32_t": "unsigned int",
    "int32_t": "int", "std::int32_t": "int", "int64_t": "long", "std::int64_t": "long",
    "uint16_t": "unsigned short", "uint8_t": "unsigned char", "std::uint8_t": "unsigned char",
    "std::uint16_t": "unsigned short", "int16_t": "short", "int8_t": "signed char",
    "ptrdiff_t": "long", "std::ptrdiff_t": "long",
    "unsigned": "unsigned int", "unsigned long long": "unsigned long", "long long": "long",
    "_Bool": "bool", "std::nullptr_t": "nullptr_t", "std::streamsize": "long",
    "uint_fast32_t": "unsigned long", "std::uint_fast32_t": "unsigned long",
}
INTS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "wchar_t": (32, True), "__int128": (128, True)}


def _split(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ">)]" and not (c == ">" and i and s[i - 1] == "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


_tcache = {}


def parse_type(s):
    r = _tcache.get(s)
    if r is None:
        r = _tcache[s] = _parse_type(s)
    return r


def _strip_kw(s):
    s = re.sub(r"\b(class|struct|enum|typename|volatile|mutable) ", "", s)
    s = s.replace("std::__cxx11::", "std::").replace("std::_V2::", "std::")
    return s.strip()


def _parse_type(s0):
    s = _strip_kw(s0)
    ref = ""
    const = False
    ptr = 0
    # suffixes
    while True:
        s = s.strip()
        if s.endswith("&&"):
            ref = "&&"; s = s[:-2]; continue
        if s.endswith("&"):
            ref = "&"; s = s[:-1]; continue
        if s.endswith("*"):
            ptr += 1; s = s[:-1]; continue
        if s.endswith(" const") or s.endswith("*const"):
            s = s[:-5]
            if not s.strip().endswith("*"):
                const = True
            continue
        if s.endswith("__restrict"):
            s = s[:-10]; continue
        break
    if s.startswith("const "):
        const = True
        s = s[6:].strip()
    # function pointers / function types / arrays
    m = re.match(r"^(.*\S)\s*\((&|\*|\*const|&&)\)\s*\((.*)\)(\s*noexcept)?$", s)
    if m and m.group(1).count("<") == m.group(1).count(">"):
        return T("fnptr", [], const, ref, 0, s)
    if s.endswith("]") and "[" in s and not s.endswith(">"):
        m = re.match(r"^(.*?)\s*(?:\((&|&&|\*)\))?\s*\[(\d*)\]$", s)
        if m:
            return T("array", [_parse_type(m.group(1)), T(m.group(3) or "0")], const, ref or (m.group(2) or ""), ptr)
    # function type R (args)
    if re.search(r"\)\s*(const)?\s*(noexcept)?$", s) and "(" in s:
        # find matching paren from end
        e = s.rstrip()
        e = re.sub(r"\s*(const)?\s*(noexcept)?$", "", e)
        if e.endswith(")"):
            d = 0
            for i in range(len(e) - 1, -1, -1):
                if e[i] == ")":
                    d += 1
                elif e[i] == "(":
                    d -= 1
                    if d == 0:
                        break
            head = e[:i].strip()
            if head and not head.startswith("(") and "lambda at" not in e:
                return T("fn", [_parse_type(head)] + [_parse_type(x) for x in _split(e[i + 1:-1])], const, ref, ptr, e)
    name, args = s, []
    if s.endswith(">") and "<" in s:
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ">" and not (i and s[i - 1] == "-"):
                d += 1
            elif s[i] == "<":
                d -= 1
                if d == 0:
                    break
        name = s[:i].strip()
        args = [_parse_type(x) for x in _split(s[i + 1:-1])]
    name = name.replace("__gnu_cxx::", "")
    name = ALIASES.get(name, name)
    if name in ("std::basic_string", "string", "std::string", "basic_string"):
        return T("std::string", [], const, ref, ptr)
    # default template arguments of the library are noise
    if name.startswith("std::") and args:
        args = [a for a in args if not a.name.startswith(("std::allocator", "std::less", "std::equal_to",
                                                        "std::hash", "std::default_delete", "std::char_traits"))]
        if name in ("std::deque",) and len(args) > 1:
            args = args[:1]
    return T(name, args, const, ref, ptr)


def typeof(n):
    """Type of an expression/declaration node."""
    t = n.get("_t")
    if t is None:
        ty = n.get("type") or {}
        t = n["_t"] = parse_type(ty.get("desugaredQualType") or ty.get("qualType") or "void")
    return t


def qualtype(n):
    return (n.get("type") or {}).get("qualType", "")


# ---------------------------------------------------------------- AST

def run_clang(src, flags=(), only="eprosima"):
    cmd = [CLANG, STD, "-fsyntax-only", *INC, *flags, "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + only, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise ExtractError("clang failed on %s:\n%s" % (src, p.stderr[-3000:]))
    return p.stdout


def _load_many(txt):
    dec = json.JSONDecoder()
    i, out = 0, []
    n = len(txt)
    while i < n:
        while i < n and txt[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(txt, i)
        out.append(o)
    return out


class Program:
    """All declarations of namespace eprosima in one translation unit."""

    def __init__(self, tu_text, flags=(), name="tu"):
        d = tempfile.mkdtemp(prefix="vp_tu_")
        try:
            src = os.path.join(d, name + ".cpp")
            with open(src, "w") as f:
                f.write(tu_text)
            txt = run_clang(src, flags)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.sha = hashlib.sha256(txt.encode()).hexdigest()[:16]
        self._tu, self._outside = (tu_text, flags, name), {}
        self.roots = _load_many(txt)
        self.decls = {}       # id -> node
        self.records = {}     # canonical type key -> record node
        self.rec_by_id = {}
        self.funcs = {}       # qualified name -> [function nodes]
        self.enums = {}
        self.globals = {}
        self._file, self._line = None, None
        seen = set()
        for r in self.roots:
            if r.get("id") in seen:
                continue
            seen.add(r.get("id"))
            self._index(r, [], None, False)
        self._defs = {}
        for i, n in self.decls.items():
            if n["kind"] in FUNCS and has_body(n):
                self._defs[i] = n
        for i, n in list(self._defs.items()):
            p = n.get("previousDecl")
            while p:
                self._defs.setdefault(p, n)
                pn = self.decls.get(p)
                p = pn.get("previousDecl") if pn else None
        # later redeclarations pointing back at definitions
        for i, n in self.decls.items():
            if n["kind"] in FUNCS and i not in self._defs:
                p = n.get("previousDecl")
                while p:
                    if p in self._defs:
                        self._defs[i] = self._defs[p]
                        break
                    pn = self.decls.get(p)
                    p = pn.get("previousDecl") if pn else None

    def _locs(self, n):
        # clang prints file/line only when they change, in traversal order
        def upd(l):
            if not l:
                return
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    upd(l[k])
            if "file" in l:
                self._file = l["file"]
            if "line" in l:
                self._line = l["line"]
        upd(n.get("loc"))
        upd((n.get("range") or {}).get("begin"))
        n["_loc"] = (self._file, self._line)
        upd((n.get("range") or {}).get("end"))

    def _index(self, n, path, rec, intpl):
        self._locs(n)
        k = n.get("kind")
        if k is None:
            return
        if "id" in n and (k.endswith("Decl")):
            old = self.decls.get(n["id"])
            if old is None or (not old.get("inner") and n.get("inner")):
                self.decls[n["id"]] = n
        n["_intpl"] = intpl
        sub = path
        if k in ("NamespaceDecl",):
            sub = path + [n.get("name", "")]
        elif k in RECORDS:
            nm = n.get("name", "")
            targs = [c for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"] \
                if k.startswith("ClassTemplate") else []
            if "parentDeclContextId" in n and n["parentDeclContextId"] in self.decls:
                path = self.decls[n["parentDeclContextId"]].get("_qual", path)
            n["_qual"] = path + [nm]
            args = []
            for a in _flat_targs(targs):
                if a.get("isPack") and not a.get("inner"):
                    continue            # an empty pack
                if "type" in a:
                    args.append(typeof(a))
                elif "value" in a:
                    args.append(T(str(a["value"])))
                else:
                    args.append(T("?"))
            n["_targs"] = args
            n["_T"] = T("::".join(x for x in n["_qual"] if x), args)
            if n.get("completeDefinition") and nm:
                # (a template with an empty argument list has the key of its pattern)
                old = self.records.get(n["_T"].key())
                if old is None or (old.get("_intpl") and not intpl):
                    self.records[n["_T"].key()] = n
            self.rec_by_id[n["id"]] = n
            sub = n["_qual"]
            rec = n
        elif k in FUNCS:
            pid = n.get("parentDeclContextId")
            if pid and pid in self.decls and self.decls[pid]["kind"] in RECORDS:
                rec = self.decls[pid]
                path = rec["_qual"]
            elif n.get("previousDecl") in self.decls:
                p = self.decls[n["previousDecl"]]
                rec = p.get("_rec") or rec
                path = p["_qualp"]
            n["_qualp"] = path
            n["_rec"] = rec
            n["_qual"] = path + [n.get("name", "")]
            self.funcs.setdefault("::".join(x for x in n["_qual"] if x), []).append(n)
            sub = n["_qual"]
        elif k == "EnumDecl":
            n["_qual"] = path + [n.get("name", "")]
            n["_T"] = T("::".join(x for x in n["_qual"] if x))
            self.enums[n["_T"].key()] = n
            v = 0
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    for e in c.get("inner", []):
                        cv = _const(e)
                        if cv is not None:
                            v = cv
                    c["_value"] = v
                    c["_enum"] = n["_T"]
                    self.decls[c["id"]] = c
                    v += 1
        elif k == "VarDecl":
            n["_qual"] = path + [n.get("name", "")]
            n["_rec"] = rec
            self.globals.setdefault("::".join(x for x in n["_qual"] if x), n)
        tpl = intpl
        inner = n.get("inner", [])
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in inner:
                ck = c.get("kind")
                if ck in RECORDS or ck in FUNCS:
                    # the first one is the uninstantiated pattern
                    self._index(c, sub, rec, intpl or first)
                    first = False
                elif isinstance(c, dict):
                    self._index(c, sub, rec, True)
            return
        if k == "ClassTemplatePartialSpecializationDecl":
            tpl = True
        for c in inner:
            if isinstance(c, dict):
                self._index(c, sub, rec, tpl)

    # -- lookups
    def definition(self, nid):
        return self._defs.get(nid)

    def find(self, qual, pred=None):
        """Definitions with this qualified name (instantiated ones only)."""
        out, seen = [], set()
        for f in self.funcs.get(qual, []):
            d = self._defs.get(f["id"])
            if d is None or d["id"] in seen or d.get("_intpl"):
                continue
            seen.add(d["id"])
            if pred is None or pred(d):
                out.append(d)
        return out

    def outside(self, name, qt):
        """definition of a function of the repository that is in no namespace (or in an unnamed one)"""
        if name not in self._outside:
            self._outside[name] = []
            d = tempfile.mkdtemp(prefix="vp_tu_")
            try:
                src = os.path.join(d, self._tu[2] + ".cpp")
                with open(src, "w") as f:
                    f.write(self._tu[0])
                txt = run_clang(src, self._tu[1], name)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            # another run of clang: other identifiers
            txt = re.sub(r'"(id|previousDecl|parentDeclContextId|referencedMemberDecl|targetLabelDeclId|declId)": "0x',
                         r'"\1": "%d:0x' % len(self._outside), txt)
            mine = set(self.decls)
            seen = {self.decls[i].get("_loc") for i in mine if self.decls[i].get("name") == name}       # in a namespace
            for r in _load_many(txt):
                if r.get("kind") in FUNCS and r.get("name") == name:
                    self._file = None
                    self._index(r, [], None, False)
                    if has_body(r) and str(r["_loc"][0]).startswith(REPO + "/") and r["_loc"] not in seen:
                        self._defs[r["id"]] = r
                        self._relink(r, mine)
                        self._outside[name].append(r)
        c = self._outside[name]
        c = [x for x in c if qualtype(x) == qt] if len(c) > 1 else c
        return c[0] if len(c) == 1 else None

    def _relink(self, n, mine):
        """references to functions of the first run, by name and type"""
        rd = n.get("referencedDecl")
        if isinstance(rd, dict) and rd.get("kind") in FUNCS and rd["id"] not in self.decls:
            c = {self.decls[i]["id"] for i in mine if self.decls[i]["kind"] in FUNCS
                 and self.decls[i].get("name") == rd.get("name") and qualtype(self.decls[i]) == qualtype(rd)}
            c = {self._defs[i]["id"] if i in self._defs else i for i in c}
            if len(c) == 1:
                rd["id"] = c.pop()
        for v in n.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    self._relink(x, mine)

    def enum_value(self, qual):
        """value of the enumerator with this qualified name"""
        en, _, nm = qual.rpartition("::")
        d = self.enums.get(T(en).key())
        for c in (d or {}).get("inner", []):
            if c.get("kind") == "EnumConstantDecl" and c.get("name") == nm:
                return c["_value"]
        raise Unsupported("enumerator " + qual)

    def record(self, t):
        r = self.records.get(t.noref().key() if t.ref else t.key())
        if r is None:
            cand = [v for kk, v in self.records.items() if kk == t.key() or kk.endswith("::" + t.key())]
            if len(cand) == 1:
                r = cand[0]
            elif t.args:            # written without its default arguments
                a = [x.key() for x in t.args]
                cand = [v for v in self.records.values() if v["_T"].name == t.name and len(v["_T"].args) > len(a)
                        and [x.key() for x in v["_T"].args[:len(a)]] == a]
                if len(cand) == 1:
                    r = cand[0]
            if r is None and t.args and any("::" in x.name for x in t.args):
                v = [self._enumerator(x) for x in t.args]
                if v != list(t.args):
                    return self.record(T(t.name, v))
            if r is None and "<" in t.name:         # a class inside a class template
                v, d = "", 0
                for c in t.name:
                    d += c == "<"
                    v += c if d == 0 else ""
                    d -= c == ">"
                if v != t.name and v.count("<") == 0:
                    return self.record(T(v, t.args))
        return r

    def _enumerator(self, t):
        """the value of an enumerator that is an argument of a template"""
        en, _, nm = t.name.rpartition("::")
        if t.args or t.ptr or not en:
            return t
        c = [d for k, d in self.enums.items() if k == en or k.endswith("::" + en)]
        for x in (c[0].get("inner", []) if len(c) == 1 else []):
            if x.get("kind") == "EnumConstantDecl" and x.get("name") == nm:
                return T(str(x["_value"]))
        return t


FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")
RECORDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")


def _flat_targs(ts):
    out = []
    for a in ts:
        if a.get("kind") == "TemplateArgument" and "type" not in a and "value" not in a and a.get("inner") \
                and all(c.get("kind") == "TemplateArgument" for c in a["inner"]):
            out += _flat_targs(a["inner"])
        else:
            out.append(a)
    return out


def _const(e):
    if e.get("kind") == "ConstantExpr" and "value" in e:
        try:
            return int(e["value"])
        except ValueError:
            return None
    for c in e.get("inner", []):
        v = _const(c)
        if v is not None:
            return v
    if e.get("kind") == "IntegerLiteral":
        return int(e["value"])
    return None


def has_body(n):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])) or \
        n.get("explicitlyDefaulted") == "default"


def body_of(n):
    for c in n.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def params_of(n):
    return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def show(n, d=0, maxd=40):
    """Compact rendering of an AST, for debugging."""
    if not isinstance(n, dict) or "kind" not in n:
        return
    x = []
    for k in ("name", "opcode", "castKind", "value", "isArrow", "valueCategory", "isPostfix", "cleanupsHaveSideEffects"):
        if k in n and n[k] is not False:
            x.append("%s=%s" % (k, n[k]))
    if "type" in n:
        x.append(":: " + repr(typeof(n)))
    if "referencedDecl" in n:
        x.append("-> " + n["referencedDecl"].get("name", "") + "#" + n["referencedDecl"]["id"][-5:])
    if "referencedMemberDecl" in n:
        x.append("~> " + n["referencedMemberDecl"][-5:])
    print("  " * d + n["kind"], " ".join(map(str, x)))
    if d < maxd:
        for c in n.get("inner", []):
            show(c, d + 1, maxd)


if __name__ == "__main__":
    import sys
    p = Program(open(sys.argv[1]).read())
    for q in sys.argv[2:]:
        for f in p.find(q):
            show(f)


def walk(n):
    """n and everything below it"""
    yield n
    for c in n.get("inner", ()):
        yield from walk(c)
