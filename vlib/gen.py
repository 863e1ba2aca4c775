"""Bounded exhaustive exploration of the protocol generator (C06, C18, C22).

The model is a description of a protocol (types, functions, events) with a reference meaning: which protocols are
valid, what every value looks like on the wire, what a structure owns.  Every protocol inside the bounds is written out
as a .gr file, the repository's generator is run on it, its output is compiled, and a driver written from the model alone
walks every message and every value of the bounded domains through the generated stubs and compares with the model.
Nothing here looks at the generated text: only at exit statuses, the C compiler, and what the compiled code does."""
import glob, itertools, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = "clang"
CFLAGS = ["-std=gnu11", "-O0", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"]
NCPU = min(8, os.cpu_count() or 8)
HDR = 11
SYNC, ASYNC, EVENT, RESPONSE = 0, 1, 2, 3


# ---------------------------------------------------------------- the model: types, values, encoding
class Prim:
    kind = "prim"

    def __init__(self, name, ctype, fmt, dom):
        self.name, self.ctype, self.fmt, self.vals = name, ctype, fmt, dom

    def ct(self, ns):
        return self.ctype

    def enc(self, v):
        return struct.pack("<" + self.fmt, v)

    def dom(self, k):
        return self.vals[:k]


def _int(name, ctype, fmt):
    n = struct.calcsize("<" + fmt) * 8
    pat = int.from_bytes(bytes(0x81 + 7 * i for i in range(n // 8)), "little")
    if fmt.islower():
        vals = [pat - (1 << n), 0, -1, (1 << (n - 1)) - 1, -(1 << (n - 1)), 1]
    else:
        vals = [pat, 0, (1 << n) - 1, 1, 1 << (n - 1)]
    return Prim(name, ctype, fmt, vals)


INTS = [_int(*x) for x in (("uint8", "uint8_t", "B"), ("int8", "int8_t", "b"), ("uint16", "uint16_t", "H"),
                           ("int16", "int16_t", "h"), ("uint32", "uint32_t", "I"), ("int32", "int32_t", "i"),
                           ("uint64", "uint64_t", "Q"), ("int64", "int64_t", "q"), ("uint", "unsigned int", "I"),
                           ("int", "int", "i"), ("long", "long", "q"), ("ulong", "size_t", "Q"))]
BOOL = Prim("bool", "uint8_t", "B", [1, 0])
FLOAT = Prim("float", "float", "f", [-2.25, 0.0, 1.5, float("inf")])
DOUBLE = Prim("double", "double", "d", [1e300, 0.0, -0.1, float("-inf")])
PRIMS = INTS + [BOOL, FLOAT, DOUBLE]


class Str:
    kind, name = "str", "string"

    def ct(self, ns):
        return "char*"

    def enc(self, v):
        return struct.pack("<I", len(v)) + v + b"\0"

    def dom(self, k):
        return [b"hey", b"", b"x\x80\xff%s\"\n", bytes(1 + i % 255 for i in range(300)), b"a"][:k]


STR = Str()


class Enum:
    kind = "enum"

    def __init__(self, name, values):      # values: [(name, explicit or None)]
        self.name, self.values = name, values

    def numbers(self):
        out, nxt = [], 0
        for n, v in self.values:
            if v is not None:
                nxt = v
            out.append((n, nxt))
            nxt += 1
        return out

    ns = None

    def ct(self, ns):
        return "enum %s_%s" % ((self.ns or ns).lower(), self.name.lower())

    def enc(self, v):
        return struct.pack("<i", v)

    def dom(self, k):
        return [v for _, v in self.numbers()][::-1][:k]

    def gr(self):
        return "enum %s {\n%s\n}\n" % (self.name, ",\n".join("  %s%s" % (n, "" if v is None else " = %d" % v) for n, v in self.values))


class Def(Prim):
    kind = "prim"

    def __init__(self, name, header, fmt):
        Prim.__init__(self, name, name, fmt, _int("x", "x", fmt).vals)
        self.header = header

    def gr(self):
        return 'define %s from "%s"\n' % (self.name, self.header)


class Mem:
    def __init__(self, t, name, arr=False):
        self.t, self.name, self.arr = t, name, arr

    def gr(self):
        return "%s%s %s" % (self.t.name, "[]" if self.arr else "", self.name)

    def enc(self, v):
        if not self.arr:
            return self.t.enc(v)
        return struct.pack("<I", len(v)) + b"".join(self.t.enc(x) for x in v)

    def dom(self, k):
        if not self.arr:
            return self.t.dom(k)
        d = self.t.dom(6)
        out = [[d[0], d[-1]], [], [d[i % len(d)] for i in range(3)], [d[-1]]]
        if self.t.kind in ("prim", "enum"):
            out.append([d[(i // 7) % len(d)] for i in range(70)])
        return out[:k]


class Var:
    arr = False

    def __init__(self, name, entries):
        self.name, self.entries = name, entries

    def gr(self):
        return "variant %s {\n%s  }" % (self.name, "".join("    %s;\n" % e.gr() for e in self.entries))

    def enc(self, v):
        i, x = v
        return bytes([0]) if i < 0 else bytes([i + 1]) + self.entries[i].enc(x)

    def dom(self, k):
        out = [(i, x) for i, e in enumerate(self.entries) for x in e.dom(max(1, min(k, 3)))]
        out.insert(min(1, len(out)), (-1, None))
        return out if k >= 3 else out[:max(k, 1)]


class Ext:
    def __init__(self, s):
        self.s = s

    def gr(self):
        return self.s.name


class Struct:
    kind = "struct"

    def __init__(self, name, members):
        self.name, self.members = name, members

    def flat(self):
        out = []
        for m in self.members:
            out += m.s.flat() if isinstance(m, Ext) else [m]
        return out

    def deps(self):
        for m in self.members:
            for t in ([m.s] if isinstance(m, Ext) else [e.t for e in m.entries] if isinstance(m, Var) else [m.t]):
                if t.kind == "struct" and t is not self:
                    yield t

    ns = None

    def ct(self, ns):
        return "struct %s_%s" % ((self.ns or ns).lower(), self.name.lower())

    def enc(self, v):
        return b"".join(m.enc(x) for m, x in zip(self.flat(), v))

    def dom(self, k):
        f = self.flat()
        if any(m for m in f if not isinstance(m, Var) and m.t is self):     # a tree: two levels
            def tree(lv):
                doms = []
                for m in f:
                    if m.t is self:
                        doms.append([[]] if lv == 0 else [[], tree(0)[:1], tree(lv - 1)[:2]])
                    else:
                        doms.append(m.dom(2))
                return [tuple(x) for x in itertools.product(*doms)]
            return tree(2)[::-1][:max(k, 1)]
        n = len(f)
        w = 6 if n <= 1 else 4 if n == 2 else 3 if n == 3 else 2
        w = min(w, max(k, 1))
        allv = [tuple(x) for x in itertools.product(*[m.dom(w) for m in f])]
        if k >= 6:
            return allv
        step = max(1, len(allv) // k)
        return allv[::step][:k]

    def gr(self):
        return "struct %s {\n%s}\n" % (self.name, "".join("  %s%s\n" % (m.gr(), "" if isinstance(m, Var) else ";") for m in self.members))


class Fn:
    def __init__(self, name, id, req, rsp):
        self.name, self.id, self.req, self.rsp = name, id, req, rsp

    def gr(self):
        return "  func %s(%s) : (%s) = %s;\n" % (self.name, ", ".join(p.gr() for p in self.req), ", ".join(p.gr() for p in self.rsp), self.id)


class Ev:
    def __init__(self, name, id, par, short=False):
        self.name, self.id, self.par, self.short = name, id, par, short

    def gr(self):
        if self.short:
            return "  event %s : %s = %s;\n" % (self.name, self.par[0].t.name, self.id)
        return "  event %s : (%s) = %s;\n" % (self.name, ", ".join(p.gr() for p in self.par), self.id)


class Proto:
    """decls: Enum/Def/Struct in the order in which they are written; used: all structs by name"""
    def __init__(self, name, decls, fns, evs, ns="vg", svc="s", sid=7):
        self.name, self.decls, self.fns, self.evs, self.ns, self.svc, self.sid = name, decls, fns, evs, ns, svc, sid

    def gr(self):
        return "namespace %s\n%s\nservice %s (%s) {\n%s%s}\n" % (self.ns, "".join(d.gr() for d in self.decls), self.svc, self.sid,
                                                                  "".join(f.gr() for f in self.fns), "".join(e.gr() for e in self.evs))

    def num(self, x):
        return int(str(x), 0)


# ---------------------------------------------------------------- running the generator and the compiler
class Fail(Exception):
    pass


def generate(gr, out, extra=(), cwd=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    cmd = ["python3", REPO + "/generator/parser.py", "--service", gr, "--out", out, "--lang-c"] + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=cwd, timeout=120)
    except subprocess.TimeoutExpired:
        return 99, "the generator does not finish"
    return p.returncode, p.stdout


def cc(args):
    p = subprocess.run([CC] + CFLAGS + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


# ---------------------------------------------------------------- the driver, written from the model
RT = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
extern int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static long g_live; static int g_track;
static void hm(const volatile void* p, size_t n) { if (g_track && p) g_live++; }
static void hf(const volatile void* p) { if (g_track && p) g_live--; }
static const uint8_t* P;
static int g_null, g_bad, g_cap;
static char g_what[512];
static unsigned long g_steps, g_cases;
static const char* g_msg = "";
#define BAD(...) do { if (!g_bad) { snprintf(g_what, sizeof g_what, __VA_ARGS__); } g_bad = 1; } while (0)
static uint32_t rd32(void) { uint32_t v; memcpy(&v, P, 4); P += 4; return v; }
static uint8_t rd8(void) { return *P++; }
static char* mk_str(void) {
    uint32_t n = rd32(); char* s;
    if (n == 0 && g_null) { P += 1; return NULL; }
    s = malloc(n + 1); memcpy(s, P, n); s[n] = 0; P += n + 1; return s;
}
static int eq_str(const char* s) {      /* must be there, same length, same bytes */
    uint32_t n = rd32(); const uint8_t* d = P; P += n + 1;
    if (!s) { return 0; }
    return strlen(s) == n && memcmp(s, d, n) == 0;
}
static int eq_strn(const char* s) {     /* a copy: NULL stays NULL */
    uint32_t n = rd32(); const uint8_t* d = P; P += n + 1;
    if (n == 0 && g_null) return s == NULL;
    return s && strlen(s) == n && memcmp(s, d, n) == 0;
}
static int (*g_eqs)(const char*) = eq_str;
static uint8_t* slurp(const char* f, long* n) {
    FILE* x = fopen(f, "rb"); uint8_t* b; if (!x) exit(97);
    fseek(x, 0, SEEK_END); *n = ftell(x); rewind(x); b = malloc(*n + 1); if (fread(b, 1, *n, x) != (size_t)*n) exit(97); fclose(x); return b;
}
static int g_fails;
static void report(int kind, const char* modes, const uint8_t* pay, uint32_t len) {
    uint32_t i;
    if (g_fails++ < 8) {
        printf("FAIL %s %s: %s; value bytes:", g_msg, modes, g_what);
        for (i = 0; i < len && i < 80; i++) printf(" %02x", pay[i]);
        printf("%s\n", len > 80 ? " ..." : ""); fflush(stdout);
    }
}
'''

RT2 = r'''
struct gracht_client { int x; } static g_client; struct gracht_server { int x; } static g_server;
static struct gracht_message_context g_ctx = { 77 };
static struct gracht_message g_message = { .server = &g_server, .client = 5 };
static char* g_out; static uint32_t g_outcap, g_outlen; static int g_sent, g_getfail;
static gracht_conn_t g_sentto; static int g_sendret;
static int getbuf(gracht_buffer_t* b) {
    if (g_getfail) return g_getfail;
    g_out = malloc(g_outcap); memset(g_out, 0xEE, g_outcap); b->data = g_out; b->index = 0; return 0;
}
static int sent(gracht_buffer_t* b) { if (b->data != g_out) BAD("a different buffer is sent"); g_outlen = b->index; g_sent++; return g_sendret; }
int gracht_client_get_buffer(gracht_client_t* c, gracht_buffer_t* b) { if (c != (void*)&g_client) BAD("wrong client"); return getbuf(b); }
int gracht_server_get_buffer(gracht_server_t* s, gracht_buffer_t* b) { if (s != (void*)&g_server) BAD("wrong server"); return getbuf(b); }
static struct gracht_message_context* g_sentctx;
int gracht_client_invoke(gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b) {
    if (c != (void*)&g_client) BAD("wrong client"); g_sentctx = x; return sent(b); }
int gracht_server_respond(struct gracht_message* m, gracht_buffer_t* b) { if (m != &g_message) BAD("response to a different message"); return sent(b); }
int gracht_server_send_event(gracht_server_t* s, gracht_conn_t c, gracht_buffer_t* b, unsigned int f) {
    if (s != (void*)&g_server) BAD("wrong server"); g_sentto = c; return sent(b); }
int gracht_server_broadcast_event(gracht_server_t* s, gracht_buffer_t* b, unsigned int f) {
    if (s != (void*)&g_server) BAD("wrong server"); g_sentto = -1; return sent(b); }
static char* g_status; static int g_statusret, g_finret, g_finals;
int gracht_client_get_status_buffer(gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b) {
    if (c != (void*)&g_client || x != &g_ctx) BAD("status of a different call");
    if (g_statusret != GRACHT_MESSAGE_COMPLETED) return g_statusret;
    b->data = g_status; b->index = 11; return GRACHT_MESSAGE_COMPLETED; }
int gracht_client_status_finalize(gracht_client_t* c, struct gracht_buffer* b) {
    if (b->data != g_status) BAD("a different buffer is given back"); g_finals++; free(g_status); g_status = NULL; return g_finret; }

static int g_fired, g_fireid; static const uint8_t *g_exp, *g_end;
static void dispatch_server(gracht_protocol_t* p, int aid, gracht_buffer_t* b) {
    int i, n = 0;
    for (i = 0; i < p->num_functions; i++) if (p->functions[i].id == aid) {
        n++; if (n == 1) ((void (*)(struct gracht_message*, gracht_buffer_t*))p->functions[i].address)(&g_message, b); }
    if (n != 1) BAD("id %d is in the table %d times", aid, n);
}
static void dispatch_client(gracht_protocol_t* p, int aid, gracht_buffer_t* b) {
    int i, n = 0;
    for (i = 0; i < p->num_functions; i++) if (p->functions[i].id == aid) {
        n++; if (n == 1) ((void (*)(gracht_client_t*, gracht_buffer_t*))p->functions[i].address)((void*)&g_client, b); }
    if (n != 1) BAD("id %d is in the table %d times", aid, n);
}
static void check_sent(int r, int sid, int aid, int type, const uint8_t* pay, uint32_t len) {
    uint32_t i;
    if (g_bad) return;
    if (r != g_sendret) { BAD("the stub returns %d", r); return; }
    if (g_sent != 1) { BAD("the stub sends %d messages", g_sent); return; }
    if (g_outlen != 11 + len) { BAD("the message has %u bytes instead of %u", g_outlen, 11 + len); return; }
    if ((uint8_t)g_out[8] != sid || (uint8_t)g_out[9] != aid || (uint8_t)g_out[10] != type) {
        BAD("the header says service %u function %u type %u instead of %d %d %d", (uint8_t)g_out[8], (uint8_t)g_out[9], (uint8_t)g_out[10], sid, aid, type); return; }
    for (i = 0; i < len; i++) if ((uint8_t)g_out[11 + i] != pay[i]) {
        BAD("byte %u of the message is %02x instead of %02x", 11 + i, (uint8_t)g_out[11 + i], pay[i]); return; }
}
static int untouched(const void* p, size_t n) { size_t i; for (i = 0; i < n; i++) if (((const uint8_t*)p)[i] != 0xA5) return 0; return 1; }
'''


class Drv:
    def __init__(self, p):
        self.p, self.ns, self.o = p, p.ns, []
        self.cp = "%s_%s" % (p.ns.lower(), p.svc.lower())
        self.sp = "%s_%s" % (p.ns, p.svc)

    def w(self, s):
        self.o.append(s)

    # expressions working on the cursor P
    def sname(self, t):
        return "%s_%s" % ((t.ns or self.ns).lower(), t.name.lower())

    def mk(self, t, lv):
        """statements that set the lvalue lv from P"""
        if t.kind in ("prim",):
            return "memcpy(&%s, P, sizeof %s); P += sizeof %s;" % (lv, lv, lv)
        if t.kind == "enum":
            return "{ int _x; memcpy(&_x, P, 4); P += 4; %s = (%s)_x; }" % (lv, t.ct(self.ns))
        if t.kind == "str":
            return "%s = mk_str();" % lv
        return "mk_%s(&%s);" % (t.name, lv)

    def eq(self, t, rv, cond):
        if t.kind == "prim":
            return "if (memcmp(&%s, P, sizeof %s)) BAD(\"%s differs\"); P += sizeof %s;" % (rv, rv, cond, rv)
        if t.kind == "enum":
            return "{ int _x; memcpy(&_x, P, 4); P += 4; if ((int)%s != _x) BAD(\"%s differs\"); }" % (rv, cond)
        if t.kind == "str":
            return "if (!g_eqs(%s)) BAD(\"%s differs\");" % (rv, cond)
        return "eq_%s(&%s);" % (t.name, rv)

    def free(self, t, lv):
        if t.kind == "str":
            return "free((void*)%s);" % lv
        if t.kind == "struct":
            return "own_%s(&%s);" % (t.name, lv)
        return ""

    def structs(self):
        S = [d for d in self.p.decls if d.kind == "struct"]
        for s in S:
            ct = s.ct(self.ns)
            self.w("static void mk_%s(%s* o); static void eq_%s(const %s* o); static void own_%s(%s* o); static int zero_%s(const %s* o);" % (s.name, ct, s.name, ct, s.name, ct, s.name, ct))
        for s in S:
            ct = s.ct(self.ns)
            self.w("static void mk_%s(%s* o) { uint32_t i;" % (s.name, ct))
            for m in s.flat():
                if isinstance(m, Var):
                    self.w(" o->%s_type = rd8(); switch (o->%s_type) { case 0: break;" % (m.name, m.name))
                    for i, e in enumerate(m.entries):
                        self.w("  case %d: %s break;" % (i + 1, self.mk(e.t, "o->%s.%s" % (m.name, e.name))))
                    self.w(" }")
                elif m.arr:
                    self.w(" o->%s_count = rd32(); o->%s = (o->%s_count || !g_null) ? malloc(sizeof(%s) * o->%s_count) : NULL; for (i = 0; i < o->%s_count; i++) { %s }"
                           % (m.name, m.name, m.name, m.t.ct(self.ns), m.name, m.name, self.mk(m.t, "o->%s[i]" % m.name)))
                else:
                    self.w(" " + self.mk(m.t, "o->" + m.name))
            self.w("}")
            self.w("static void eq_%s(const %s* o) { uint32_t i;" % (s.name, ct))
            for m in s.flat():
                w = "%s.%s" % (s.name, m.name)
                if isinstance(m, Var):
                    self.w(" i = rd8(); if (o->%s_type != i) { BAD(\"%s has tag %%u instead of %%u\", o->%s_type, i); return; } switch (i) {" % (m.name, w, m.name))
                    for i, e in enumerate(m.entries):
                        self.w("  case %d: %s break;" % (i + 1, self.eq(e.t, "o->%s.%s" % (m.name, e.name), w + "." + e.name)))
                    self.w(" }")
                elif m.arr:
                    self.w(" { uint32_t n = rd32(); if (o->%s_count != n) { BAD(\"%s has %%u elements instead of %%u\", o->%s_count, n); return; } for (i = 0; i < n && !g_bad; i++) { %s } }"
                           % (m.name, w, m.name, self.eq(m.t, "o->%s[i]" % m.name, w + "[]")))
                else:
                    self.w(" " + self.eq(m.t, "o->" + m.name, w))
                self.w(" if (g_bad) return;")
            self.w("}")
            self.w("static int zero_%s(const %s* o) {" % (s.name, ct))
            for m in s.flat():
                if isinstance(m, Var):
                    self.w(" if (o->%s_type) return 0;" % m.name)
                elif m.arr:
                    self.w(" if (o->%s_count) return 0;" % m.name)
                elif m.t.kind == "struct":
                    self.w(" if (!zero_%s(&o->%s)) return 0;" % (m.t.name, m.name))
                else:
                    self.w(" { static const %s z; if (memcmp(&z, &o->%s, sizeof z)) return 0; }" % (m.t.ct(self.ns), m.name))
            self.w(" return 1; }")
            # releases a structure that mk_ made, without the generated helpers
            self.w("static void own_%s(%s* o) { uint32_t i;" % (s.name, ct))
            for m in s.flat():
                if isinstance(m, Var):
                    self.w(" switch (o->%s_type) {" % m.name)
                    for i, e in enumerate(m.entries):
                        self.w("  case %d: %s break;" % (i + 1, self.free(e.t, "o->%s.%s" % (m.name, e.name))))
                    self.w(" }")
                elif m.arr:
                    self.w(" for (i = 0; i < o->%s_count; i++) { %s } free(o->%s);" % (m.name, self.free(m.t, "o->%s[i]" % m.name), m.name))
                else:
                    self.w(" " + self.free(m.t, "o->" + m.name))
            self.w(" memset(o, 0xDD, sizeof *o); }")

    def locals(self, params):
        for q in params:
            if q.arr:
                self.w(" %s* l_%s; uint32_t l_%s_count;" % (q.t.ct(self.ns), q.name, q.name))
            else:
                self.w(" %s l_%s;" % (q.t.ct(self.ns), q.name))

    def build(self, params):
        self.w(" P = pay;")
        for q in params:
            if q.arr:
                self.w(" l_%s_count = rd32(); l_%s = (l_%s_count || !g_null) ? malloc(sizeof(*l_%s) * l_%s_count) : NULL; for (i = 0; i < l_%s_count; i++) { %s }"
                       % (q.name, q.name, q.name, q.name, q.name, q.name, self.mk(q.t, "l_%s[i]" % q.name)))
            else:
                self.w(" " + self.mk(q.t, "l_" + q.name))

    def args(self, params):
        o = []
        for q in params:
            if q.arr:
                o += ["(void*)l_" + q.name, "l_%s_count" % q.name]
            else:
                o.append(("&l_" if q.t.kind == "struct" else "l_") + q.name)
        return "".join(", " + x for x in o)

    def release(self, params):
        for q in params:
            if q.arr:
                self.w(" for (i = 0; i < l_%s_count; i++) { %s } memset(l_%s, 0xDD, sizeof(*l_%s) * (l_%s ? l_%s_count : 0)); free(l_%s);"
                       % (q.name, self.free(q.t, "l_%s[i]" % q.name), q.name, q.name, q.name, q.name, q.name))
            else:
                self.w(" " + self.free(q.t, "l_" + q.name))

    def formals(self, params):
        o = ""
        for q in params:
            ct = q.t.ct(self.ns)
            if q.arr:
                o += ", const %s* a_%s, const uint32_t a_%s_count" % (ct, q.name, q.name)
            elif q.t.kind == "struct":
                o += ", const %s* a_%s" % (ct, q.name)
            else:
                o += ", const %s a_%s" % (ct, q.name)
        return o

    def received(self, params, fid):
        self.w(" uint32_t i; g_fired++; g_fireid = %d; P = g_exp;" % fid)
        for q in params:
            if q.arr:
                self.w(" { uint32_t n = rd32(); if (n != a_%s_count) { BAD(\"%s has %%u elements instead of %%u\", a_%s_count, n); return; } for (i = 0; i < n && !g_bad; i++) { %s } }"
                       % (q.name, q.name, q.name, self.eq(q.t, "a_%s[i]" % q.name, q.name + "[]")))
            elif q.t.kind == "struct":
                self.w(" eq_%s(a_%s);" % (q.t.name, q.name))
            else:
                self.w(" " + self.eq(q.t, "a_" + q.name, q.name))
            self.w(" if (g_bad) return;")
        self.w(" if (P != g_end) exit(96);")

    def message_driver(self):
        p = self.p
        self.w('#include "%s_%s_service_client.h"\n#include "%s_%s_service_server.h"' % (p.ns, p.svc, p.ns, p.svc))
        self.w(RT); self.w(RT2)
        self.structs()
        sid = p.num(p.sid)
        for k, f in enumerate(p.fns):
            fid = p.num(f.id)
            self.w("void %s_%s_invocation(struct gracht_message* message%s) {" % (self.sp, f.name, self.formals(f.req)))
            self.w(" if (message != &g_message) BAD(\"the callback gets a different message\");")
            self.received(f.req, fid)
            self.w("}")
            self.w("static void t_req%d(const uint8_t* pay, uint32_t len) { uint32_t i; int r; gracht_buffer_t b; g_exp = pay; g_end = pay + len;" % k)
            self.locals(f.req); self.build(f.req)
            self.w(" g_outcap = 11 + len; g_sent = 0; g_sentctx = NULL; r = %s_%s((void*)&g_client, &g_ctx%s);" % (self.cp, f.name, self.args(f.req)))
            self.w(" check_sent(r, %d, %d, %d, pay, len); if (!g_bad && g_sentctx != &g_ctx) BAD(\"sent with a different context\");" % (sid, fid, SYNC if f.rsp else ASYNC))
            self.release(f.req)
            self.w(" if (!g_bad) { g_fired = 0; b.data = g_out; b.index = 11; dispatch_server(&%s_server_protocol, %d, &b);" % (self.sp, fid))
            self.w("  if (!g_bad && (g_fired != 1 || g_fireid != %d)) BAD(\"%%d callbacks run, the last for id %%d\", g_fired, g_fireid); }" % fid)
            self.w(" free(g_out); g_out = NULL;")
            # a stub that gets no buffer reports it and sends nothing
            self.w(" if (!g_bad) { g_getfail = -5; g_sent = 0;"); self.build(f.req)
            self.w("  r = %s_%s((void*)&g_client, &g_ctx%s); g_getfail = 0; if (r != -5 || g_sent) BAD(\"without a buffer the stub returns %%d and sends %%d\", r, g_sent);" % (self.cp, f.name, self.args(f.req)))
            self.release(f.req)
            self.w(" } }")
            if not f.rsp:
                continue
            self.w("static void t_rsp%d(const uint8_t* pay, uint32_t len) { uint32_t i; int r, c;" % k)
            self.locals(f.rsp); self.build(f.rsp)
            self.w(" g_outcap = 11 + len; g_sent = 0; r = %s_%s_response(&g_message%s);" % (self.sp, f.name, self.args(f.rsp)))
            self.w(" check_sent(r, %d, %d, %d, pay, len);" % (sid, fid, RESPONSE))
            self.release(f.rsp)
            self.w(" if (!g_bad) { g_getfail = -5; g_sent = 0;"); self.build(f.rsp)
            self.w("  r = %s_%s_response(&g_message%s); g_getfail = 0; if (r != -5 || g_sent) BAD(\"without a buffer the stub returns %%d and sends %%d\", r, g_sent);" % (self.sp, f.name, self.args(f.rsp)))
            self.release(f.rsp)
            self.w(" }")
            # the result: status first, then with room for everything, one more, one less, none
            self.w(" for (c = 0; c < 6 && !g_bad; c++) { int st = c == 4 ? GRACHT_MESSAGE_INPROGRESS : c == 5 ? GRACHT_MESSAGE_ERROR : GRACHT_MESSAGE_COMPLETED;")
            call = ""
            self.w("  P = pay; g_statusret = st; g_finals = 0; g_finret = c == 1 ? -9 : 0; g_cap = c;")
            for q in f.rsp:
                if q.arr:
                    self.w("  uint32_t n_%s, cap_%s; %s* o_%s; { n_%s = rd32(); cap_%s = c == 1 ? n_%s + 1 : c == 2 ? (n_%s ? n_%s - 1 : 0) : c == 3 ? 0 : n_%s; o_%s = malloc(sizeof(*o_%s) * cap_%s); memset(o_%s, 0xA5, sizeof(*o_%s) * cap_%s); for (i = 0; i < n_%s; i++) { %s } }"
                           % ((q.name, q.name, q.t.ct(self.ns)) + (q.name,) * 14 + (self.skip(q.t),)))
                    call += ", (void*)o_%s, cap_%s" % (q.name, q.name)
                elif q.t.kind == "str":
                    self.w("  uint32_t n_%s, cap_%s; char* o_%s; { n_%s = rd32(); P += n_%s + 1; cap_%s = c == 1 ? n_%s + 2 : c == 2 ? (n_%s ? n_%s : 1) : c == 3 ? 1 : n_%s + 1; o_%s = malloc(cap_%s); memset(o_%s, 0xA5, cap_%s); }" % ((q.name,) * 14))
                    call += ", o_%s, cap_%s" % (q.name, q.name)
                else:
                    self.w("  %s* o_%s = malloc(sizeof(*o_%s)); memset(o_%s, 0xA5, sizeof(*o_%s)); { %s }" % (q.t.ct(self.ns), q.name, q.name, q.name, q.name, self.skip(q.t)))
                    call += ", o_%s" % q.name
            self.w("  g_status = malloc(11 + len); memset(g_status, 0x77, 11); memcpy(g_status + 11, pay, len);")
            self.w("  r = %s_%s_result((void*)&g_client, &g_ctx%s);" % (self.cp, f.name, call))
            self.w("  if (st != GRACHT_MESSAGE_COMPLETED) { if (r != st) BAD(\"the result of an unfinished call is %d\", r); if (g_finals) BAD(\"an unfinished call is given back\"); free(g_status);")
            for q in f.rsp:
                n = "sizeof(*o_%s)%s" % (q.name, " * cap_%s" % q.name if q.arr else "") if q.t.kind != "str" or q.arr else "cap_%s" % q.name
                self.w("   if (!untouched(o_%s, %s)) BAD(\"%s is written by an unfinished call\"); free(o_%s);" % (q.name, n, q.name, q.name))
            self.w("  } else { if (r != (g_finret ? g_finret : GRACHT_MESSAGE_COMPLETED)) BAD(\"the result stub returns %d\", r); if (g_finals != 1) BAD(\"the result buffer is given back %d times\", g_finals); P = pay;")
            for q in f.rsp:
                if q.arr:
                    self.w("   P += 4; for (i = 0; i < n_%s && !g_bad; i++) { if (i < cap_%s) { %s %s } else { %s } } if (!g_bad && cap_%s > n_%s && !untouched(&o_%s[n_%s], sizeof(*o_%s) * (cap_%s - n_%s))) BAD(\"%s is written past its %%u elements\", n_%s); free(o_%s);"
                           % (q.name, q.name, self.eq(q.t, "o_%s[i]" % q.name, q.name + "[]"), self.destroy(q.t, "o_%s[i]" % q.name), self.skip(q.t),
                              q.name, q.name, q.name, q.name, q.name, q.name, q.name, q.name, q.name, q.name))
                elif q.t.kind == "str":
                    self.w("   if (!g_bad) { uint32_t m = n_%s < cap_%s ? n_%s : cap_%s - 1; P += 4; if (memcmp(o_%s, P, m) || o_%s[m] || !untouched(o_%s + m + 1, cap_%s - m - 1)) BAD(\"%s differs\"); P += n_%s + 1; } free(o_%s);" % ((q.name,) * 11))
                else:
                    self.w("   if (!g_bad) { %s %s } free(o_%s);" % (self.eq(q.t, "(*o_%s)" % q.name, q.name), self.destroy(q.t, "(*o_%s)" % q.name), q.name))
            self.w("  } } free(g_out); g_out = NULL; }")
        for k, e in enumerate(p.evs):
            fid = p.num(e.id)
            self.w("void %s_event_%s_invocation(gracht_client_t* client%s) {" % (self.sp, e.name, self.formals(e.par)))
            self.w(" if (client != (void*)&g_client) BAD(\"the callback gets a different client\");")
            self.received(e.par, 1000 + fid)
            self.w("}")
            self.w("static void t_ev%d(const uint8_t* pay, uint32_t len) { uint32_t i; int r, v; gracht_buffer_t b; g_exp = pay; g_end = pay + len;" % k)
            self.locals(e.par)
            self.w(" for (v = 0; v < 2 && !g_bad; v++) {"); self.build(e.par)
            self.w(" g_outcap = 11 + len; g_sent = 0; g_sentto = -7; r = v ? %s_event_%s_all((void*)&g_server%s) : %s_event_%s_single((void*)&g_server, 42%s);"
                   % (self.sp, e.name, self.args(e.par), self.sp, e.name, self.args(e.par)))
            self.w(" check_sent(r, %d, %d, %d, pay, len); if (!g_bad && g_sentto != (v ? -1 : 42)) BAD(\"the event goes to %%d\", (int)g_sentto);" % (sid, fid, EVENT))
            self.release(e.par)
            self.w(" if (!g_bad) { g_fired = 0; b.data = g_out; b.index = 11; dispatch_client(&%s_client_protocol, %d, &b);" % (self.sp, fid))
            self.w("  if (!g_bad && (g_fired != 1 || g_fireid != %d)) BAD(\"%%d callbacks run, the last for id %%d\", g_fired, g_fireid); }" % (1000 + fid))
            self.w(" free(g_out); g_out = NULL; } }")
        # the tables, and the two control calls
        self.w("static void t_tables(void) { int r; (void)r;")
        if p.fns:
            self.w(" { gracht_protocol_t* t = &%s_server_protocol; if (t->id != %d || t->num_functions != %d) BAD(\"the server table has service %%d with %%d functions\", t->id, t->num_functions); }" % (self.sp, sid, len(p.fns)))
        if p.evs:
            self.w(" { gracht_protocol_t* t = &%s_client_protocol; if (t->id != %d || t->num_functions != %d) BAD(\"the client table has service %%d with %%d events\", t->id, t->num_functions); }" % (self.sp, sid, len(p.evs)))
        for n, a in (("subscribe", 0), ("unsubscribe", 1)):
            self.w(" { static const uint8_t pay[1] = { %d }; g_outcap = 12; g_sent = 0; r = %s_%s((void*)&g_client, NULL); check_sent(r, 0, %d, %d, pay, 1); free(g_out); g_out = NULL; }" % (sid, self.cp, n, a, ASYNC))
        for name, val in self.enum_consts():
            self.w(" if ((int)%s != (%d)) BAD(\"%s is %%d\", (int)%s);" % (name, val, name, name))
        self.w("}")
        self.w("static void (*T[])(const uint8_t*, uint32_t) = {")
        names, kinds = [], []
        for k, f in enumerate(p.fns):
            names.append("t_req%d" % k); kinds.append(("request %s" % f.name, f.req))
            if f.rsp:
                names.append("t_rsp%d" % k); kinds.append(("response %s" % f.name, f.rsp))
        for k, e in enumerate(p.evs):
            names.append("t_ev%d" % k); kinds.append(("event %s" % e.name, e.par))
        self.w(",".join(names) or "0"); self.w("};")
        self.w("static const char* N[] = { %s };" % (", ".join('"%s(%s)"' % (n, ", ".join(q.gr() for q in ps)) for n, ps in kinds) or "0"))
        self.w(r'''
int main(int argc, char** argv) {
    long n, at = 0; uint8_t* d = slurp(argv[1], &n); char modes[64];
    if (!__sanitizer_install_malloc_and_free_hooks(hm, hf)) return 95;
    g_msg = "tables"; t_tables(); if (g_bad) report(0, "", NULL, 0);
    while (at < n) {
        uint16_t k; uint32_t len; uint8_t* pay; uint8_t shift;
        memcpy(&k, d + at, 2); memcpy(&len, d + at + 2, 4); at += 6;
        pay = malloc(len ? len : 1); memcpy(pay, d + at, len); at += len; g_msg = N[k]; g_cases++;
        for (g_null = 0; g_null < 2; g_null++) for (g_sendret = 0; g_sendret < 2; g_sendret++) {
            if (g_sendret && g_null) continue;
            g_bad = 0; g_live = 0; g_track = 1; T[k](pay, len); g_track = 0; g_steps++;
            if (!g_bad && g_live) BAD("%ld allocations are left over", g_live);
            if (g_bad) { snprintf(modes, sizeof modes, "(NULL for empty: %d, room variant %d)", g_null, g_cap); report(0, modes, pay, len); free(g_out); g_out = NULL; break; }
        }
        free(pay);
        if (g_fails > 20) break;
    }
    printf("DONE cases %lu steps %lu fails %d\n", g_cases, g_steps, g_fails);
    return g_fails ? 1 : 0;
}''')
        return "\n".join(self.o), [ps for _, ps in kinds]

    def enum_consts(self):
        for d in self.p.decls:
            if d.kind == "enum":
                for n, v in d.numbers():
                    yield "%s_%s_%s" % ((d.ns or self.ns).upper(), d.name.upper(), n), v
            if d.kind == "struct":
                for m in d.flat():
                    if isinstance(m, Var):
                        for i, e in enumerate(m.entries):
                            yield "%s_%s_%s_%s" % ((d.ns or self.ns).upper(), d.name.upper(), m.name.upper(), e.name.upper()), i + 1

    def skip(self, t):
        if t.kind == "prim":
            return "P += %d;" % struct.calcsize("<" + t.fmt)
        if t.kind == "enum":
            return "P += 4;"
        if t.kind == "str":
            return "{ uint32_t _n = rd32(); P += _n + 1; }"
        return "{ %s _t; mk_%s(&_t); own_%s(&_t); }" % (t.ct(self.ns), t.name, t.name)

    def destroy(self, t, lv):
        if t.kind == "struct":
            return "if (!g_bad) %s_destroy(&%s);" % (self.sname(t), lv)
        if t.kind == "str":
            return "if (!g_bad) free(%s);" % lv
        return ""

    # ------------------------------------------------------------ structure helpers (C22)
    def scribble(self, t, lv):
        if t.kind in ("prim", "enum"):
            return "memset(&%s, 0x5A, sizeof %s);" % (lv, lv)
        if t.kind == "str":
            return "if (%s) memset(%s, '#', strlen(%s));" % (lv, lv, lv)
        return "sc_%s(&%s);" % (t.name, lv)

    def helper_driver(self, depth, doms):
        p = self.p
        self.w('#include "%s_%s_service_client.h"\n#include "%s_%s_service_server.h"' % (p.ns, p.svc, p.ns, p.svc))
        self.w(RT)
        self.structs()
        S = [d for d in p.decls if d.kind == "struct"]
        for s in S:
            self.w("static void sc_%s(%s* o);" % (s.name, s.ct(self.ns)))
        for s in S:
            self.w("static void sc_%s(%s* o) { uint32_t i;" % (s.name, s.ct(self.ns)))
            for m in s.flat():
                if isinstance(m, Var):
                    self.w(" switch (o->%s_type) {" % m.name)
                    for i, e in enumerate(m.entries):
                        self.w("  case %d: %s break;" % (i + 1, self.scribble(e.t, "o->%s.%s" % (m.name, e.name))))
                    self.w(" }")
                elif m.arr:
                    self.w(" for (i = 0; i < o->%s_count; i++) { %s }" % (m.name, self.scribble(m.t, "o->%s[i]" % m.name)))
                else:
                    self.w(" " + self.scribble(m.t, "o->" + m.name))
            self.w("}")
        tests = []
        for s in S:
            ct, nm = s.ct(self.ns), self.sname(s)
            # copy: equal, independent of changes to and of the end of the original, both released completely
            self.w("static void t_copy_%s(const uint8_t* pay, uint32_t len) { %s x, y, z; long base; g_eqs = eq_strn; memset(&y, 0xB7, sizeof y); memset(&z, 0xB7, sizeof z);" % (s.name, ct))
            self.w(" P = pay; mk_%s(&x); if (P != pay + len) exit(96); base = g_live; %s_copy(&x, &y);" % (s.name, nm))
            self.w(" P = pay; eq_%s(&x); if (g_bad) { BAD(\"the original changes\"); return; } P = pay; eq_%s(&y); if (g_bad) return;" % (s.name, s.name))
            self.w(" %s_copy(&y, &z); sc_%s(&x); P = pay; eq_%s(&y); if (g_bad) { strcat(g_what, \" (after changing the original)\"); return; }" % (nm, s.name, s.name))
            self.w(" own_%s(&x); P = pay; eq_%s(&y); if (g_bad) { strcat(g_what, \" (after destroying the original)\"); return; }" % (s.name, s.name))
            self.w(" sc_%s(&y); %s_destroy(&y); memset(&y, 0xDD, sizeof y); P = pay; eq_%s(&z); if (g_bad) { strcat(g_what, \" (after destroying the copy it was made from)\"); return; } %s_destroy(&z); }" % (s.name, nm, s.name, nm))
            tests.append(("t_copy_%s" % s.name, "copy and destroy of %s" % s.name, s, None))
            # destroy of an original
            self.w("static void t_destroy_%s(const uint8_t* pay, uint32_t len) { %s x; P = pay; mk_%s(&x); %s_destroy(&x); memset(&x, 0xB7, sizeof x); %s_init(&x); %s_destroy(&x); }" % (s.name, ct, s.name, nm, nm, nm))
            tests.append(("t_destroy_%s" % s.name, "destroy of %s" % s.name, s, None))
            for m in s.flat():
                if isinstance(m, Var):
                    self.variant_test(s, m, depth, tests)
                elif m.arr and m.t.kind == "struct":
                    self.array_test(s, m, depth, tests)
        self.w("static void (*T[])(const uint8_t*, uint32_t) = { %s };" % ", ".join(t[0] for t in tests))
        self.w("static const char* N[] = { %s };" % ", ".join('"%s"' % t[1] for t in tests))
        self.w(r'''
int main(int argc, char** argv) {
    long n, at = 0; uint8_t* d = slurp(argv[1], &n); char modes[64];
    if (!__sanitizer_install_malloc_and_free_hooks(hm, hf)) return 95;
    while (at < n) {
        uint16_t k; uint32_t len; uint8_t* pay;
        memcpy(&k, d + at, 2); memcpy(&len, d + at + 2, 4); at += 6;
        pay = malloc(len ? len : 1); memcpy(pay, d + at, len); at += len; g_msg = N[k]; g_cases++;
        for (g_null = 0; g_null < 2; g_null++) {
            g_bad = 0; g_live = 0; g_track = 1; T[k](pay, len); g_track = 0; g_steps++;
            if (!g_bad && g_live) BAD(g_live > 0 ? "%ld allocations are never released" : "%ld too many releases", g_live);
            if (g_bad) { snprintf(modes, sizeof modes, "(NULL for empty: %d)", g_null); report(0, modes, pay, len); break; }
        }
        free(pay);
        if (g_fails > 20) break;
    }
    printf("DONE cases %lu steps %lu fails %d\n", g_cases, g_steps, g_fails);
    return g_fails ? 1 : 0;
}''')
        return "\n".join(self.o), tests

    def variant_test(self, s, m, depth, tests):
        """every sequence of set/clear/copy up to the depth, against the last thing that was set.
           payload: u32 number of values, then (u8 entry, encoding) each"""
        ct, nm = s.ct(self.ns), self.sname(s)
        fn = "t_var_%s_%s" % (s.name, m.name)
        typ = [e.t.name for e in m.entries]
        suf = [e.name if typ.count(e.t.name) > 1 else e.t.name for e in m.entries]
        self.w("static void is_%s(%s* x, int want) { int g[] = { %s }; int i; for (i = 0; i < %d; i++) if (!!g[i] != (want == i + 1)) BAD(\"entry %%d selected: %%d, the last one set is %%d\", i + 1, g[i], want); }"
               % (fn, ct, ", ".join("%s_%s_is_%s(x)" % (nm, m.name, x) for x in suf), len(suf)))
        self.w("static void chk_%s(%s* x, int cur, const uint8_t* v) { is_%s(x, cur); if (g_bad) return; if (x->%s_type != cur) { BAD(\"tag %%d instead of %%d\", x->%s_type, cur); return; } P = v; switch (cur) {" % (fn, ct, fn, m.name, m.name))
        for i, e in enumerate(m.entries):
            self.w("  case %d: %s break;" % (i + 1, self.eq(e.t, "x->%s.%s" % (m.name, e.name), m.name + "." + e.name)))
        self.w("}}")
        self.w("static void run_%s(const uint8_t** val, const uint8_t* ent, int nv, const int* ops, int n) { %s x, y; int k, cur = 0; const uint8_t* cv = NULL; g_eqs = eq_strn; memset(&x, 0xB7, sizeof x); %s_init(&x);" % (fn, ct, nm))
        self.w(" chk_%s(&x, 0, NULL);" % fn)
        self.w(" for (k = 0; k < n && !g_bad; k++) { if (ops[k] == nv) { %s_%s_clear(&x); cur = 0; cv = NULL; } else if (ops[k] == nv + 1) { memset(&y, 0xB7, sizeof y); %s_copy(&x, &y); chk_%s(&y, cur, cv); sc_%s(&x); chk_%s(&y, cur, cv); %s_destroy(&x); x = y; }" % (nm, m.name, nm, fn, s.name, fn, nm))
        self.w("  else { int v = ops[k]; if (cur) { %s_%s_clear(&x); } cur = ent[v]; cv = val[v]; P = cv; switch (cur) {" % (nm, m.name))
        for i, e in enumerate(m.entries):
            amp = "&" if e.t.kind == "struct" else ""
            self.w("   case %d: { %s t; %s %s_%s_set_%s(&x, %st); %s } break;" % (i + 1, e.t.ct(self.ns), self.mk(e.t, "t"), nm, m.name, suf[i], amp, self.scr_free(e.t)))
        self.w("  } } g_steps++; chk_%s(&x, cur, cv); }" % fn)
        self.w(" if (!g_bad) %s_destroy(&x); }" % nm)
        self.w("static void %s(const uint8_t* pay, uint32_t len) { const uint8_t* val[600]; uint8_t ent[600]; int nv, i, ops[8], n, tot; P = pay; nv = rd32(); for (i = 0; i < nv; i++) { ent[i] = rd8(); val[i] = P; switch (ent[i]) {" % fn)
        for i, e in enumerate(m.entries):
            self.w("  case %d: %s break;" % (i + 1, self.skip(e.t)))
        self.w(" } }")
        self.w(" for (n = 0; n <= %d && !g_bad; n++) { for (tot = 1, i = 0; i < n; i++) tot *= nv + 2; int c; for (c = 0; c < tot && !g_bad; c++) { int r = c; for (i = 0; i < n; i++) { ops[i] = r %% (nv + 2); r /= nv + 2; } run_%s(val, ent, nv, ops, n); if (g_live) BAD(\"%%ld allocations left after the sequence\", g_live); if (g_bad) { char t[64]; strcat(g_what, \"; operations\"); for (i = 0; i < n; i++) { snprintf(t, sizeof t, \" %%d\", ops[i]); strcat(g_what, t); } } } } }" % (depth, fn))
        tests.append((fn, "variant helpers of %s.%s" % (s.name, m.name), s, ("var", m)))

    def scr_free(self, t):
        """change, then release, what was handed to a setter"""
        return self.scribble(t, "t") + " " + self.free(t, "t")

    def array_test(self, s, m, depth, tests):
        """every sequence of add(0..2), get(0..count+1) with a write, copy: against a list.
           payload: two element encodings"""
        ct, nm, et, en = s.ct(self.ns), self.sname(s), m.t.ct(self.ns), self.sname(m.t)
        fn = "t_arr_%s_%s" % (s.name, m.name)
        self.w("static void chk_%s(%s* x, const uint8_t** want, int n) { int i; if (x->%s_count != n) { BAD(\"%%u elements instead of %%d\", x->%s_count, n); return; } for (i = 0; i < n && !g_bad; i++) { if (!want[i]) { if (!zero_%s(&x->%s[i])) BAD(\"element %%d was added but is not empty\", i); } else { P = want[i]; eq_%s(&x->%s[i]); } } }"
               % (fn, ct, m.name, m.name, m.t.name, m.name, m.t.name, m.name))
        # operations: 0 1 2 add; 3 get(0) 4 get(count-1) 5 get(count) 6 get(count+1), value a; 7 get(0) value b; 8 copy and go on with the copy
        self.w("static void run_%s(const uint8_t** val, const int* ops, int n) { %s x, y; int k, c = 0, i; const uint8_t* want[32] = { 0 }; g_eqs = eq_strn; memset(&x, 0xB7, sizeof x); %s_init(&x);" % (fn, ct, nm))
        self.w(" for (k = 0; k < n && !g_bad; k++) { int o = ops[k]; if (o < 3) { %s_%s_add(&x, o); c += o; }" % (nm, m.name))
        self.w("  else if (o == 8) { memset(&y, 0xB7, sizeof y); %s_copy(&x, &y); chk_%s(&y, want, c); sc_%s(&x); %s_destroy(&x); x = y; }" % (nm, fn, s.name, nm))
        self.w("  else { int at = o == 3 || o == 7 ? 0 : o == 4 ? (c ? c - 1 : 0) : o == 5 ? c : c + 1; %s* e = %s_%s_get(&x, at); if (at >= c) c = at + 1; if (x.%s_count != c || e != &x.%s[at]) { BAD(\"get(%%d) gives the wrong element\", at); break; } chk_%s(&x, want, c); if (g_bad) break; %s_destroy(e); P = val[o == 7]; mk_%s(e); want[at] = val[o == 7]; }" % (et, nm, m.name, m.name, m.name, fn, en, m.t.name))
        self.w("  g_steps++; if (!g_bad) chk_%s(&x, want, c); } if (!g_bad) %s_destroy(&x); }" % (fn, nm))
        self.w("static void %s(const uint8_t* pay, uint32_t len) { const uint8_t* val[2]; int i, ops[8], n, tot, c; P = pay; val[0] = P; %s val[1] = P; %s" % (fn, self.skip(m.t), self.skip(m.t)))
        self.w(" for (n = 0; n <= %d && !g_bad; n++) { for (tot = 1, i = 0; i < n; i++) tot *= 9; for (c = 0; c < tot && !g_bad; c++) { int r = c; for (i = 0; i < n; i++) { ops[i] = r %% 9; r /= 9; } run_%s(val, ops, n); if (g_live) BAD(\"%%ld allocations left after the sequence\", g_live); if (g_bad) { char t[64]; strcat(g_what, \"; operations\"); for (i = 0; i < n; i++) { snprintf(t, sizeof t, \" %%d\", ops[i]); strcat(g_what, t); } } } } }" % (depth, fn))
        tests.append((fn, "array helpers of %s.%s" % (s.name, m.name), s, ("arr", m)))


# ---------------------------------------------------------------- the bounded space
def T(name):
    return [t for t in PRIMS if t.name == name][0]


KIND = Enum("kind", [("one", None), ("two", 5), ("three", None), ("neg", -3), ("big", 2147483646)])
DEF = Def("uint16_t", "stdint.h", "H")
PAIR = Struct("pair", [Mem(STR, "s"), Mem(T("uint32"), "n")])
BLOB = Struct("blob", [Mem(T("uint16"), "d", True), Mem(STR, "t")])
CHOICE = Struct("choice", [Var("v", [Mem(T("uint8"), "a"), Mem(STR, "b"), Mem(PAIR, "c"), Mem(T("uint8"), "z")])])
NEST = Struct("nest", [Mem(PAIR, "x"), Mem(PAIR, "ys", True), Mem(KIND, "e")])
EXT = Struct("ext", [Ext(PAIR), Mem(T("int64"), "z")])
EXT2 = Struct("exttwo", [Mem(T("uint8"), "q"), Ext(EXT), Mem(BOOL, "w")])
TREE = Struct("tree", [Mem(T("uint16"), "k"), Mem(None, "kids", True)])
TREE.members[1].t = TREE
SCALARS = PRIMS + [STR, KIND, DEF]
LIB = [PAIR, BLOB, CHOICE, NEST, EXT, EXT2, TREE]


def closure(types):
    """declarations for these types, dependencies first"""
    out = []

    def add(t):
        if t in out or t.kind == "str" or (t.kind == "prim" and not isinstance(t, Def)):
            return
        if t.kind == "struct":
            for m in t.flat():
                for x in ([e.t for e in m.entries] if isinstance(m, Var) else [m.t]):
                    if x is not t:
                        add(x)
            for d in t.deps():
                add(d)
        out.append(t)
    for t in types:
        add(t)
    return out


def name_params(sig):
    return [Mem(t, "p%d" % i, a) for i, (t, a) in enumerate(sig)]


def pack(tag, reqs, rsps, evs, per, **kw):
    """protocols that hold all of these signatures"""
    n = max(len(reqs), len(rsps))
    fns = [(reqs[i] if i < len(reqs) else (), rsps[i] if i < len(rsps) else ()) for i in range(n)]
    out, i = [], 0
    sids = [7, 1, 254, 255, "0x1f", "0xA0", 2]
    while i * per < max(n, len(evs)):
        f, e = fns[i * per:(i + 1) * per], evs[i * per:(i + 1) * per]
        fs = [Fn("f%d" % k, 2 * k + 1, name_params(a), name_params(b)) for k, (a, b) in enumerate(f)]
        es = [Ev("e%d" % k, 2 * k + 2, name_params(a)) for k, a in enumerate(e)]
        if i % 2:           # the highest ids, in falling order
            for x in fs + es:
                x.id = 256 - x.id
        types = [q.t for x in fs for q in x.req + x.rsp] + [q.t for x in es for q in x.par]
        out.append(Proto("%s%d" % (tag, i), closure(types), fs, es, sid=sids[i % len(sids)], **kw))
        i += 1
    return out


def signatures(tier):
    """(request/event signatures, response signatures) : tuples of (type, array)"""
    single = [(t, a) for t in SCALARS + LIB for a in (False, True) if not (t is STR and a)]
    red = [(T("uint8"), False), (T("uint64"), False), (STR, False), (T("uint16"), True), (PAIR, False), (PAIR, True), (KIND, False), (CHOICE, False), (DOUBLE, False), (KIND, True)]
    tiny = [(T("uint8"), False), (STR, False), (T("uint32"), True), (PAIR, True), (CHOICE, False)]
    sig = [()] + [(x,) for x in single]
    if tier == "quick":
        sig += list(itertools.product(red, red)) + list(itertools.product(tiny, tiny, tiny))
        extra = [(STR, True)]
    else:
        sig += list(itertools.product(single, single)) + list(itertools.product(red, red, red)) + list(itertools.product(tiny[:4], repeat=4))
        extra = [(STR, True)]
    rsp = [s for s in sig if s] + [(x,) for x in extra] + [(x, y) for x in extra for y in red] + [(y, x) for x in extra for y in red]
    return sig, rsp


def structures(tier):
    """all the structures inside the bounds, as lists of members (named later)"""
    red = [(T("uint8"), False), (T("int32"), False), (STR, False), (T("uint64"), True), (KIND, False), (PAIR, False), (PAIR, True), (CHOICE, False)]
    tiny = [(T("uint8"), False), (STR, False), (T("uint32"), True), (PAIR, False)]
    vred = [T("uint8"), STR, PAIR, KIND, DOUBLE, CHOICE]
    out = []
    mem = lambda sig: [Mem(t, "m%d" % i, a) for i, (t, a) in enumerate(sig)]
    out.append([])
    for t in SCALARS + LIB:
        out.append(mem([(t, False)]))
        if t is not STR:
            out.append(mem([(t, True)]))
    for sig in itertools.product(red, red):
        out.append(mem(sig))
    for sig in itertools.product(tiny, tiny, tiny):
        out.append(mem(sig))
    ent = lambda ts: [Mem(t, "n%d" % i) for i, t in enumerate(ts)]
    out.append([Var("v", [])])
    for t in SCALARS + LIB[:4]:
        out.append([Var("v", ent([t]))])
    for ts in itertools.product(vred, vred):
        out.append([Var("v", ent(ts))])
    for ts in itertools.product([T("uint8"), STR, PAIR], repeat=3):
        out.append([Var("v", ent(ts))])
    out.append([Var("v", ent([T("uint8"), STR])), Var("w", ent([STR, PAIR]))])
    out.append([Mem(STR, "m0"), Var("v", ent([PAIR, STR])), Mem(T("uint8"), "m1", True)])
    for i in range(3):
        for base in (PAIR, BLOB, CHOICE, NEST, EXT, EXT2, TREE):
            m = mem([(T("uint8"), False), (BLOB, True)]) if base is TREE else mem([(T("uint8"), False), (STR, False)])
            m.insert(i, Ext(base))
            out.append(m)
    out.append([Ext(PAIR), Ext(BLOB)])
    out.append([Ext(PAIR), Mem(T("uint8"), "m0"), Ext(CHOICE)])
    out.append([Ext(EXT2)])
    if tier != "quick":
        full = [(t, a) for t in SCALARS + LIB[:4] for a in (False, True) if not (t is STR and a)]
        for sig in itertools.product(full, full):
            out.append(mem(sig))
        for sig in itertools.product(red, red, red):
            out.append(mem(sig))
        for ts in itertools.product(SCALARS + LIB[:4], repeat=2):
            out.append([Var("v", ent(ts))])
        for ts in itertools.product(vred, repeat=3):
            out.append([Var("v", ent(ts))])
    return out


def struct_protos(tier, per=24):
    S = structures(tier)
    out = []
    for i in range(0, len(S), per):
        st = [Struct("st%d" % k, m) for k, m in enumerate(S[i:i + per])]
        for s in st:                                    # a tree that is extended contains the base, not itself
            pass
        fs = [Fn("f%d" % k, k + 1, name_params([(s, False)]), name_params([(s, False)])) for k, s in enumerate(st)]
        fs += [Fn("g%d" % k, 50 + k, name_params([(s, True), (T("uint8"), False)]), name_params([(s, True), (T("uint8"), False)])) for k, s in enumerate(st)]
        es = [Ev("e%d" % k, 150 + k, name_params([(s, False), (s, True)])) for k, s in enumerate(st)]
        out.append(Proto("st%d" % (i // per), closure(st), fs, es))
    return out


class BigStr(Str):
    def dom(self, k):
        return [bytes(1 + (i * 7 + n) % 255 for i in range(n)) for n in (127, 128, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 70000)]


class BigMem(Mem):
    """the sizes at which a count stored too narrowly shows"""
    def dom(self, k):
        if not self.arr:
            return self.t.dom(k)
        d = self.t.dom(6)
        ns = (127, 128, 129, 255, 256, 257, 300, 4000) + ((32767, 32768, 65535, 65536, 65537, 70000) if self.t.kind in ("prim", "enum") else (65535, 65536, 65537) if self.t.name == "pair" else ())
        return [[d[(i // 7) % len(d)] for i in range(n)] for n in ns]


BIGSTR = BigStr()


def long_protos():
    """structures that hold long arrays, also of elements that own memory themselves"""
    u8, out = T("uint8"), []
    for k, (t, ns) in enumerate(((PAIR, (128, 256, 257, 300, 65537)), (BLOB, (127, 255, 256, 300)), (CHOICE, (129, 255, 256, 300)), (u8, (128, 256, 65535, 65536)), (T("uint16"), (128, 256, 32768, 65536)), (T("uint64"), (256, 8192, 65536)), (KIND, (255, 256)))):
        m = BigMem(t, "r", True)
        s = Struct("long%d" % k, [Mem(u8, "k"), m, Mem(STR, "z")])
        d = t.dom(6)
        s.dom = lambda k, ns=ns, d=d: [(i, [d[(j // 3) % len(d)] for j in range(n)], b"end"[:i]) for i, n in enumerate(ns)][:max(k, 1)]
        hold = Struct("inner%d" % k, [Var("v", [Mem(u8, "a"), Mem(s, "b")]), Mem(s, "c")])
        hold.dom = lambda k, s=s: [((1, s.dom(2)[1]), s.dom(1)[0]), ((0, 3), s.dom(2)[1])]
        out.append(Proto("hl%d" % k, closure([s, hold]), [Fn("f0", 1, name_params([(hold, False)]), name_params([(s, False)]))], []))
    return out


def size_protos(tier):
    """long strings and arrays, many parameters, as many functions and events as there are ids"""
    u8 = T("uint8")
    blob, hold = Struct("bigblob", [BigMem(T("uint16"), "d", True), Mem(BIGSTR, "t")]), Struct("hold", [Var("v", [Mem(u8, "a"), Mem(BIGSTR, "b")])])
    blob.dom = lambda k: [(d, t) for d in blob.members[0].dom(0)[::3] for t in BIGSTR.dom(0)[1::3]]
    hold.dom = lambda k: [((1, t),) for t in BIGSTR.dom(0)]
    rows, mixed = Struct("bigrows", [Mem(u8, "k"), BigMem(PAIR, "r", True), Mem(T("uint16"), "z")]), Struct("bigmixed", [BigMem(CHOICE, "r", True), BigMem(DEF, "q", True)])
    rows.dom = lambda k: [(7, d, 513) for d in rows.members[1].dom(0)]
    mixed.dom = lambda k: [(d, q) for d, q in zip(mixed.members[0].dom(0), mixed.members[1].dom(0)[::-1])]
    plain = PAIR
    big = [BigMem(t, "p", a) for t, a in ([(t, True) for t in (u8, T("uint16"), T("uint64"), BOOL, DOUBLE, KIND, DEF, plain, CHOICE, EXT)] + [(BIGSTR, False), (blob, False), (hold, False), (rows, False), (mixed, False)])]
    sig, rsp = [], []
    clone = lambda m, n: BigMem(m.t, n, m.arr)
    for m in big:
        for lay in ([0], [0, 1], [1, 0], [1, 0, 1]):
            ps = [clone(m, "p%d" % i) if x == 0 else Mem(u8 if i else STR, "p%d" % i) for i, x in enumerate(lay)]
            for q in ps:
                if not isinstance(q, BigMem):
                    q.dom = lambda k, q=q: q.t.dom(1)
            sig.append(ps)
    many = [(u8, False), (STR, False), (T("uint32"), True), (PAIR, False), (KIND, False), (T("uint64"), False), (CHOICE, False), (PAIR, True)]
    for n in (5, 6, 7, 8, 9, 12, 16, 24):
        ps = name_params([many[(i * 3 + n) % 8] for i in range(n)])
        for i, q in enumerate(ps):
            q.dom = lambda k, q=q, i=i: Mem.dom(q, 4)[i % 3:i % 3 + 1 + (i < 5)] or Mem.dom(q, 1)
        sig.append(ps)
    out = []
    for i in range(0, len(sig), 5):
        part = sig[i:i + 5]
        fs = [Fn("f%d" % k, 2 * k + 1, p, p) for k, p in enumerate(part)]
        es = [Ev("e%d" % k, 2 * k + 2, p) for k, p in enumerate(part)]
        out.append(Proto("sz%d" % i, closure([q.t for p in part for q in p]), fs, es))
    one = [[Mem(u8, "a")], [Mem(T("uint32"), "a")], [Mem(STR, "a")]]
    for k, (nf, ne) in enumerate(((255, 0), (0, 255), (128, 127), (1, 254))):
        ids = list(range(1, 256)) if k % 2 else list(range(255, 0, -1))
        out.append(Proto("wd%d" % k, [], [Fn("f%d" % i, ids[i], one[i % 3], one[(i + 1) % 3]) for i in range(nf)], [Ev("e%d" % i, ids[nf + i], one[i % 3]) for i in range(ne)]))
    S = [[Mem(many[(i * 3 + n) % 8][0], "m%d" % i, many[(i * 3 + n) % 8][1]) for i in range(n)] for n in (6, 9, 16)] + [[Var("v", [Mem(many[i % 8][0], "n%d" % i) for i in range(n) ])] for n in (8, 40, 128, 254, 255)]
    st = [Struct("w%d" % k, m) for k, m in enumerate(S)]
    for s_ in st:
        if len(s_.members) > 1:
            f = s_.members
            s_.dom = lambda k, f=f: [tuple(m.dom(3)[j % len(m.dom(3))] for m in f) for j in range(3)] + [tuple(m.dom(3)[(j + i) % len(m.dom(3))] for i, m in enumerate(f)) for j in range(3)]
    out.append(Proto("ws", closure(st), [Fn("f%d" % k, k + 1, name_params([(s_, False)]), name_params([(s_, False), (s_, True)])) for k, s_ in enumerate(st)], []))
    return out


def values(params):
    n = len(params)
    k = {0: 1, 1: 6, 2: 3, 3: 2}.get(n, 2)
    return itertools.product(*[p.dom(k) for p in params])


def records(kinds):
    out, n, keys = [], 0, []
    for k, params in enumerate(kinds):
        for v in values(params):
            b = b"".join(p.enc(x) for p, x in zip(params, v))
            if len(b) > 2000000:
                continue
            out.append(struct.pack("<HI", k, len(b)) + b); n += 1
    return b"".join(out), n


def helper_records(drv, tests):
    out, n = [], 0
    for k, (fn, title, s, what) in enumerate(tests):
        if what is None:
            for v in s.dom(6):
                b = s.enc(v); out.append(struct.pack("<HI", k, len(b)) + b); n += 1
        elif what[0] == "var":
            vals = [(i, x) for i, e in enumerate(what[1].entries) for x in e.dom(1 if len(what[1].entries) > 9 else 2 if len(what[1].entries) > 1 else 3)]
            b = struct.pack("<I", len(vals)) + b"".join(bytes([i + 1]) + what[1].entries[i].enc(x) for i, x in vals)
            out.append(struct.pack("<HI", k, len(b)) + b); n += 1
        else:
            d = what[1].t.dom(2)
            b = what[1].t.enc(d[0]) + what[1].t.enc(d[-1])
            out.append(struct.pack("<HI", k, len(b)) + b); n += 1
    return b"".join(out), n


# ---------------------------------------------------------------- one protocol
def drive(p, d, text, res, helpers=False, depth=3):
    """compiles what was generated for p in d, and walks the driver through it"""
    drv = Drv(p)
    if helpers:
        src, tests = drv.helper_driver(depth, None)
        data, n = helper_records(drv, tests)
        res["sigs"] += len(tests)
    else:
        src, kinds = drv.message_driver()
        data, n = records(kinds)
        res["sigs"] += len(kinds)
    res["cases"] += n
    dc = "%s/driver_%s" % (d, p.svc)
    open(dc + ".c", "w").write(src)
    open(dc + ".data", "wb").write(data)
    base = "%s/%s_%s_service_" % (d, p.ns, p.svc)
    objs = []
    inc = ["-I", REPO + "/include", "-I", d]
    todo = [base + "client.c", base + "server.c", dc + ".c"] if not helpers else [dc + ".c"]
    for i, c in enumerate(todo):
        rc, o = cc(inc + ["-c", c, "-o", c[:-2] + ".o"])
        if rc:
            e = [l for l in o.splitlines() if "error" in l][:3]
            res["viol"].append(("the generated code does not compile: %s" % "; ".join(x.replace(d + "/", "") for x in e), text)); return
        objs.append(c[:-2] + ".o")
    rc, o = cc(objs + ["-o", dc])
    if rc:
        res["viol"].append(("the generated code does not link: %s" % o[-400:].replace(d + "/", ""), text)); return
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=4096:exitcode=77")
    try:
        q = subprocess.run([dc, dc + ".data"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=600)
    except subprocess.TimeoutExpired:
        res["viol"].append(("the generated code does not come back", text)); return
    o = q.stdout.decode("latin1")
    m = re.search(r"DONE cases (\d+) steps (\d+)", o)
    if m:
        res["steps"] += int(m.group(2))
    if q.returncode:
        fails = [l for l in o.splitlines() if l.startswith("FAIL")]
        if not fails:
            a = [l for l in o.splitlines() if "ERROR: AddressSanitizer" in l or re.match(r"\s+#[0-5] ", l)][:6]
            fails = ["the generated code fails (exit %d): %s" % (q.returncode, "; ".join(x.strip() for x in a) or o[-300:])]
        res["viol"].append((fails[0][:700], "\n".join(fails[:6]) + "\n" + text))
    elif not m:
        raise RuntimeError("the driver of %s gives no result: %s" % (p.name, o[-500:]))


def fresh():
    return {"cases": 0, "steps": 0, "viol": [], "sigs": 0}


def run_proto(p, scratch, helpers=False, depth=3):
    """returns dict(cases, steps, sigs, viol[(what, text)])"""
    d = "%s/%s%s" % (scratch, p.name, "h" if helpers else "")
    os.makedirs(d, exist_ok=True)
    res, text = fresh(), p.gr()
    try:
        with open(d + "/p.gr", "w") as f:
            f.write(text)
        rc, o = generate(d + "/p.gr", d, ("--client", "--server"))
        if rc:
            res["viol"].append(("a valid protocol is refused: %s" % o.strip()[-400:], text)); return res
        drive(p, d, text, res, helpers, depth)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def finish(run, scenario, t, n, results, scratch, idx, samples):
    out = {"run": run, "scenario": scenario, "t": time.time() - t, "executions": sum(r["steps"] for r in results),
           "states": sum(r["cases"] for r in results), "transitions": sum(r["steps"] for r in results),
           "completed_executions": sum(r["steps"] for r in results), "pruned": 0, "outcomes": sum(r["sigs"] for r in results),
           "protocols": n, "violations": [], "samples": samples}
    k = 0
    for r in results:
        for what, text in r["viol"]:
            k += 1
            if k > 5:
                break
            f = "%s/genviol.%s.%d" % (scratch, scenario, k)
            open(f, "w").write("# %s\n%s\n" % (what, text))
            out["violations"].append({"what": what, "file": f})
    return out


def sweep(run, scenario, protos, scratch, **kw):
    t = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda p: run_proto(p, scratch, **kw), protos))
    return finish(run, scenario, t, len(protos), res, scratch, 0, [{"run": run, "trace": protos[len(protos) // 2].gr()[:1500]}])


# ---------------------------------------------------------------- C18: which protocols are accepted
def run_accept(item, scratch):
    """item: (name, {file: text}, accept?, [protos to drive])  -- the first file is the one given to the generator"""
    name, files, want, protos = item
    d = "%s/acc_%s" % (scratch, name)
    os.makedirs(d + "/out", exist_ok=True)
    res = fresh()
    res["cases"] = res["steps"] = res["sigs"] = 1
    text = "".join("// file %s\n%s\n" % kv for kv in files.items())
    try:
        for f, t in files.items():
            os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True)
            open(d + "/" + f, "w").write(t)
        rc, o = generate(d + "/" + list(files)[0], d + "/out", ("--client", "--server"))
        if want is None:                                   # may be refused or not; what is accepted has to compile
            for c in (glob.glob(d + "/out/*.c") if rc == 0 else []):
                rc, o = cc(["-I", REPO + "/include", "-I", d + "/out", "-c", c, "-o", d + "/out/x.o"])
                if rc:
                    res["viol"].append(("a protocol that was accepted does not compile: %s" % "; ".join([l for l in o.splitlines() if "error" in l][:2]), text)); return res
            return res
        if (rc == 0) != want:
            res["viol"].append(("a valid protocol is refused: %s" % o.strip()[-300:] if want else "a protocol that is not valid is accepted", text))
            return res
        if rc == 0:
            for p in protos:
                drive(p, d + "/out", text, res)
            if len(protos) > 1 and not res["viol"]:
                # the services together: all headers in one file, all objects in one link
                open(d + "/out/all.c", "w").write("".join('#include "%s_%s_service_%s.h"\n' % (p.ns, p.svc, x) for p in protos for x in ("client", "server")) + "int x;\n")
                rc, o = cc(["-I", REPO + "/include", "-I", d + "/out", "-c", d + "/out/all.c", "-o", d + "/out/all.o"])
                if rc:
                    res["viol"].append(("the headers of two services can not be used together: %s" % "; ".join([l for l in o.splitlines() if "error" in l][:2]), text)); return res
                p_ = subprocess.run(["ld", "-r", "-o", d + "/out/all2.o"] + ["%s/out/%s_%s_service_%s.o" % (d, p.ns, p.svc, x) for p in protos for x in ("client", "server")],
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p_.returncode:
                    res["viol"].append(("two services can not be linked together: %s" % p_.stdout[-300:], text))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def id_space(tier):
    out = []
    u8 = T("uint8")
    def proto(fids, eids, sid="3"):
        fs = [Fn("f%d" % i, x, [Mem(u8, "a")], [Mem(u8, "b")] if i % 2 == 0 else []) for i, x in enumerate(fids)]
        es = [Ev("e%d" % i, x, [Mem(u8, "a")]) for i, x in enumerate(eids)]
        return Proto("x", [], fs, es, sid=sid)
    alpha = [-1, 0, 1, 2, 3, 255, 256]
    if tier != "quick":
        alpha += [254, 257, 512, 65537]
    for nf, ne in ((0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (0, 3)) + (((2, 2),) if tier != "quick" else ()):
        for ids in itertools.product(alpha, repeat=nf + ne):
            ok = len(set(ids)) == len(ids) and all(1 <= x <= 255 for x in ids)
            p = proto(ids[:nf], ids[nf:])
            out.append(("id%d" % len(out), {"p.gr": p.gr()}, ok, [p] if ok else []))
    for x in list(range(-3, 262)) + [300, 512, 511, 65536, 65537, 4294967297]:
        forms = ["%d" % x] + (["0x%x" % x, "0x%X" % x, "0x0%x" % x] if x >= 0 else [])
        for f in forms:
            ok = 1 <= x <= 255
            p = proto([1], [2], sid=f)
            out.append(("sid%d" % len(out), {"p.gr": p.gr()}, ok, [p] if ok and (x in (1, 2, 127, 128, 254, 255) or tier != "quick") else []))
            q = proto([f], [])
            out.append(("fid%d" % len(out), {"p.gr": q.gr()}, ok, []))
            q = proto([], [f])
            out.append(("eid%d" % len(out), {"p.gr": q.gr()}, ok, []))
    for n, p in (("allf", proto(range(1, 256), [])), ("alle", proto([], range(1, 256))), ("half", proto(range(1, 256, 2), range(2, 255, 2)))):
        out.append((n, {"p.gr": p.gr()}, True, [p]))
    p = Proto("x", [], [], [])
    out.append(("nothing", {"p.gr": p.gr()}, True, [p]))
    return out


def type_space(tier):
    """every kind of type in every position, and names that stand for nothing"""
    out = []
    decl = "namespace vg\n" + KIND.gr() + DEF.gr() + PAIR.gr() + EXT.gr()
    good = [(t.name, t) for t in SCALARS + [PAIR, EXT]]
    bad = [("nope", None), ("uint128", None), ("pair2", None), ("kin", None), ("uint32_t", None), ("s", None), ("f", None)]
    for name, t in good + bad:
        pos = {"req": "func f(%s a) : () = 1;", "reqarr": "func f(%s[] a) : () = 1;", "req2": "func f(uint8 b, %s a) : (uint8 c) = 1;",
               "rsp": "func f() : (%s a) = 1;", "rsparr": "func f() : (%s[] a) = 1;", "rsp2": "func f(uint8 b) : (uint8 c, %s a) = 1;",
               "ev": "event e : (%s a) = 1;", "evarr": "event e : (%s[] a) = 1;", "ev2": "event e : (uint8 c, %s a) = 1;", "evs": "event e : %s = 1;"}
        for k, tpl in pos.items():
            if name == "string" and k in ("reqarr", "evarr"):
                continue                                   # documented as not supported yet
            P = []
            if t is not None:
                m = [Mem(t, "a", k.endswith("arr"))]
                if k.endswith("2"):
                    m = [Mem(T("uint8"), "c")] + m
                if k.startswith("req"):
                    P = [Proto("x", [KIND, DEF, PAIR, EXT], [Fn("f", 1, [Mem(T("uint8"), "b")] + m[1:] if k == "req2" else m, [Mem(T("uint8"), "c")] if k == "req2" else [])], [])]
                elif k.startswith("rsp"):
                    P = [Proto("x", [KIND, DEF, PAIR, EXT], [Fn("f", 1, [Mem(T("uint8"), "b")] if k == "rsp2" else [], m)], [])]
                else:
                    P = [Proto("x", [KIND, DEF, PAIR, EXT], [], [Ev("e", 1, m, short=k == "evs")])]
            out.append(("ty_%s_%s" % (name, k), {"p.gr": decl + "service s (7) {\n " + tpl % name + "\n}\n"}, t is not None, P))
        # inside structures, used or not
        for k, body in {"mem": "%s m;", "mem2": "uint8 z; %s m;", "arr": "%s[] m;", "var": "variant v { uint8 z; %s m; }", "var1": "variant v { %s m; }", "ext": "%s;", "ext2": "uint8 z; %s;"}.items():
            if name == "string" and k == "arr":
                continue
            for used in (True, False):
                for order in ((0,) if t is not None else (0, 1)):
                    ok = t is not None and (not k.startswith("ext") or t.kind == "struct")
                    st = "struct box {\n " + body % name + "\n}\n"
                    P = []
                    if ok:
                        mm = {"mem": lambda: [Mem(t, "m")], "mem2": lambda: [Mem(T("uint8"), "z"), Mem(t, "m")], "arr": lambda: [Mem(t, "m", True)],
                              "var": lambda: [Var("v", [Mem(T("uint8"), "z"), Mem(t, "m")])], "var1": lambda: [Var("v", [Mem(t, "m")])],
                              "ext": lambda: [Ext(t)], "ext2": lambda: [Mem(T("uint8"), "z"), Ext(t)]}[k]()
                        if k == "ext2" and t is EXT:
                            continue                       # the names would clash
                        B = Struct("box", mm)
                        P = [Proto("x", [KIND, DEF, PAIR, EXT, B], [Fn("f", 1, [Mem(B, "a")], [Mem(B, "r", True)])] if used else [Fn("f", 1, [], [])], [])]
                    svc = "service s (7) {\n func f(%s) : (%s) = 1;\n}\n" % (("box a", "box[] r") if used else ("", ""))
                    out.append(("st_%s_%s_%d%d" % (name, k, used, order), {"p.gr": decl + st + svc}, ok, P))
    # structures that contain themselves
    cyc = {"self": "struct a { a x; }", "two": "struct a { b x; }\nstruct b { a y; }", "ext": "struct a { a; }", "ext2": "struct a { b; }\nstruct b { a; }",
           "var": "struct a { variant v { uint8 z; a x; } }", "var2": "struct a { variant v { b x; } }\nstruct b { a y; }", "mix": "struct a { b; }\nstruct b { c x; }\nstruct c { uint8 q; a y; }"}
    for k, t in cyc.items():
        out.append(("cyc_" + k, {"p.gr": "namespace vg\n%s\nservice s (7) {\n func f(a p) : () = 1;\n}\n" % t}, False, []))
    # every small graph of structures over arrays, members and extensions
    ref = {"arr": "%s[] m%d;", "mem": "%s m%d;", "var": "variant v%d { %s n; uint8 o; }"}
    for n in (2, 3):
        for how in itertools.product(ref, repeat=n):
            if "arr" not in how:
                continue
            t = ""
            for i, h in enumerate(how):
                nx = "abc"[(i + 1) % n]
                t += "struct %s { uint8 q%d; %s }\n" % ("abc"[i], i, ref[h] % ((i, nx) if h == "var" else (nx, i)))
            out.append(("cyca_" + "_".join(how), {"p.gr": "namespace vg\n%s\nservice s (7) {\n func f(a p) : () = 1;\n func g() : (a p) = 2;\n}\n" % t}, None, []))
    return out


def order_space(tier):
    """structures that depend on each other, declared in every order"""
    out = []
    A = Struct("aa", [Mem(STR, "s"), Mem(T("uint8"), "u")])
    B = Struct("bb", [Mem(A, "x"), Mem(T("uint16"), "w")])
    C = Struct("cc", [Ext(B), Mem(A, "ys", True)])
    D = Struct("dd", [Var("v", [Mem(B, "n0"), Mem(C, "n1")]), Mem(C, "z")])
    E_ = Struct("ee", [Ext(C), Mem(D, "q"), Mem(None, "kids", True)])
    E_.members[2].t = E_
    for S in ([A, B, C, D, E_],):
        for k, o in enumerate(itertools.permutations(S)):
            fs = [Fn("f%d" % i, i + 1, [Mem(s, "a")], [Mem(s, "r", True)]) for i, s in enumerate(S[:4])]
            es = [Ev("e", 9, [Mem(S[-1] if tier != "quick" else D, "a")])]
            p = Proto("x", list(o), fs, es)
            full = k % (10 if tier == "quick" else 1) == 0
            out.append(("ord%d" % k, {"p.gr": p.gr()}, True, [p]))
    B1, B2 = Struct("e0", []), Struct("e1", [])
    X = Struct("xx", [Ext(B1), Ext(B2), Ext(A)])
    for k, o in enumerate(itertools.permutations([B1, B2, A, X])):
        p = Proto("x", list(o), [Fn("f", 1, [Mem(X, "a")], [Mem(X, "r")])], [])
        out.append(("orde%d" % k, {"p.gr": p.gr()}, True, [p]))
    return out


def name_space(tier):
    """letter case, names shared between functions, events, types; several services; imports"""
    out = []
    Th = Struct("Thing", [Mem(STR, "Name"), Mem(T("int"), "camelCase"), Var("Data", [Mem(T("int16"), "Small"), Mem(STR, "Text")])])
    K = Enum("Colour", [("Red", None), ("green", 4), ("BLUE", None)])
    Th2 = Struct("Holder", [Mem(Th, "T"), Mem(K, "Kinds", True), Ext(Struct("Base_Of", [Mem(K, "k")]))])
    for ns in ("vg", "Vg", "VG", "v_g"):
        for svc in ("svc", "Svc", "SVC2", "s_v"):
            p = Proto("x", closure([Th, K, Th2]), [Fn("doIt", 1, [Mem(Th, "thing"), Mem(K, "Kind")], [Mem(Th2, "Res", True)]), Fn("do_it", 2, [Mem(Th2, "thing")], [Mem(K, "k")]), Fn("Same", 3, [], [])],
                      [Ev("doIt", 4, [Mem(Th, "x")]), Ev("do_it", 5, []), Ev("Same", 6, [Mem(K, "y")], short=False), Ev("Thing", 7, [Mem(Th, "Thing")], short=True), Ev("colours", 8, [Mem(K, "Colour")], short=True)], ns=ns, svc=svc)
            out.append(("case%d" % len(out), {"p.gr": p.gr()}, True, [p]))
    # two services in one file share their types
    a = Proto("x", closure([NEST, CHOICE]), [Fn("f", 1, [Mem(NEST, "a")], [Mem(CHOICE, "b")]), Fn("g", 2, [], [])], [Ev("f", 3, [Mem(CHOICE, "c")])], svc="first", sid=1)
    b = Proto("x", a.decls, [Fn("f", 1, [Mem(CHOICE, "a")], [Mem(NEST, "b", True)])], [Ev("f", 3, [Mem(NEST, "c")]), Ev("g", 2, [])], svc="second", sid=2)
    body = lambda p: "service %s (%s) {\n%s%s}\n" % (p.svc, p.sid, "".join(x.gr() for x in p.fns), "".join(x.gr() for x in p.evs))
    dec = lambda p: "".join(d.gr() for d in p.decls)
    out.append(("two", {"p.gr": "namespace vg\n" + dec(a) + body(a) + body(b)}, True, [a, b]))
    out.append(("two_r", {"p.gr": "namespace vg\n" + dec(a) + body(b) + body(a)}, True, [a, b]))
    # imports: same and other namespace, with or without the suffix, other directory, more than once
    for ext in ("", ".gr"):
        for sub in ("", "sub/", "../up/"):
            for ins in ("vg", "other"):
                mk = lambda n, m: Struct(n, m)
                for shape in ("one", "chain", "diamond", "service", "after", "between"):
                    base = Struct("pt", [Mem(T("int"), "x"), Mem(STR, "n")]); base.ns = ins
                    en = Enum("mode", [("off", None), ("on", 3)]); en.ns = ins
                    top = Struct("top", [Ext(base), Mem(base, "more", True), Mem(en, "e"), Mem(DEF, "d")])
                    f = {}
                    p = Proto("x", [en, DEF, base, top], [Fn("f", 1, [Mem(top, "a")], [Mem(en, "b", True), Mem(base, "c")])], [Ev("e", 2, [Mem(base, "pt")], short=True)])
                    imp = 'import "%slib%s"\n' % (sub, ext)
                    libtext = "namespace %s\n%s%s%s" % (ins, DEF.gr(), en.gr(), base.gr())
                    ps = [p]
                    lib = os.path.normpath("in/" + sub + "lib.gr")
                    if shape == "one":
                        f = {"in/p.gr": imp + "namespace vg\n" + top.gr() + body(p), lib: libtext}
                    elif shape == "after":              # the namespace of a file holds again after an import
                        f = {"in/p.gr": "namespace vg\n" + imp + top.gr() + body(p), lib: libtext}
                    elif shape == "between":
                        f = {"in/p.gr": "namespace vg\n" + DEF.gr() + imp + top.gr() + imp + body(p), lib: libtext}
                    elif shape == "chain":
                        f = {"in/p.gr": 'import "mid"\nnamespace vg\n' + DEF.gr() + top.gr() + body(p), "in/mid.gr": imp, lib: libtext}
                    elif shape == "diamond":
                        f = {"in/p.gr": 'import "mid"\n' + imp + "namespace vg\n" + DEF.gr() + top.gr() + body(p), "in/mid.gr": imp + "namespace third\n" + DEF.gr(), lib: libtext}
                    else:
                        q = Proto("x", [en, DEF, base], [Fn("f", 1, [Mem(base, "a")], [Mem(en, "b")])], [Ev("f", 2, [Mem(en, "mode")], short=True)], ns=ins, svc="libsvc", sid=9)
                        f = {"in/p.gr": imp + "namespace vg\n" + DEF.gr() + top.gr() + body(p), lib: libtext + body(q)}
                        ps = [p, q]
                    out.append(("imp%d" % len(out), f, True, ps))
    out.append(("imp_missing", {"p.gr": 'import "missing"\nnamespace vg\nservice s (1) {\n func f() : () = 1;\n}\n'}, False, []))
    return out


LEXBASE = """namespace vg
define uint16_t from "stdint.h"
enum kind { one , two = 5 , neg = -3 }
struct pair { string s ; uint32 n ; }
struct more { pair ; uint16_t [ ] d ; variant v { pair a ; uint8 b ; } }
service s ( 0x1F ) {
func f ( uint8 a , more [ ] b ) : ( kind r , pair q ) = 1 ;
func g ( ) : ( ) = 2 ;
event e : ( string t , kind k ) = 3 ;
event h : pair = 4 ;
}
"""


def run_lex(item, scratch):
    """the same tokens with other space and comments between them give the same files"""
    name, text, want = item
    d = "%s/lex_%s" % (scratch, name)
    os.makedirs(d, exist_ok=True)
    res = fresh(); res["cases"] = res["steps"] = res["sigs"] = 1
    try:
        open(d + "/p.gr", "w").write(text)
        rc, o = generate(d + "/p.gr", d, ("--client", "--server"))
        if rc:
            res["viol"].append(("a valid protocol is refused: %s" % o.strip()[-300:], text)); return res
        got = read_out(d)
        if want is not None and got != want:
            diff = [f for f in sorted(set(got) | set(want)) if got.get(f) != want.get(f)]
            res["viol"].append(("other space or comments change what is generated (%s)" % ", ".join(diff), text))
        res["out"] = got
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_out(d):
    return {f: open(d + "/" + f).read() for f in os.listdir(d) if f.endswith((".c", ".h"))}


def lex_space(tier):
    tok = LEXBASE.split()
    fill = [" ", "\n", "/* c */", "// c } ; \"\n", "\t\r\n", "/** * { **/ ", "/* c\n { d */", "/*\n*/", "/* a\r\n * b\n\n ; */"]
    out = []
    for i in range(len(tok) + 1):
        for j, f in enumerate(fill):
            if j == 0 and i:
                continue
            t = " ".join(tok[:i]) + " " + f + " " + " ".join(tok[i:])
            out.append(("%d_%d" % (i, j), t + "\n"))
    # no space at all where none is needed
    for t in (re.sub(r"\s*([{}();:,=\[\]])\s*", r"\1", LEXBASE), LEXBASE.strip(), LEXBASE.replace("\n", "\r\n"), LEXBASE.replace(" ", "\t"), LEXBASE.replace("0x1F", "31"), LEXBASE.replace("0x1F", "0x1f"), LEXBASE.replace("neg = -3 }", "neg = -3 , }")):
        out.append(("x%d" % len(out), t))
    return out


def run_flags(item, scratch):
    name, flags, want, p = item
    d = "%s/fl_%s" % (scratch, name)
    os.makedirs(d, exist_ok=True)
    res = fresh(); res["cases"] = res["steps"] = res["sigs"] = 1
    try:
        open(d + "/p.gr", "w").write(p)
        rc, o = generate(d + "/p.gr", d, flags)
        got = set(read_out(d))
        if rc or got != want:
            res["viol"].append(("with the options %s the files are %s instead of %s" % (" ".join(flags), sorted(got), sorted(want)), p))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def flag_space(tier):
    text = "namespace vg\n" + "".join("service %s (%d) {\n func f(int a) : (int b) = 1;\n event e : (int c) = 2;\n}\n" % (n, i + 1) for i, n in enumerate(("aa", "bb", "aab")))
    out = []
    for inc in (None, ["aa"], ["bb"], ["aab"], ["aa", "bb"], ["bb", "aab"], ["aa", "bb", "aab"], ["zz"]):
        for c in (0, 1):
            for s in (0, 1):
                fl = (["--include", ",".join(inc)] if inc else []) + ["--client"] * c + ["--server"] * s
                w = set()
                for n in ("aa", "bb", "aab"):
                    if inc is None or n in inc:
                        w.add("vg_%s_service.h" % n)
                        if c:
                            w |= {"vg_%s_service_client.h" % n, "vg_%s_service_client.c" % n}
                        if s:
                            w |= {"vg_%s_service_server.h" % n, "vg_%s_service_server.c" % n}
                out.append(("%d" % len(out), fl, w, text))
    return out


def accept_sweep(run, scenario, items, fn, scratch):
    t = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda i: fn(i, scratch), items))
    return finish(run, scenario, t, len(items), res, scratch, 0, [{"run": run, "trace": str(items[len(items) // 2])[:1500]}])


def decide(prop, spec, tier, scratch):
    out = []
    sc = scratch + "/gen"
    os.makedirs(sc, exist_ok=True)
    deep = "thorough" if spec.get("deep") else tier
    for w in spec["what"]:
        if w == "sig":
            a, b = signatures(deep)
            out.append(sweep("gen signatures", "gen_sig", pack("sg", a, b, a, 40), sc))
        elif w == "struct":
            out.append(sweep("gen structures", "gen_struct", struct_protos(deep), sc))
        elif w == "sizes":
            out.append(sweep("gen sizes", "gen_sizes", size_protos(deep), sc))
        elif w == "sizehelpers":
            out.append(sweep("gen helpers of large structures", "gen_sizehelpers", [p for p in size_protos(deep) if p.name == "ws"] + long_protos(), sc, helpers=True, depth=2))
        elif w == "helpers":
            out.append(sweep("gen structure helpers", "gen_helpers", struct_protos(deep), sc, helpers=True, depth=3 if tier == "quick" else 4))
        elif w == "ids":
            out.append(accept_sweep("gen ids", "gen_ids", id_space(tier), run_accept, sc))
        elif w == "types":
            out.append(accept_sweep("gen types", "gen_types", type_space(tier), run_accept, sc))
        elif w == "order":
            out.append(accept_sweep("gen declaration order", "gen_order", order_space(tier), run_accept, sc))
        elif w == "names":
            out.append(accept_sweep("gen names and imports", "gen_names", name_space(tier), run_accept, sc))
        elif w == "lex":
            base = run_lex(("base", LEXBASE, None), sc)
            want = base.pop("out", None)
            out.append(accept_sweep("gen text", "gen_text", [(n, t, want) for n, t in lex_space(tier)], run_lex, sc))
            out[-1]["violations"] += [{"what": w_, "file": None} for w_, _ in base["viol"]]
        elif w == "flags":
            out.append(accept_sweep("gen options", "gen_options", flag_space(tier), run_flags, sc))
    return out


RUNS = {"gen signatures": "sig", "gen structures": "struct", "gen sizes": "sizes", "gen helpers of large structures": "sizehelpers", "gen structure helpers": "helpers", "gen ids": "ids", "gen types": "types",
        "gen declaration order": "order", "gen names and imports": "names", "gen text": "lex", "gen options": "flags"}


def replay(run, scratch):
    return decide("", {"what": [RUNS[run]]}, "quick", scratch)[0]
