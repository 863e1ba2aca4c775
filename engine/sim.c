/* simnet: deterministic in-process sockets and epoll for the code under test. */
#define _GNU_SOURCE
#include "vs.h"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>

#define NSOCK 720
#define NFD   400
#define BUFCAP (1u << 18)
#define DEFCAP 65536
#define NDG   64
#define FD0   3

struct saddr { socklen_t len; unsigned char b[128]; };
struct dgram { struct saddr from; uint32_t len; uint32_t off; };
struct sim_sock {
    bool used, raw, listening, nonblock, closed, connected, eof, reset, wrshut, bound;
    int type, fd, domain;
    struct saddr local, peer_addr;
    struct sim_sock* peer;
    struct sim_sock* pend[16]; int npend;
    size_t head, len, cap;
    unsigned char* buf; uint64_t act; /* activity: what an edge-triggered epoll set goes by */
    struct dgram dg[NDG]; int dgh, dgn;
    struct vs_obj o;
};
struct ep { bool used; struct { int fd; uint32_t ev; uint64_t data, seen; } reg[NFD]; int n; uint64_t last; struct vs_obj o; };
static struct sim_sock SK[NSOCK]; static int nSK;
static unsigned char BUF[NSOCK][BUFCAP];
static struct ep EP[4];
static struct { char kind; void* p; } FD[NFD];
static struct vs_obj fdtab_o; static uint64_t progress;
static size_t defcap; static bool sigpipe_ignored; static int next_port; static int bad_close; static bool unread_reset;
static int fail_send_n, fail_send_err, short_io, fdbase, nidle;

void sim_reset(void) {
    for (int i = 0; i < nSK; i++) memset(&SK[i], 0, sizeof SK[i]);
    nSK = nidle = 0; progress = 1; memset(EP, 0, sizeof EP); memset(FD, 0, sizeof FD); memset(&fdtab_o, 0, sizeof fdtab_o);
    defcap = DEFCAP; sigpipe_ignored = false; next_port = 40000; bad_close = 0; unread_reset = false; fail_send_n = 0; short_io = 0; fdbase = (int)vs_param("fdbase", 0);
}
void sim_set_capacity(size_t n) { defcap = n > BUFCAP ? BUFCAP : n; }
void sim_set_fdbase(int n) { fdbase = n; }
void sim_set_short(int mask) { short_io = mask; }
void sim_set_errs(int on) { unread_reset = on; }
void sim_fail_send(int nth, int err) { fail_send_n = nth; fail_send_err = err; }
long sim_ctr(const char* w) { return !strcmp(w, "close_bad") ? bad_close : 0; }

static int idle[NSOCK]; /* places of sockets nobody refers to any more */
void sim_forget(struct sim_sock* s) { /* both ends are closed, the scenario will not look at it again */
    struct sim_sock* e[2] = { s, s->peer };
    for (int i = 0; i < 2; i++) if (e[i] && (!e[i]->closed || e[i]->listening || e[i]->type != SOCK_STREAM)) return;
    for (int i = 0; i < 2; i++) if (e[i]) { memset(e[i], 0, sizeof *e[i]); idle[nidle++] = (int)(e[i] - SK); }
}
static struct sim_sock* mksock(int domain, int type, bool raw) {
    if (nSK == NSOCK && !nidle) vs_fail("vs-internal: too many sockets");
    int at = nidle ? idle[--nidle] : nSK++;
    struct sim_sock* s = &SK[at];
    memset(s, 0, sizeof *s);
    s->buf = BUF[at];
    s->used = true; s->raw = raw; s->type = type; s->domain = domain; s->fd = -1; s->cap = defcap;
    s->o.w = vs_mix(0x50c, (uint64_t)(at + 1));
    return s;
}
static int newfd(char kind, void* p) {
    vs_visible(&fdtab_o, 0x90, true, true, true);
    for (int i = FD0 + fdbase; i < NFD; i++) if (!FD[i].kind) { FD[i].kind = kind; FD[i].p = p; return i; }
    errno = EMFILE; return -1;
}
static struct sim_sock* sk(int fd) { return fd >= FD0 && fd < NFD && FD[fd].kind == 's' ? FD[fd].p : NULL; }
static struct ep* epo(int fd) { return fd >= FD0 && fd < NFD && FD[fd].kind == 'e' ? FD[fd].p : NULL; }
bool sim_fd_open(int fd) { return fd >= FD0 && fd < NFD && FD[fd].kind; }
int sim_open_fds(void) { int n = 0; for (int i = FD0; i < NFD; i++) n += FD[i].kind != 0; return n; }
static void W(struct sim_sock* s, uint64_t op) { vs_visible(&s->o, op, true, true, true); }

/* addresses */
static void canon(struct saddr* a, const void* p, socklen_t len) {
    memset(a, 0, sizeof *a);
    if (len > sizeof a->b) len = sizeof a->b;
    memcpy(a->b, p, len);
    int fam = len >= 2 ? ((const struct sockaddr*)p)->sa_family : 0;
    if (fam == AF_UNIX) {
        const char* path = (const char*)a->b + 2; size_t max = len - 2;
        if (max && path[0]) { size_t n = strnlen(path, max); a->len = (socklen_t)(2 + n + 1); if (2 + n + 1 < sizeof a->b) memset(a->b + 2 + n, 0, sizeof a->b - 2 - n); }
        else a->len = len;
    } else if (fam == AF_INET) { a->len = sizeof(struct sockaddr_in); memset(a->b + 8, 0, sizeof a->b - 8); }
    else if (fam == AF_INET6) a->len = sizeof(struct sockaddr_in6);
    else a->len = len;
}
/* what Linux says about the length of an address */
static bool badaddr(const void* p, socklen_t len) {
    int fam = len >= 2 ? ((const struct sockaddr*)p)->sa_family : 0;
    return len < 2 || len > sizeof(struct sockaddr_storage) || (fam == AF_UNIX && len > sizeof(struct sockaddr_un)) || (fam == AF_INET && len < sizeof(struct sockaddr_in)) || (fam == AF_INET6 && len < 24);
}
static bool aeq(const struct saddr* a, const struct saddr* b) { return a->len == b->len && !memcmp(a->b, b->b, a->len); }
int sim_make_addr(const char* path, int len, void* out) {
    memset(out, 0, sizeof(struct sockaddr_storage));
    if (!strncmp(path, "inet:#", 6) || !strncmp(path, "inet6:#", 7)) { /* the bytes after the family, in hex */
        unsigned char* b = out; struct sockaddr* sa = out; bool six = path[4] == '6'; const char* h = path + 6 + six; int n = 2;
        sa->sa_family = six ? AF_INET6 : AF_INET;
        for (; h[0] && h[1]; h += 2) { unsigned v = 0; sscanf(h, "%2x", &v); b[n++] = (unsigned char)v; }
        return six ? (int)sizeof(struct sockaddr_in6) : (int)sizeof(struct sockaddr_in);
    }
    if (!strncmp(path, "inet:", 5)) {
        struct sockaddr_in* s = out; s->sin_family = AF_INET; s->sin_port = htons((uint16_t)(10000 + path[5])); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return sizeof *s;
    }
    if (!strncmp(path, "inet6:", 6)) {
        struct sockaddr_in6* s = out; s->sin6_family = AF_INET6; s->sin6_port = htons((uint16_t)(10000 + path[6])); s->sin6_addr = in6addr_loopback;
        return sizeof *s;
    }
    struct sockaddr_un* u = out; u->sun_family = AF_UNIX; snprintf(u->sun_path, sizeof u->sun_path, "%s", path);
    return len > 0 ? len : (int)sizeof *u;
}
static struct sim_sock* find_bound(const struct saddr* a, int type, bool listening) {
    for (int i = 0; i < nSK; i++) if (SK[i].used && !SK[i].closed && SK[i].bound && SK[i].type == type && (!listening || SK[i].listening) && aeq(&SK[i].local, a)) return &SK[i];
    return NULL;
}
static void autobind(struct sim_sock* s, int family) {
    if (s->bound) return;
    if (family == AF_INET) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons((uint16_t)next_port++); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); canon(&s->local, &in, sizeof in); s->bound = true; }
    else if (family == AF_INET6) { struct sockaddr_in6 in; memset(&in, 0, sizeof in); in.sin6_family = AF_INET6; in.sin6_port = htons((uint16_t)next_port++); in.sin6_addr = in6addr_loopback; canon(&s->local, &in, sizeof in); s->bound = true; }
}

/* ---- syscalls of the code under test ---- */
static bool pred_pend(void* a) { struct sim_sock* s = a; return s->npend > 0 || s->closed; }
static bool pred_in(void* a) { struct sim_sock* s = a; return s->len > 0 || s->eof || s->reset || s->closed; }
static bool pred_dg(void* a) { struct sim_sock* s = a; return s->dgn > 0 || s->closed; }
static bool pred_room(void* a) { struct sim_sock* s = a; return s->closed || s->len < s->cap; }
static bool pred_dgroom(void* a) { struct sim_sock* s = a; return s->closed || s->dgn < NDG; }

int vs_socket(int d, int t, int p) { (void)p; vs_point("socket"); if (vs_refusal("refused socket")) { errno = EMFILE; return -1; } struct sim_sock* s = mksock(d, t & 0xf, false); int fd = newfd('s', s); s->fd = fd; if (t & SOCK_NONBLOCK) s->nonblock = true; return fd; }
int vs_bind(int fd, const struct sockaddr* a, socklen_t l) {
    vs_point("bind"); struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    vs_check_access(a, l, false, NULL);
    if (badaddr(a, l)) { errno = EINVAL; return -1; }
    if (vs_refusal("refused address")) { errno = EADDRINUSE; return -1; }
    struct saddr c; canon(&c, a, l);
    if (s->bound) { errno = EINVAL; return -1; }
    if (((const struct sockaddr*)a)->sa_family == AF_UNIX && l == sizeof(sa_family_t)) { /* Linux picks an abstract name */
        struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; snprintf(u.sun_path + 1, 8, "%05x", next_port++);
        canon(&c, &u, sizeof(sa_family_t) + 6);
    }
    if (find_bound(&c, s->type, false)) { errno = EADDRINUSE; return -1; }
    W(s, 0x91); s->local = c; s->bound = true; return 0;
}
int vs_listen(int fd, int b) { (void)b; vs_point("listen"); struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (vs_refusal("refused listen")) { errno = EADDRINUSE; return -1; } W(s, 0x92); s->listening = true; return 0; }
static struct sim_sock* do_connect_stream(struct sim_sock* s, struct sim_sock* l) {
    struct sim_sock* c = mksock(s->domain, SOCK_STREAM, false);
    if (l->npend == 16) return NULL;
    W(l, 0x93); W(s, 0x94); progress++;
    c->peer = s; s->peer = c; c->connected = s->connected = true; c->local = l->local; c->peer_addr = s->local; c->raw = l->raw;
    l->pend[l->npend++] = c; l->act++;
    return c;
}
int vs_connect(int fd, const struct sockaddr* a, socklen_t l) {
    vs_point("connect"); struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    vs_check_access(a, l, false, NULL);
    if (badaddr(a, l)) { errno = EINVAL; return -1; }
    struct saddr c; canon(&c, a, l);
    struct sim_sock* t = find_bound(&c, s->type, s->type == SOCK_STREAM);
    if (!t || vs_refusal("refused connection")) { errno = ECONNREFUSED; return -1; }
    if (s->type == SOCK_DGRAM) { W(s, 0x95); s->peer_addr = c; s->connected = true; autobind(s, s->domain); return 0; }
    if (!do_connect_stream(s, t)) { errno = ECONNREFUSED; return -1; }
    return 0;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l, bool nb) {
    vs_point("accept"); struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    if (!s->listening) { errno = EINVAL; return -1; }
    if (!s->npend && s->nonblock) { W(s, 0x96); errno = EAGAIN; return -1; }
    vs_block(pred_pend, s, "accept");
    if (s->closed) { errno = EBADF; return -1; }
    W(s, 0x96); progress++;
    if (vs_refusal("refused accept")) { errno = EMFILE; return -1; }
    if (short_io & 16) { int c = vs_choose_env(3, "failing accept"); if (c) { errno = c == 1 ? EMFILE : ECONNABORTED; return -1; } }
    struct sim_sock* c = s->pend[0]; memmove(&s->pend[0], &s->pend[1], sizeof(s->pend[0]) * (size_t)(--s->npend));
    int n = newfd('s', c); c->fd = n; c->nonblock = nb; W(c, 0x97);
    if (a && l) { vs_check_access(l, sizeof *l, true, NULL); socklen_t m = c->peer_addr.len < *l ? c->peer_addr.len : *l; if (m) { vs_check_access(a, m, true, NULL); memcpy(a, c->peer_addr.b, m); } *l = c->peer_addr.len; }
    return n;
}
int vs_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, false); }
int vs_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { return do_accept(fd, a, l, fl & SOCK_NONBLOCK); }

static void put(struct sim_sock* t, const unsigned char* p, size_t n) {
    progress++; t->act++;
    for (size_t i = 0; i < n; i++) t->buf[(t->head + t->len + i) % BUFCAP] = p[i];
    t->len += n;
}
static size_t get(struct sim_sock* s, unsigned char* p, size_t n, bool peek) {
    if (n > s->len) n = s->len;
    for (size_t i = 0; i < n; i++) p[i] = s->buf[(s->head + i) % BUFCAP];
    if (!peek) { progress++; s->head = (s->head + n) % BUFCAP; s->len -= n; }
    return n;
}
static void sigpipe(int flags) { if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored) vs_fail("SIGPIPE: the process is killed by a send to a closed connection"); }
static ssize_t stream_send(struct sim_sock* s, const unsigned char* p, size_t n, int flags) {
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    if (!s->connected) { errno = ENOTCONN; sigpipe(flags); return -1; }
    size_t done = 0;
    while (1) {
        struct sim_sock* t = s->peer;
        if (s->closed) { errno = EBADF; return done ? (ssize_t)done : -1; }
        if (s->reset || s->wrshut || !t || t->closed) { W(s, 0x98); if (done) return (ssize_t)done; errno = EPIPE; sigpipe(flags); return -1; }
        if (!n) return 0;
        size_t room = t->cap > t->len ? t->cap - t->len : 0;
        if (!room) {
            if (nb) { W(t, 0x99); if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
            vs_block(pred_room, t, "send (waiting for buffer space)");
            continue;
        }
        size_t k = n - done < room ? n - done : room;
        if ((short_io & 2) && !done && k > 1) { int c = vs_choose_env(k > 3 ? 4 : 3, "short send"); if (c) { k = c == 1 ? 1 : c == 2 ? k - 1 : k / 2; W(t, 0x9a); put(t, p, k); return (ssize_t)k; } }
        W(t, 0x9a); put(t, p + done, k); done += k;
        if (done == n) return (ssize_t)n;
        vs_point("send (continued)");
    }
}
static ssize_t dg_send(struct sim_sock* s, const struct saddr* to, const void* p, size_t n, int flags) {
    struct sim_sock* t = find_bound(to, SOCK_DGRAM, false);
    if (!t) { errno = s->domain == AF_UNIX ? ECONNREFUSED : ECONNREFUSED; return -1; }
    if (n > 4000) { errno = EMSGSIZE; return -1; }
    if (t->dgn == NDG || t->len + n > BUFCAP) { if (s->nonblock || (flags & MSG_DONTWAIT)) { W(t, 0x9b); errno = EAGAIN; return -1; } vs_block(pred_dgroom, t, "sendto"); }
    if (t->closed) { errno = ECONNREFUSED; return -1; }
    autobind(s, s->domain);
    W(t, 0x9c);
    struct dgram* d = &t->dg[(t->dgh + t->dgn++) % NDG];
    d->from = s->bound ? s->local : (struct saddr){0}; d->len = (uint32_t)n;
    put(t, p, n);
    return (ssize_t)n;
}
static ssize_t do_send(int fd, const void* p, size_t n, int flags, const struct saddr* to, const char* what) {
    vs_point(what);
    struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    vs_check_access(p, n, false, __builtin_return_address(0));
    if ((short_io & 4) && vs_choose_env(2, "interrupted send")) { errno = EINTR; return -1; }
    if (fail_send_n && --fail_send_n == 0) { errno = fail_send_err; return -1; }
    if (s->type == SOCK_STREAM) return stream_send(s, p, n, flags);
    if (to) return dg_send(s, to, p, n, flags);
    if (!s->connected) { errno = s->domain == AF_UNIX ? ENOTCONN : EDESTADDRREQ; return -1; }
    return dg_send(s, &s->peer_addr, p, n, flags);
}
ssize_t vs_send(int fd, const void* p, size_t n, int flags) { return do_send(fd, p, n, flags, NULL, "send"); }
ssize_t vs_write(int fd, const void* p, size_t n) { return do_send(fd, p, n, 0, NULL, "write"); }
ssize_t vs_sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
    if (!a) return do_send(fd, p, n, flags, NULL, "sendto");
    vs_check_access(a, l, false, NULL);
    if (badaddr(a, l)) { errno = EINVAL; return -1; }
    struct saddr c; canon(&c, a, l);
    return do_send(fd, p, n, flags, &c, "sendto");
}
ssize_t vs_sendmsg(int fd, const struct msghdr* m, int flags) {
    static unsigned char tmp[BUFCAP]; size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) { vs_check_access(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false, NULL); if (n + m->msg_iov[i].iov_len > sizeof tmp) { errno = EMSGSIZE; return -1; } memcpy(tmp + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); n += m->msg_iov[i].iov_len; }
    unsigned char loc[8192]; if (n > sizeof loc) { errno = EMSGSIZE; return -1; } memcpy(loc, tmp, n);
    struct saddr c; bool has = m->msg_name && m->msg_namelen; if (has && badaddr(m->msg_name, m->msg_namelen)) { errno = EINVAL; return -1; } if (has) canon(&c, m->msg_name, m->msg_namelen);
    return do_send(fd, loc, n, flags, has ? &c : NULL, "sendmsg");
}
ssize_t vs_writev(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (struct iovec*)v; m.msg_iovlen = (size_t)n; return vs_sendmsg(fd, &m, 0); }
static ssize_t stream_recv(struct sim_sock* s, unsigned char* p, size_t n, int flags) {
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    if (!s->connected) { errno = ENOTCONN; return -1; }
    size_t done = 0;
    if (!n) return 0;
    while (1) {
        if (s->closed) { errno = EBADF; return -1; }
        if (s->reset) { W(s, 0x9d); if (done) return (ssize_t)done; errno = ECONNRESET; return -1; }
        if (!s->len) {
            if (s->eof) { W(s, 0x9e); return (ssize_t)done; }
            if (nb) { W(s, 0x9f); if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
            vs_block(pred_in, s, "recv");
            continue;
        }
        W(s, 0xa0); bool cutshort = false;
        size_t k = n - done < s->len ? n - done : s->len;
        if ((short_io & 1) && !done && k > 1 && (!(flags & MSG_WAITALL) || (short_io & 8))) { int c = vs_choose_env(k > 3 ? 4 : 3, "short receive"); if (c) { k = c == 1 ? 1 : c == 2 ? k - 1 : k / 2; cutshort = true; } }
        vs_check_access(p + done, k, true, NULL);
        done += get(s, p + done, k, flags & MSG_PEEK);
        if (cutshort) return (ssize_t)done;
        if (done == n || !(flags & MSG_WAITALL) || (flags & MSG_PEEK)) return (ssize_t)done;
        if (!nb && !s->len) { if (!s->eof && !s->reset) vs_block(pred_in, s, "recv (rest of the message)"); }
    }
}
static ssize_t do_recv(int fd, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* l, const char* what) {
    vs_point(what);
    struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    if ((short_io & 4) && vs_choose_env(2, "interrupted receive")) { errno = EINTR; return -1; }
    if (s->type == SOCK_STREAM) return stream_recv(s, p, n, flags);
    if (!s->dgn && (s->nonblock || (flags & MSG_DONTWAIT))) { W(s, 0xa1); errno = EAGAIN; return -1; }
    vs_block(pred_dg, s, what);
    if (s->closed) { errno = EBADF; return -1; }
    W(s, 0xa2);
    struct dgram* d = &s->dg[s->dgh];
    size_t k = d->len < n ? d->len : n;
    vs_check_access(p, k, true, NULL);
    static unsigned char tmp[8192];
    get(s, tmp, d->len, flags & MSG_PEEK); memcpy(p, tmp, k);
    if (l) { vs_check_access(l, sizeof *l, true, NULL); if (a) { socklen_t m = d->from.len < *l ? d->from.len : *l; if (m) { vs_check_access(a, m, true, NULL); memcpy(a, d->from.b, m); } } *l = d->from.len; }
    size_t full = d->len;
    if (!(flags & MSG_PEEK)) { s->dgh = (s->dgh + 1) % NDG; s->dgn--; }
    return (ssize_t)((flags & MSG_TRUNC) ? full : k);
}
ssize_t vs_recv(int fd, void* p, size_t n, int flags) { return do_recv(fd, p, n, flags, NULL, NULL, "recv"); }
ssize_t vs_read(int fd, void* p, size_t n) { return do_recv(fd, p, n, 0, NULL, NULL, "read"); }
ssize_t vs_recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* l) { return do_recv(fd, p, n, flags, a, l, "recvfrom"); }
ssize_t vs_recvmsg(int fd, struct msghdr* m, int flags) {
    unsigned char loc[8192]; size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    if (tot > sizeof loc) tot = sizeof loc;
    socklen_t l = m->msg_namelen;
    ssize_t r = do_recv(fd, loc, tot, flags & ~MSG_TRUNC, m->msg_name, m->msg_name ? &l : NULL, "recvmsg");
    if (r < 0) return r;
    size_t off = 0; for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; i++) { size_t k = m->msg_iov[i].iov_len < (size_t)r - off ? m->msg_iov[i].iov_len : (size_t)r - off; vs_check_access(m->msg_iov[i].iov_base, k, true, NULL); memcpy(m->msg_iov[i].iov_base, loc + off, k); off += k; }
    m->msg_namelen = l; m->msg_flags = 0; m->msg_controllen = 0;
    return r;
}
ssize_t vs_readv(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (struct iovec*)v; m.msg_iovlen = (size_t)n; return vs_recvmsg(fd, &m, 0); }
static void sock_close(struct sim_sock* s) {
    W(s, 0xa3); progress++;
    s->closed = true;
    if (s->peer) { W(s->peer, 0xa4); s->peer->eof = true; s->peer->act++; if (unread_reset && s->len) s->peer->reset = true; }
    for (int i = 0; i < s->npend; i++) if (s->pend[i]->peer) s->pend[i]->peer->eof = true;
}
int vs_close(int fd) {
    vs_point("close");
    if (!sim_fd_open(fd)) { bad_close++; vs_fail("descriptor: close of a descriptor that is not open"); }
    vs_visible(&fdtab_o, 0xa5, true, true, true);
    char k = FD[fd].kind; void* p = FD[fd].p;
    FD[fd].kind = 0; FD[fd].p = NULL;
    if (k == 's') sock_close(p);
    if (k == 'e') ((struct ep*)p)->used = false;
    for (int e = 0; e < 4; e++) for (int i = 0; i < EP[e].n; ) if (EP[e].reg[i].fd == fd) { vs_visible(&EP[e].o, 0xa6, true, true, true); memmove(&EP[e].reg[i], &EP[e].reg[i + 1], sizeof EP[e].reg[0] * (size_t)(EP[e].n - i - 1)); EP[e].n--; } else i++;
    return 0;
}
void sim_close_fd(int fd) { vs_close(fd); }
int vs_shutdown(int fd, int how) {
    vs_point("shutdown"); struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    W(s, 0xa7); progress++;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->wrshut = true; if (s->peer) { W(s->peer, 0xa4); s->peer->eof = true; s->peer->act++; } }
    if (how == SHUT_RD || how == SHUT_RDWR) s->eof = true;
    return 0;
}
int vs_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    if (cmd == F_SETFL) { s->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int vs_ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; return 0; }
int vs_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int vs_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { (void)fd; (void)l; (void)o; if (v && n && *n >= 4) { int z = 0; memcpy(v, &z, 4); *n = 4; } return 0; }
int vs_getsockname(int fd, struct sockaddr* a, socklen_t* l) { struct sim_sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } socklen_t m = s->local.len < *l ? s->local.len : *l; memcpy(a, s->local.b, m); *l = s->local.len; return 0; }
int vs_getpeername(int fd, struct sockaddr* a, socklen_t* l) { struct sim_sock* s = sk(fd); if (!s || !s->connected) { errno = ENOTCONN; return -1; } socklen_t m = s->peer_addr.len < *l ? s->peer_addr.len : *l; memcpy(a, s->peer_addr.b, m); *l = s->peer_addr.len; return 0; }
int vs_unlink(const char* p) { (void)p; return 0; }
void* vs_signal(int sig, void* h) { if (sig == SIGPIPE && h == (void*)SIG_IGN) sigpipe_ignored = true; return NULL; }
int vs_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { (void)o; if (sig == SIGPIPE && a && a->sa_handler == SIG_IGN) sigpipe_ignored = true; return 0; }

/* ---- epoll ---- */
static uint32_t ready(int fd) {
    struct sim_sock* s = sk(fd); uint32_t e = 0;
    if (!s) return 0;
    if (s->listening) return s->npend ? EPOLLIN : 0;
    if (s->type == SOCK_DGRAM) return EPOLLOUT | (s->dgn ? EPOLLIN : 0);
    if (s->len || s->eof || s->reset) e |= EPOLLIN;
    if (s->eof || s->reset) e |= EPOLLRDHUP;
    if (s->reset || (s->eof && s->peer && s->peer->closed && s->domain == AF_UNIX)) e |= EPOLLHUP;
    if (s->reset) e |= EPOLLERR;
    if (s->peer && s->peer->len < s->peer->cap) e |= EPOLLOUT;
    return e;
}
static uint32_t due(struct ep* e, int i) {
    struct sim_sock* s = sk(e->reg[i].fd);
    if ((e->reg[i].ev & EPOLLET) && s && s->act == e->reg[i].seen) return 0;
    return ready(e->reg[i].fd) & (e->reg[i].ev | EPOLLHUP | EPOLLERR);
}
int vs_epoll_create1(int f) { (void)f; vs_point("epoll_create"); if (vs_refusal("refused epoll set")) { errno = EMFILE; return -1; } for (int i = 0; i < 4; i++) if (!EP[i].used) { EP[i].used = true; EP[i].n = 0; return newfd('e', &EP[i]); } errno = EMFILE; return -1; }
int vs_epoll_create(int n) { (void)n; return vs_epoll_create1(0); }
int sim_epoll_create(void) { return vs_epoll_create1(0); }
int vs_epoll_ctl(int efd, int op, int fd, struct epoll_event* ev) {
    vs_point("epoll_ctl");
    struct ep* e = epo(efd); if (!e) { errno = EBADF; return -1; }
    if (!sim_fd_open(fd)) { errno = EBADF; return -1; }
    vs_visible(&e->o, 0xa8, true, true, true); progress++;
    int i; for (i = 0; i < e->n; i++) if (e->reg[i].fd == fd) break;
    if (op == EPOLL_CTL_ADD) { if (vs_refusal("refused place in the epoll set")) { errno = ENOSPC; return -1; } if (i < e->n) { errno = EEXIST; return -1; } if (e->n == NFD) { errno = ENOSPC; return -1; } vs_check_access(ev, sizeof *ev, false, NULL); e->reg[e->n].fd = fd; e->reg[e->n].ev = ev->events; e->reg[e->n].seen = UINT64_MAX; e->reg[e->n++].data = ev->data.u64; return 0; }
    if (i == e->n) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_MOD) { e->reg[i].ev = ev->events; e->reg[i].seen = UINT64_MAX; e->reg[i].data = ev->data.u64; return 0; }
    memmove(&e->reg[i], &e->reg[i + 1], sizeof e->reg[0] * (size_t)(e->n - i - 1)); e->n--;
    return 0;
}
static bool pred_ep(void* a) {
    struct ep* e = a;
    if (!e->used) return true;
    for (int i = 0; i < e->n; i++) if (due(e, i)) return true;
    return false;
}
int vs_epoll_wait(int efd, struct epoll_event* out, int max, int timeout) {
    vs_point("epoll_wait");
    struct ep* e = epo(efd); if (!e) { errno = EBADF; return -1; }
    if (timeout < 0) { if (pred_ep(e) && e->last == progress + vs_refused()) vs_spin_block("epoll_wait (polling)"); vs_block(pred_ep, e, "epoll_wait"); }
    else if (timeout > 0 && !pred_ep(e)) { extern void vs_thrd_yield(void); vs_thrd_yield(); }
    if (!e->used) { errno = EBADF; return -1; }
    vs_visible(&e->o, 0xa9, false, true, false);
    if ((short_io & 32) && vs_choose_env(2, "interrupted wait")) { progress++; errno = EINTR; return -1; }
    int n = 0; e->last = progress + vs_refused();
    for (int i = 0; i < e->n; i++) {
        struct sim_sock* s = sk(e->reg[i].fd); if (s) vs_visible(&s->o, 0xaa, false, true, false);
        uint32_t r = due(e, i);
        if (r && n < max) { if (s) e->reg[i].seen = s->act; vs_check_access(&out[n], sizeof out[n], true, NULL); out[n].events = r; out[n].data.u64 = e->reg[i].data; n++; if (e->reg[i].ev & EPOLLONESHOT) e->reg[i].ev = 0; }
    }
    return n;
}
int sim_ready_events(int efd, int* fds, unsigned* evs, int max) {
    struct ep* e = epo(efd); int n = 0; if (!e) return 0;
    for (int i = 0; i < e->n && n < max; i++) { uint32_t r = due(e, i); if (r) { fds[n] = (int)e->reg[i].data; evs[n++] = r; } }
    return n;
}
int vs_poll(struct pollfd* p, nfds_t n, int timeout) {
    vs_point("poll"); (void)timeout; int c = 0;
    for (nfds_t i = 0; i < n; i++) { uint32_t r = ready(p[i].fd); p[i].revents = 0; if (r & EPOLLIN) p[i].revents |= POLLIN; if (r & EPOLLOUT) p[i].revents |= POLLOUT; p[i].revents &= p[i].events; if (p[i].revents) c++; }
    return c;
}

/* ---- raw peers ---- */
static void addr_of(const char* path, int len, struct saddr* a) { struct sockaddr_storage ss; int l = sim_make_addr(path, len, &ss); canon(a, &ss, (socklen_t)l); }
struct sim_sock* sim_raw_connect(const char* path) {
    vs_point("peer connect");
    struct saddr a; addr_of(path, 0, &a);
    struct sim_sock* l = find_bound(&a, SOCK_STREAM, true);
    if (!l) return NULL;
    struct sim_sock* s = mksock(AF_UNIX, SOCK_STREAM, true);
    return do_connect_stream(s, l) ? s : NULL;
}
int sim_server_fd(struct sim_sock* s) { return s->peer && !s->peer->closed ? s->peer->fd : -1; }
int sim_raw_send(struct sim_sock* s, const void* p, size_t n) {
    vs_point("peer send");
    if (!s->peer || s->peer->closed || s->reset) return -1;
    if (s->peer->len + n > BUFCAP) vs_fail("vs-internal: raw peer overflows the buffer");
    W(s->peer, 0xab); put(s->peer, p, n);
    return (int)n;
}
size_t sim_raw_room(struct sim_sock* s) { return s->peer && !s->peer->closed ? BUFCAP - s->peer->len : BUFCAP; }
size_t sim_raw_avail(struct sim_sock* s) { return s->len; }
size_t sim_raw_recv(struct sim_sock* s, void* p, size_t n) { vs_point("peer recv"); W(s, 0xac); return get(s, p, n, false); }
bool sim_raw_eof(struct sim_sock* s) { return s->eof || s->reset; }
void sim_raw_close(struct sim_sock* s) { vs_point("peer close"); if (!s->closed) sock_close(s); }
void sim_raw_shutdown(struct sim_sock* s) { vs_point("peer shutdown"); if (s->peer) { progress++; W(s->peer, 0xa4); s->peer->eof = true; s->peer->act++; } }
void sim_raw_reset(struct sim_sock* s) { vs_point("peer reset"); if (s->peer) { progress++; W(s->peer, 0xad); s->peer->reset = true; s->peer->act++; s->peer->len = 0; } if (!s->closed) sock_close(s); }
struct sim_sock* sim_raw_listen(const char* path) { struct sim_sock* s = mksock(AF_UNIX, SOCK_STREAM, true); addr_of(path, 0, &s->local); s->bound = true; s->listening = true; return s; }
struct sim_sock* sim_raw_accept(struct sim_sock* s) { vs_point("peer accept"); if (!s->npend) return NULL; W(s, 0xae); struct sim_sock* c = s->pend[0]; memmove(&s->pend[0], &s->pend[1], sizeof(s->pend[0]) * (size_t)(--s->npend)); c->raw = true; return c; }
struct sim_sock* sim_raw_dgram(const char* path, int addrlen) { struct sim_sock* s = mksock(!strncmp(path, "inet", 4) ? AF_INET : AF_UNIX, SOCK_DGRAM, true); addr_of(path, addrlen, &s->local); s->bound = true; return s; }
int sim_raw_sendto(struct sim_sock* s, const char* path, int addrlen, const void* p, size_t n) { vs_point("peer sendto"); struct saddr a; addr_of(path, addrlen, &a); return (int)dg_send(s, &a, p, n, MSG_DONTWAIT); }
long sim_raw_recvfrom(struct sim_sock* s, void* p, size_t n) {
    vs_point("peer recvfrom"); W(s, 0xaf);
    if (!s->dgn) return -1;
    struct dgram* d = &s->dg[s->dgh]; static unsigned char tmp[8192];
    size_t L = d->len; get(s, tmp, L, false); memcpy(p, tmp, L < n ? L : n); s->peer_addr = d->from;
    s->dgh = (s->dgh + 1) % NDG; s->dgn--;
    return (long)L;
}
int sim_raw_reply(struct sim_sock* s, const void* p, size_t n) { vs_point("peer reply"); if (!s->peer_addr.len) return -1; return (int)dg_send(s, &s->peer_addr, p, n, MSG_DONTWAIT); }
void sim_raw_dgclose(struct sim_sock* s) { vs_point("peer close"); W(s, 0xb0); progress++; s->closed = true; for (int i = 0; i < nSK; i++) if (SK[i].used && !SK[i].closed && SK[i].type == SOCK_DGRAM && SK[i].connected && SK[i].domain != AF_UNIX && aeq(&SK[i].peer_addr, &s->local)) { W(&SK[i], 0xb1); } }
