/* A libxcm.so.0 for tests: messages over abstract AF_UNIX SOCK_SEQPACKET sockets, for any address.
 * Every handle and every buffer it is given is checked; misuse is written to $XCM_SHIM_LOG and ends the process. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#define MAX_MSG 65535
#define MAGIC_S 0x58434d53u
#define MAGIC_A 0x58434d41u
#define MAGIC_DEAD 0xdeaddeadu

enum { T_BOOL = 1, T_INT, T_STR, T_BIN };

struct attr { char *name; int type; int64_t i; char *s; size_t len; struct attr *next; };
struct map { uint32_t magic; struct attr *first; };
struct sock {
    uint32_t magic;
    int fd, ep;
    bool server, blocking;
    int cond, sends;
    char addr[256], remote[256], ski[128];
    bool keepalive;
    struct attr *attrs;
};

/* counters, readable by the harness */
long xcmshim_live_socks, xcmshim_live_maps, xcmshim_calls;
/* fault injection: the n-th coming call of kind fails with err (n counts down) */
int xcmshim_fault_kind, xcmshim_fault_n, xcmshim_fault_err;
enum { F_CONNECT = 1, F_SERVER, F_ACCEPT, F_SEND, F_RECEIVE, F_FINISH, F_GET, F_SET, F_AWAIT, F_FD,
    F_BLOCKING };

static void note(const char *fmt, ...)
{
    const char *log = getenv("XCM_SHIM_LOG");
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
    va_end(ap);
    if (n < 0)
        return;
    if (n > (int)sizeof(buf) - 2)
        n = sizeof(buf) - 2;
    buf[n++] = '\n';
    if (log == NULL)
        return;
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd >= 0) {
        (void)!write(fd, buf, n);
        close(fd);
    }
}

static void misuse(const char *fun, const char *what)
{
    note("MISUSE %s: %s", fun, what);
    fprintf(stderr, "XCM MISUSE %s: %s\n", fun, what);
    fflush(stderr);
    abort();
}

static bool fault(int kind)
{
    xcmshim_calls++;
    if (xcmshim_fault_kind == kind && xcmshim_fault_n > 0 && --xcmshim_fault_n == 0) {
        errno = xcmshim_fault_err;
        return true;
    }
    return false;
}

static struct sock *chk(void *p, const char *fun)
{
    struct sock *s = p;
    if (s == NULL)
        misuse(fun, "NULL socket");
    if (s->magic == MAGIC_DEAD)
        misuse(fun, "socket used after close");
    if (s->magic != MAGIC_S)
        misuse(fun, "no socket");
    return s;
}

static struct map *chkmap(void *p, const char *fun)
{
    struct map *m = p;
    if (m == NULL)
        misuse(fun, "NULL attribute map");
    if (m->magic == MAGIC_DEAD)
        misuse(fun, "attribute map used after destruction");
    if (m->magic != MAGIC_A)
        misuse(fun, "no attribute map");
    return m;
}

static struct attr *find(struct attr *a, const char *name)
{
    for (; a != NULL; a = a->next)
        if (strcmp(a->name, name) == 0)
            return a;
    return NULL;
}

static void put(struct attr **list, const char *name, int type, int64_t i, const char *s)
{
    struct attr *a = find(*list, name);
    if (a == NULL) {
        a = calloc(1, sizeof(*a));
        a->name = strdup(name);
        a->next = *list;
        *list = a;
    }
    free(a->s);
    a->type = type;
    a->i = i;
    a->s = s ? strdup(s) : NULL;
    a->len = s ? strlen(s) + 1 : 0;
}

static void drop(struct attr **list)
{
    while (*list) {
        struct attr *a = *list;
        *list = a->next;
        free(a->name);
        free(a->s);
        free(a);
    }
}

void *xcm_attr_map_create(void)
{
    struct map *m = calloc(1, sizeof(*m));
    m->magic = MAGIC_A;
    xcmshim_live_maps++;
    return m;
}

void xcm_attr_map_destroy(void *p)
{
    if (p == NULL)
        return;
    struct map *m = chkmap(p, "xcm_attr_map_destroy");
    drop(&m->first);
    m->magic = MAGIC_DEAD;      /* kept, so that later use is recognised */
    xcmshim_live_maps--;
}

void xcm_attr_map_add_bool(void *p, const char *name, bool v)
{
    put(&chkmap(p, "xcm_attr_map_add_bool")->first, name, T_BOOL, v, NULL);
}

void xcm_attr_map_add_int64(void *p, const char *name, int64_t v)
{
    put(&chkmap(p, "xcm_attr_map_add_int64")->first, name, T_INT, v, NULL);
}

void xcm_attr_map_add_str(void *p, const char *name, const char *v)
{
    put(&chkmap(p, "xcm_attr_map_add_str")->first, name, T_STR, 0, v);
}

static const char *ns(void)
{
    const char *n = getenv("XCM_SHIM_NS");
    return n ? n : "default";
}

static socklen_t name(struct sockaddr_un *un, const char *fmt, ...)
{
    memset(un, 0, sizeof(*un));
    un->sun_family = AF_UNIX;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(un->sun_path + 1, sizeof(un->sun_path) - 1, fmt, ap);
    va_end(ap);
    if (n < 0 || n >= (int)sizeof(un->sun_path) - 1)
        return 0;
    return offsetof(struct sockaddr_un, sun_path) + 1 + n;
}

static struct sock *newsock(int fd, bool server, const char *addr)
{
    struct sock *s = calloc(1, sizeof(*s));
    s->magic = MAGIC_S;
    s->fd = fd;
    s->ep = epoll_create1(EPOLL_CLOEXEC);
    s->server = server;
    s->blocking = true;
    s->keepalive = true;
    snprintf(s->addr, sizeof(s->addr), "%s", addr);
    struct epoll_event ev = { .events = 0 };
    epoll_ctl(s->ep, EPOLL_CTL_ADD, fd, &ev);
    xcmshim_live_socks++;
    return s;
}

static void take_attrs(struct sock *s, struct map *m)
{
    for (struct attr *a = m ? m->first : NULL; a != NULL; a = a->next) {
        put(&s->attrs, a->name, a->type, a->i, a->s);
        if (strcmp(a->name, "xcm.blocking") == 0)
            s->blocking = a->i;
        note("ATTR %s %s=%s%lld", s->addr, a->name, a->s ? a->s : "", a->s ? 0LL : (long long)a->i);
    }
}

static bool known(const char *addr)
{
    return strncmp(addr, "ux:", 3) == 0 || strncmp(addr, "uxf:", 4) == 0 || strncmp(addr, "tcp:", 4) == 0 ||
        strncmp(addr, "tls:", 4) == 0 || strncmp(addr, "utls:", 5) == 0 || strncmp(addr, "sctp:", 5) == 0;
}

void *xcm_server_a(const char *addr, void *map)
{
    struct map *m = map ? chkmap(map, "xcm_server_a") : NULL;
    if (fault(F_SERVER))
        return NULL;
    struct sockaddr_un un;
    socklen_t l = name(&un, "%s/s/%s", ns(), addr);
    if (!known(addr) || l == 0) {
        errno = EINVAL;
        return NULL;
    }
    int fd = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    if (fd < 0)
        return NULL;
    if (bind(fd, (struct sockaddr *)&un, l) < 0 || listen(fd, 64) < 0) {
        int e = errno;
        close(fd);
        errno = e;
        return NULL;
    }
    struct sock *s = newsock(fd, true, addr);
    take_attrs(s, m);
    note("SERVER %s", addr);
    return s;
}

void *xcm_connect_a(const char *addr, void *map)
{
    static int n;
    struct map *m = map ? chkmap(map, "xcm_connect_a") : NULL;
    if (fault(F_CONNECT))
        return NULL;
    struct sockaddr_un un, local;
    socklen_t l = name(&un, "%s/s/%s", ns(), addr);
    if (!known(addr) || l == 0) {
        errno = EINVAL;
        return NULL;
    }
    int fd = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    if (fd < 0)
        return NULL;
    const char *me = getenv("XCM_SHIM_LOCAL"), *ski = getenv("XCM_SHIM_SKI");
    char t[16];
    snprintf(t, sizeof(t), "%.*s", (int)(strchr(addr, ':') - addr), addr);
    socklen_t ll = name(&local, "%s/c/%s:%s/%s/%d.%d", ns(), t, me ? me : strncmp(t, "ux", 2) ? "127.0.0.1:1000" : "",
                        ski ? ski : "-", getpid(), ++n);
    if (bind(fd, (struct sockaddr *)&local, ll) < 0 || connect(fd, (struct sockaddr *)&un, l) < 0) {
        int e = errno;
        close(fd);
        errno = e;
        return NULL;
    }
    struct sock *s = newsock(fd, false, addr);
    snprintf(s->remote, sizeof(s->remote), "%s", addr);
    take_attrs(s, m);
    note("CONNECT %s", addr);
    return s;
}

void *xcm_accept_a(void *p, void *map)
{
    struct sock *srv = chk(p, "xcm_accept_a");
    struct map *m = map ? chkmap(map, "xcm_accept_a") : NULL;
    if (!srv->server)
        misuse("xcm_accept_a", "not a server socket");
    if (fault(F_ACCEPT))
        return NULL;
    struct sockaddr_un un;
    socklen_t l = sizeof(un);
    int fd;
    for (;;) {
        fd = accept4(srv->fd, (struct sockaddr *)&un, &l, SOCK_NONBLOCK | SOCK_CLOEXEC);
        if (fd >= 0 || errno != EAGAIN || !srv->blocking)
            break;
        poll(&(struct pollfd){ .fd = srv->fd, .events = POLLIN }, 1, -1);
    }
    if (fd < 0)
        return NULL;
    struct sock *s = newsock(fd, false, srv->addr);
    s->blocking = srv->blocking;
    char peer[256] = "";
    int n = (int)l - (int)offsetof(struct sockaddr_un, sun_path) - 1;
    if (n > 0)
        snprintf(peer, sizeof(peer), "%.*s", n, un.sun_path + 1);
    char *r = strstr(peer, "/c/");
    if (r != NULL) {
        r += 3;
        char *k = strchr(r, '/');
        if (k != NULL) {
            *k++ = '\0';
            snprintf(s->ski, sizeof(s->ski), "%.*s", (int)strcspn(k, "/"), k);
        }
        snprintf(s->remote, sizeof(s->remote), "%s", r);
    }
    if (m)
        take_attrs(s, m);
    note("ACCEPT %s from %s", s->addr, s->remote);
    return s;
}

int xcm_close(void *p)
{
    if (p == NULL)
        return 0;
    struct sock *s = chk(p, "xcm_close");
    note("CLOSE %s %s", s->server ? "server" : "conn", s->addr);
    close(s->ep);
    close(s->fd);
    drop(&s->attrs);
    s->magic = MAGIC_DEAD;      /* kept, so that later use is recognised */
    xcmshim_live_socks--;
    return 0;
}

int xcm_finish(void *p)
{
    chk(p, "xcm_finish");
    if (fault(F_FINISH))
        return -1;
    return 0;
}

static int wait_for(struct sock *s, int events)
{
    return poll(&(struct pollfd){ .fd = s->fd, .events = events }, 1, -1);
}

int xcm_send(void *p, const void *buf, size_t len)
{
    struct sock *s = chk(p, "xcm_send");
    if (s->server)
        misuse("xcm_send", "on a server socket");
    if (fault(F_SEND))
        return -1;
    if (len == 0) {
        errno = EINVAL;
        return -1;
    }
    if (len > MAX_MSG) {
        errno = EMSGSIZE;
        return -1;
    }
    const char *every = getenv("XCM_SHIM_EAGAIN");     /* every n-th non-blocking send would block */
    if (every != NULL && !s->blocking && ++s->sends % atoi(every) == 0) {
        errno = EAGAIN;
        return -1;
    }
    char *copy = malloc(len);   /* reads all of what was announced, under the eyes of a sanitizer */
    memcpy(copy, buf, len);
    int rc;
    for (;;) {
        rc = send(s->fd, copy, len, MSG_NOSIGNAL);
        if (rc >= 0 || errno != EAGAIN || !s->blocking)
            break;
        wait_for(s, POLLOUT);
    }
    int e = errno;
    free(copy);
    errno = e;
    return rc < 0 ? -1 : 0;
}

int xcm_receive(void *p, void *buf, size_t cap)
{
    struct sock *s = chk(p, "xcm_receive");
    if (s->server)
        misuse("xcm_receive", "on a server socket");
    if (fault(F_RECEIVE))
        return -1;
    char *tmp = malloc(MAX_MSG);
    ssize_t rc;
    for (;;) {
        rc = recv(s->fd, tmp, MAX_MSG, 0);
        if (rc >= 0 || errno != EAGAIN || !s->blocking)
            break;
        wait_for(s, POLLIN);
    }
    int e = errno;
    if (rc >= 0) {
        size_t n = (size_t)rc < cap ? (size_t)rc : cap;
        memset(buf, 0xa5, cap); /* the library may use all of what was announced */
        memcpy(buf, tmp, n);
        rc = n;
    }
    free(tmp);
    errno = e;
    return rc;
}

int xcm_await(void *p, int cond)
{
    struct sock *s = chk(p, "xcm_await");
    if (fault(F_AWAIT))
        return -1;
    if ((s->server && (cond & ~4)) || (!s->server && (cond & ~3))) {
        errno = EINVAL;
        return -1;
    }
    s->cond = cond;
    struct epoll_event ev = { .events = ((cond & 5) ? EPOLLIN : 0) | ((cond & 2) ? EPOLLOUT : 0) };
    return epoll_ctl(s->ep, EPOLL_CTL_MOD, s->fd, &ev);
}

int xcm_fd(void *p)
{
    struct sock *s = chk(p, "xcm_fd");
    if (fault(F_FD))
        return -1;
    return s->ep;
}

int xcm_want(void *p, int cond, int *fds, int *events, size_t cap)
{
    (void)p; (void)cond; (void)fds; (void)events; (void)cap;
    errno = ENOTSUP;
    return -1;
}

int xcm_set_blocking(void *p, bool v)
{
    struct sock *s = chk(p, "xcm_set_blocking");
    if (fault(F_BLOCKING))
        return -1;
    s->blocking = v;
    return 0;
}

bool xcm_is_blocking(void *p)
{
    return chk(p, "xcm_is_blocking")->blocking;
}

static int give(int *type, void *buf, size_t cap, int t, const void *v, size_t len)
{
    if (len > cap) {
        errno = EOVERFLOW;
        return -1;
    }
    if (type)
        *type = t;
    memset(buf, 0xa5, cap);
    memcpy(buf, v, len);
    return len;
}

int xcm_attr_get(void *p, const char *name, int *type, void *buf, size_t cap)
{
    struct sock *s = chk(p, "xcm_attr_get");
    if (fault(F_GET))
        return -1;
    if (strcmp(name, "xcm.remote_addr") == 0 && !s->server)
        return give(type, buf, cap, T_STR, s->remote, strlen(s->remote) + 1);
    if (strcmp(name, "xcm.local_addr") == 0)
        return give(type, buf, cap, T_STR, s->addr, strlen(s->addr) + 1);
    if (strcmp(name, "xcm.transport") == 0) {
        char t[16];
        snprintf(t, sizeof(t), "%.*s", (int)strcspn(s->addr, ":"), s->addr);
        return give(type, buf, cap, T_STR, t, strlen(t) + 1);
    }
    if (strcmp(name, "tcp.keepalive") == 0)
        return give(type, buf, cap, T_BOOL, &s->keepalive, sizeof(bool));
    if (strcmp(name, "tls.peer_subject_key_id") == 0) {
        if (s->ski[0] == '\0' || s->ski[0] == '-') {
            errno = ENOENT;
            return -1;
        }
        unsigned char b[64];
        size_t n = strlen(s->ski) / 2;
        for (size_t i = 0; i < n; i++) {
            unsigned v;
            sscanf(s->ski + 2 * i, "%2x", &v);
            b[i] = v;
        }
        return give(type, buf, cap, T_BIN, b, n);
    }
    struct attr *a = find(s->attrs, name);
    if (a == NULL) {
        errno = ENOENT;
        return -1;
    }
    bool b = a->i;
    switch (a->type) {
    case T_BOOL:
        return give(type, buf, cap, T_BOOL, &b, sizeof(b));
    case T_INT:
        return give(type, buf, cap, T_INT, &a->i, sizeof(a->i));
    default:
        return give(type, buf, cap, a->type, a->s, a->len);
    }
}

static int set(void *p, const char *fun, const char *name, int type, int64_t i, const char *v)
{
    struct sock *s = chk(p, fun);
    if (fault(F_SET))
        return -1;
    if (strcmp(name, "tcp.keepalive") == 0) {
        if (type != T_BOOL) {
            errno = EINVAL;
            return -1;
        }
        s->keepalive = i;
    }
    note("SET %s %s=%s%lld", s->addr, name, v ? v : "", v ? 0LL : (long long)i);
    put(&s->attrs, name, type, i, v);
    return 0;
}

int xcm_attr_set_bool(void *p, const char *name, bool v)
{
    return set(p, "xcm_attr_set_bool", name, T_BOOL, v, NULL);
}

int xcm_attr_set_int64(void *p, const char *name, int64_t v)
{
    return set(p, "xcm_attr_set_int64", name, T_INT, v, NULL);
}

int xcm_attr_set_str(void *p, const char *name, const char *v)
{
    return set(p, "xcm_attr_set_str", name, T_STR, 0, v);
}

/* for the harness: an attribute of any type and value */
void xcmshim_put(void *p, const char *name, int type, const char *v, size_t len)
{
    struct sock *s = chk(p, "xcmshim_put");
    put(&s->attrs, name, type, 0, "");
    struct attr *a = find(s->attrs, name);
    free(a->s);
    a->s = malloc(len ? len : 1);
    memcpy(a->s, v, len);
    a->len = len;
}
