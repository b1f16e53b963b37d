/* addresses resolved by the means of systems without getaddrinfo(3) */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <u/libu.h>
#include <toolbox/net.h>

/* what the system answers */
static int asked, served, told_fam, host_ok, serv_ok, fault = -1, ncalls, nopen, nsock, kind;
static char node[40], service[40];
static unsigned char addr[16];
static unsigned servport;
static struct sockaddr_storage got; static int ngot; static socklen_t gotl;

static int herr;
int *vp___h_errno_location (void) { return &herr; }
static int fails (int e) { if (ncalls++ == fault) { errno = e; return 1; } return 0; }

static struct hostent *answer (const char *h, int af)
{
    static struct hostent he; static char *list[2]; static char nm[] = "canonical";
    VP_ASSERT(!asked++ && strlen(h) < sizeof node, "the host is looked up once");
    strcpy(node, h);
    if (!host_ok) { herr = HOST_NOT_FOUND; return NULL; }
    list[0] = (char *) addr; list[1] = NULL;
    he.h_name = nm; he.h_addr_list = list; he.h_addrtype = told_fam; he.h_length = told_fam == AF_INET ? 4 : 16;
    (void) af;
    return &he;
}
struct hostent *vp_gethostbyname (const char *h) { kind = AF_INET; return answer(h, AF_INET); }
struct hostent *vp_gethostbyname2 (const char *h, int af) { kind = af; return answer(h, af); }
struct servent *vp_getservbyname (const char *s, const char *proto)
{
    static struct servent se; static char nm[] = "service";
    VP_ASSERT(!served++ && strlen(s) < sizeof service, "the service is looked up once");
    strcpy(service, s); (void) proto;
    if (!serv_ok) return NULL;
    se.s_name = nm; se.s_port = (int) htons((uint16_t) servport);
    return &se;
}
in_addr_t vp_inet_addr (const char *h)
{
    in_addr_t a;
    kind = AF_INET;
    VP_ASSERT(!asked++ && strlen(h) < sizeof node, "the host is looked up once");
    strcpy(node, h);
    if (!host_ok) return INADDR_NONE;
    memcpy(&a, addr, 4);
    return a;
}
int vp_inet_aton (const char *h, struct in_addr *p)
{
    in_addr_t a = vp_inet_addr(h);
    if (!host_ok) return 0;
    p->s_addr = a;
    return 1;
}
int vp_inet_pton (int af, const char *h, void *p)
{
    kind = af;
    VP_ASSERT(!asked++ && strlen(h) < sizeof node, "the host is looked up once");
    strcpy(node, h);
    if (!host_ok) return 0;
    memcpy(p, addr, af == AF_INET ? 4 : 16);
    return 1;
}
const char *vp_inet_ntop (int af, const void *src, char *dst, socklen_t len) { (void) af; (void) src; VP_ASSERT(len > 4, "room"); strcpy(dst, "::1"); return dst; }

int vp_socket (int d, int t, int p) { (void) t; (void) p; VP_ASSERT(!nsock++, "one socket"); got.ss_family = (sa_family_t) d; if (fails(EMFILE)) return -1; ++nopen; return 40; }
int vp_close (int fd) { VP_ASSERT(fd == 40 && nopen == 1, "only open descriptors are closed"); --nopen; return 0; }
int vp_setsockopt (int fd, int l, int n, const void *v, socklen_t s) { (void) l; (void) n; (void) v; (void) s; VP_ASSERT(fd == 40, "options"); return fails(EINVAL) ? -1 : 0; }
static void take (const struct sockaddr *sa, socklen_t l)
{
    VP_ASSERT(l <= sizeof got && got.ss_family == sa->sa_family, "the address is of the socket's family");
    memcpy(&got, sa, l); gotl = l; ++ngot;
}
int vp_bind (int fd, const struct sockaddr *sa, socklen_t l) { (void) fd; take(sa, l); return fails(EADDRINUSE) ? -1 : 0; }
int vp_connect (int fd, const struct sockaddr *sa, socklen_t l) { (void) fd; take(sa, l); return fails(ECONNREFUSED) ? -1 : 0; }
int vp_listen (int fd, int b) { (void) fd; (void) b; return fails(EOPNOTSUPP) ? -1 : 0; }
int vp_accept (int fd, struct sockaddr *a, socklen_t *l) { (void) fd; (void) a; (void) l; return -1; }
int vp_fcntl (int fd, int cmd, ...) { (void) fd; (void) cmd; return 0; }
int vp_gettimeofday (struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }

static int all (const char *s, const char *set) { return strspn(s, set) == strlen(s); }

int vp_main (void)
{
    static const char *v4[] = { "*", "10.2.3.4", "localhost", "1.example", "h" }, *v6[] = { "*", "::1", "fe80::1", "localhost", "h" };
    static const char *pre[] = { "", "1", "6", "655", "6553", "429496729", "922337203685477580" };
    char host[24], port[40], uri[120]; u_net_addr_t *a = NULL; unsigned p = 0; long v = 0; int six = vp_bool(), passive = vp_bool(), ok, oom, i, n, fd, rc;
    vp_use_allocator();
    host_ok = vp_bool(); serv_ok = vp_bool(); told_fam = six ? AF_INET6 : AF_INET;
    for (i = 0; i < 16; ++i) addr[i] = i == 0 || i == 3 || i == 15 ? vp_u8() : (unsigned char) (i * 17);
    servport = vp_uint() & 0xffff;
    memset(port, 0, sizeof port); memset(host, 0, sizeof host);
    { const char *q = (six ? v6 : v4)[vp_pick(0, 4)]; strcpy(host, q); }
    if (!six && strcmp(host, "h") == 0) { n = (int) strlen(host); for (i = 0; i < n; ++i) host[i] = vp_of("0a."); }
    if (!all(host, "0123456789.") && !strchr(host, ':') && host_ok && vp_bool()) told_fam = six ? AF_INET : AF_INET6;

    n = vp_pick(0, 2);
    if (n != 1) { if (vp_bool()) vp_fail_at = vp_pick(0, 7); else fault = vp_pick(-1, 4); }
    switch (n)
    {
        case 0: strcpy(port, "*"); break;
        case 1: { const char *q = pre[vp_pick(0, 6)]; strcpy(port, q); }
            n = (int) strlen(port); port[n] = vp_of("0123456789"); if (n != 18 && vp_bool()) port[n + 1] = vp_of("0123456789"); break;
        default: port[0] = vp_of("ax1"); port[1] = vp_of("a-2"); break;
    }
    strcpy(uri, six ? "tcp6://[" : "tcp://"); strcat(uri, host); strcat(uri, six ? "]:" : ":"); strcat(uri, port);
    /* the reverse of the harness's own choices */
    ok = strcmp(host, "*") == 0 || (host_ok && (told_fam == (six ? AF_INET6 : AF_INET)));
    if (strcmp(port, "*") == 0) p = 0;
    else if (all(port, "0123456789"))
    {
        for (i = 0; port[i]; ++i) v = v > 99999 ? v : v * 10 + (port[i] - 48);
        if (v > 65535) ok = 0;
        p = (unsigned) v;
    }
    else { if (!serv_ok) ok = 0; p = servport; }
    if (!six && all(host, "0123456789.") && addr[0] == 255 && told_fam == AF_INET && addr[3] == 255) VP_ASSUME(addr[1] != 255 || addr[2] != 255);

    rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
    oom = vp_fail_at >= 0 && vp_fail_at < vp_nalloc;
    if (oom) VP_ASSERT(rc != 0, "running out of memory is reported");
    else VP_ASSERT((rc == 0) == ok, "what can be resolved is accepted, and nothing else");
    if (rc == 0)
    {
        vp_fail_at = -1;
        fd = u_net_sd_by_addr(a);
        VP_ASSERT(nsock == 1 && nopen == (fd >= 0), "there is a socket or nothing is left open");
        VP_ASSERT((fd == 40) == (fault < 0 || fault >= ncalls), "and no failure is hidden");
        if (ngot)
        {
            unsigned char ip[16]; unsigned q, k = six ? 16 : 4;
            if (six) { struct sockaddr_in6 *s = (struct sockaddr_in6 *) &got; memcpy(ip, &s->sin6_addr, 16); q = s->sin6_port; VP_ASSERT(gotl == sizeof *s && s->sin6_family == AF_INET6 && s->sin6_scope_id == 0, "an address of the family asked"); }
            else { struct sockaddr_in *s = (struct sockaddr_in *) &got; memcpy(ip, &s->sin_addr, 4); q = s->sin_port; VP_ASSERT(gotl == sizeof *s && s->sin_family == AF_INET, "an address of the family asked"); }
            VP_ASSERT(((q & 255) << 8 | q >> 8) == p, "the port is the one written");
            for (i = 0; i < (int) k; ++i) VP_ASSERT(ip[i] == (strcmp(host, "*") == 0 ? 0 : addr[i]), "the address is the host's");
            if (strcmp(host, "*") != 0) VP_ASSERT(asked == 1 && kind == (six ? AF_INET6 : AF_INET) && strcmp(node, host) == 0, "of the host written");
            else VP_ASSERT(!asked, "the wildcard is no name");
        }
        else VP_ASSERT(fd < 0, "a socket is bound or connected");
        u_net_addr_free(a);
    }
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
