/* sockets made from address descriptions, over a stand-in for the network */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <u/libu.h>
#include <toolbox/net.h>

enum { MAXS = 4 };
typedef struct { int open, fam, type, proto, reuse, bcast, ev, bound, listening, connected; } sock;
static sock S[MAXS];            /* by attempt: the i-th socket is for the i-th address */
static int nsock, nopen, ncalls, fault, bad[MAXS];
static int FD (int i) { return 40 + i; }
static sock *at (int fd) { VP_ASSERT(fd >= 40 && fd < 40 + nsock && S[fd - 40].open, "only open sockets are used"); return &S[fd - 40]; }

/* what the resolver was asked and what it answered */
static char node[160], service[160]; static int has_node, has_service, asked, released, gai_rc, naddr;
static struct addrinfo hint, *answer;
static int un;                  /* the address is a path, not the resolver's */
static char unpath[200];

static int fails (int i, int e) { if (ncalls++ == fault) { bad[i] = 1; errno = e; return 1; } return 0; }

int vp_getaddrinfo (const char *n, const char *s, const struct addrinfo *h, struct addrinfo **pai)
{
    int i;
    VP_ASSERT(!asked, "the resolver is asked once");
    ++asked;
    has_node = n != NULL; has_service = s != NULL;
    if (n) { VP_ASSERT(strlen(n) < sizeof node, "model"); strcpy(node, n); }
    if (s) { VP_ASSERT(strlen(s) < sizeof service, "model"); strcpy(service, s); }
    hint = *h;
    VP_ASSERT(h->ai_addr == NULL && h->ai_canonname == NULL && h->ai_next == NULL && h->ai_addrlen == 0, "hints are well formed");
    if (!n && !s) return EAI_NONAME;
    if (gai_rc) { if (gai_rc == EAI_SYSTEM) errno = ENFILE; return gai_rc; }
    answer = (struct addrinfo *) calloc((size_t) naddr, sizeof *answer);
    for (i = 0; i < naddr; ++i)
    {
        struct addrinfo *a = answer + i;
        a->ai_family = h->ai_family; a->ai_socktype = h->ai_socktype; a->ai_protocol = h->ai_protocol;
        a->ai_addrlen = h->ai_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
        a->ai_addr = (struct sockaddr *) calloc(1, a->ai_addrlen);
        a->ai_addr->sa_family = (sa_family_t) h->ai_family;
        ((struct sockaddr_in *) a->ai_addr)->sin_port = (in_port_t) (i + 1);
        if (i) a[-1].ai_next = a;
    }
    *pai = answer;
    return 0;
}
void vp_freeaddrinfo (struct addrinfo *a)
{
    VP_ASSERT(a != NULL && a == answer && !released, "what the resolver gave is returned once");
    ++released;
    for (; a != NULL; a = a->ai_next) free(a->ai_addr);
    free(answer);
}
const char *vp_gai_strerror (int e) { (void) e; return "?"; }
const char *vp_inet_ntop (int af, const void *src, char *dst, socklen_t len) { (void) af; (void) src; VP_ASSERT(len > 4, "room"); strcpy(dst, "::1"); return dst; }

int vp_socket (int d, int t, int p)
{
    VP_ASSERT(nsock < MAXS, "no address is tried twice");
    S[nsock].fam = d; S[nsock].type = t; S[nsock].proto = p;
    ++nsock;
    if (fails(nsock - 1, EMFILE)) return -1;
    S[nsock - 1].open = 1; ++nopen;
    return FD(nsock - 1);
}
int vp_close (int fd) { at(fd)->open = 0; --nopen; errno = EBADF; return 0; }
#if defined(H_MODE)
static int nset, nodelay = -1;
int vp_setsockopt (int fd, int lev, int name, const void *v, socklen_t l)
{
    VP_ASSERT(fd == 6 && lev == IPPROTO_TCP && name == TCP_NODELAY && l == sizeof(int), "the option of the descriptor given");
    if (nset++ == fault) { errno = EBADF; return -1; }
    nodelay = *(const int *) v != 0;
    return 0;
}
#else
int vp_setsockopt (int fd, int lev, int name, const void *v, socklen_t l)
{
    sock *s = at(fd);
    if (fails(fd - 40, ENOPROTOOPT)) return -1;
    if (lev == SOL_SOCKET && name == SO_REUSEADDR) { VP_ASSERT(l == sizeof(int) && !s->bound, "options"); s->reuse = *(const int *) v != 0; }
    else if (lev == SOL_SOCKET && name == SO_BROADCAST) { VP_ASSERT(l == sizeof(int), "options"); s->bcast = *(const int *) v != 0; }
    else if (lev == IPPROTO_SCTP && name == SCTP_EVENTS)
    {
        const struct sctp_event_subscribe *e = (const struct sctp_event_subscribe *) v; int i, n = 0;
        VP_ASSERT(l == sizeof *e, "options");
        for (i = 0; i < (int) l; ++i) n += ((const unsigned char *) v)[i] != 0;
        s->ev = 1 << 15 | (e->sctp_data_io_event ? U_NET_OPT_SCTP_DATA_IO_EVENT : 0) | (e->sctp_association_event ? U_NET_OPT_SCTP_ASSOCIATION_EVENT : 0)
            | (e->sctp_address_event ? U_NET_OPT_SCTP_ADDRESS_EVENT : 0) | (e->sctp_send_failure_event ? U_NET_OPT_SCTP_SEND_FAILURE_EVENT : 0)
            | (e->sctp_peer_error_event ? U_NET_OPT_SCTP_PEER_ERROR_EVENT : 0) | (e->sctp_shutdown_event ? U_NET_OPT_SCTP_SHUTDOWN_EVENT : 0)
            | (e->sctp_partial_delivery_event ? U_NET_OPT_SCTP_PARTIAL_DELIVERY_EVENT : 0) | (e->sctp_adaptation_layer_event ? U_NET_OPT_SCTP_ADAPTATION_LAYER_EVENT : 0)
            | (e->sctp_authentication_event ? U_NET_OPT_SCTP_AUTHENTICATION_EVENT : 0);
        for (i = 3; i < 12; ++i) n -= s->ev >> i & 1;
        VP_ASSERT(n == 0, "no other event is enabled");
    }
    else VP_ASSERT(0, "no other option is set");
    return 0;
}
#endif
/* which address is this? */
static void addressed (int i, const struct sockaddr *sa, socklen_t l)
{
    if (un)
    {
        const struct sockaddr_un *u = (const struct sockaddr_un *) sa;
        VP_ASSERT(i == 0 && u->sun_family == AF_UNIX, "the path is the only address");
        VP_ASSERT(l >= offsetof(struct sockaddr_un, sun_path) + strlen(unpath) + 1 && l <= sizeof *u, "the whole path is given");
        VP_ASSERT(strcmp(u->sun_path, unpath) == 0, "the path written is the one used");
    }
    else
    {
        VP_ASSERT(i < naddr && sa == answer[i].ai_addr && l == answer[i].ai_addrlen, "addresses are tried in the resolver's order");
    }
}
int vp_bind (int fd, const struct sockaddr *sa, socklen_t l)
{
    sock *s = at(fd);
    addressed(fd - 40, sa, l);
    if (fails(fd - 40, EADDRINUSE)) return -1;
    VP_ASSERT(!s->bound, "bound once"); s->bound = 1;
    return 0;
}
int vp_listen (int fd, int backlog)
{
    sock *s = at(fd);
    if (fails(fd - 40, EOPNOTSUPP)) return -1;
    VP_ASSERT(s->bound && backlog > 0, "a bound socket listens"); s->listening = 1;
    return 0;
}
int vp_connect (int fd, const struct sockaddr *sa, socklen_t l)
{
    sock *s = at(fd);
    addressed(fd - 40, sa, l);
    if (fails(fd - 40, ECONNREFUSED)) return -1;
    VP_ASSERT(!s->connected, "connected once"); s->connected = 1;
    return 0;
}
static int flg;
int vp_fcntl (int fd, int cmd, ...)
{
    va_list ap;
#if defined(H_MODE)
    VP_ASSERT(fd == 6 && (cmd == F_GETFL || cmd == F_SETFL), "the flags of the descriptor given");
    if (nset++ == fault) { errno = EBADF; return -1; }
#else
    (void) at(fd);
#endif
    va_start(ap, cmd);
    if (cmd == F_SETFL) flg = va_arg(ap, int);
    va_end(ap);
    return cmd == F_GETFL ? flg : 0;
}
int vp_gettimeofday (struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = 1000; tv->tv_usec = 0; return 0; }
static int nacc, acc_eintr;
int vp_accept (int fd, struct sockaddr *a, socklen_t *l)
{
    VP_ASSERT(fd == 7 && a != NULL && *l == sizeof(struct sockaddr_in), "the socket given accepts");
    if (nacc++ < acc_eintr) { errno = EINTR; return -1; }
    if (fault == 0) { errno = EMFILE; return -1; }
    return 9;
}

static const struct { const char *name; int fam, type, proto; } map[] = {
    { "tcp", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "tcp4", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "udp", AF_INET, SOCK_DGRAM, IPPROTO_UDP },
    { "udp4", AF_INET, SOCK_DGRAM, IPPROTO_UDP }, { "sctp", AF_INET, SOCK_STREAM, IPPROTO_SCTP }, { "sctp4", AF_INET, SOCK_STREAM, IPPROTO_SCTP },
    { "tcp6", AF_INET6, SOCK_STREAM, IPPROTO_TCP }, { "udp6", AF_INET6, SOCK_DGRAM, IPPROTO_UDP }, { "sctp6", AF_INET6, SOCK_STREAM, IPPROTO_SCTP },
    { "unix", AF_UNIX, SOCK_STREAM, 0 } };

/* the socket made is the one described */
static void check (int fd, int k, int passive, int opts)
{
    int i, n = un ? 1 : naddr, want = -1;
    for (i = 0; i < n && want < 0; ++i) if (!bad[i]) want = i;
    VP_ASSERT(nsock == (want < 0 ? n : want + 1), "the addresses are tried in turn until one works");
    for (i = 0; i < nsock; ++i)
    {
        int many = map[k].proto == IPPROTO_SCTP && (opts & U_NET_OPT_SCTP_ONE_TO_MANY);
        VP_ASSERT(S[i].fam == map[k].fam && S[i].proto == map[k].proto && S[i].type == (many ? SOCK_SEQPACKET : map[k].type), "the socket is of the kind described");
    }
    if (want < 0) { VP_ASSERT(fd == -1, "with no address working there is no socket"); VP_ASSERT(nopen == 0, "no descriptor is left open"); return; }
    VP_ASSERT(fd == FD(want) && nopen == 1 && S[want].open, "the socket for the first working address is the one given");
    if (passive)
    {
        sock *s = &S[want];
        VP_ASSERT(s->bound && !s->connected, "a passive socket is bound");
        VP_ASSERT(s->listening == (s->type != SOCK_DGRAM), "and listens if of a kind that does");
        VP_ASSERT(un || s->reuse == !(opts & U_NET_OPT_DONT_REUSE_ADDR), "local addresses are reused unless asked otherwise");
    }
    else
    {
        sock *s = &S[want];
        VP_ASSERT(!s->bound && s->connected == !(opts & U_NET_OPT_DONT_CONNECT), "an active socket is connected unless asked otherwise");
        VP_ASSERT(s->bcast == (s->type == SOCK_DGRAM && (opts & U_NET_OPT_DGRAM_BROADCAST)), "broadcasts are enabled if asked");
    }
    if (map[k].proto == IPPROTO_SCTP && (opts & U_NET_OPT_SCTP_ONE_TO_MANY))
        VP_ASSERT(S[want].ev == (1 << 15 | (opts & 0xff8)), "the events asked for are enabled");
}
static void asked_for (int k, int passive, const char *host, const char *port)
{
    VP_ASSERT(asked == 1, "the resolver is asked");
    VP_ASSERT(hint.ai_family == map[k].fam && hint.ai_socktype == map[k].type && hint.ai_protocol == map[k].proto, "for addresses of the kind described");
    VP_ASSERT(has_node == (strcmp(host, "*") != 0) && (!has_node || strcmp(node, host) == 0), "of the host written");
    if (strcmp(port, "*") == 0) VP_ASSERT(!has_service || strcmp(service, "0") == 0, "with any port");
    else VP_ASSERT(has_service && strcmp(service, port) == 0, "and the port written");
    if (!has_node) VP_ASSERT(!(hint.ai_flags & AI_PASSIVE) == !passive, "the wildcard is that of passive or active sockets as asked");
    VP_ASSERT(!(hint.ai_flags & (AI_NUMERICHOST | AI_NUMERICSERV)), "names are allowed");
}

int vp_main (void)
{
    char uri[300], host[40], port[40]; int fd = -1, rc = 1, k, passive = vp_bool(), opts = 0, i; size_t n;
    u_net_addr_t *a = NULL; struct timeval tv = { 5, 0 };
    vp_use_allocator();
    fault = -1; naddr = 1;
    strcpy(host, "h"); strcpy(port, "1");
#if defined(H_SCHEME)
    {
        /* any scheme of a few letters and digits, in any case */
        char s[8], lo[8];
        n = (size_t) vp_pick(1, 5);
        for (i = 0; i < (int) n; ++i)
        {
            char c = (char) vp_u8();
            VP_ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i && c >= '0' && c <= '9'));
            s[i] = c; lo[i] = c >= 'A' && c <= 'Z' ? (char) (c + 32) : c;
        }
        s[n] = lo[n] = 0;
        strcpy(uri, s); strcat(uri, "://h:1/p");
        rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
        for (k = 0; k < 10 && strcmp(lo, map[k].name) != 0; ++k) ;
        VP_ASSERT((rc == 0) == (k < 10), "the documented schemes, and only these, are accepted");
        if (rc == 0)
        {
            un = k == 9; strcpy(unpath, "/p");
            if (!un) asked_for(k, passive, "h", "1");
            fd = u_net_sd_by_addr(a);
            check(fd, k, passive, 0);
            VP_ASSERT(u_net_addr_can_accept(a) == (passive && map[k].type == SOCK_STREAM), "passive stream sockets can accept");
            u_net_addr_free(a);
        }
        else VP_ASSERT(!asked, "nothing is resolved for an unknown scheme");
    }
#elif defined(H_DESC)
    {
        /* any host and port of a few characters, present or not */
        int hp, pp;
        k = vp_pick(0, 1) * 6;
        passive = vp_bool();
        hp = (int) vp_stra(host, 2, "a1*-."); pp = (int) vp_stra(port, 2, "a09*-_");
        strcpy(uri, map[k].name); strcat(uri, "://"); strcat(uri, host);
        if (pp || vp_bool()) { strcat(uri, ":"); strcat(uri, port); }
        if (vp_bool()) strcat(uri, "/p");
        gai_rc = vp_pick(0, 2); gai_rc = gai_rc == 0 ? 0 : gai_rc == 1 ? EAI_SYSTEM : EAI_NONAME;
        rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
        if (hp == 0 || pp == 0) VP_ASSERT(rc != 0, "a description without host or port is refused");
        else
        {
            asked_for(k, passive, host, port);
            VP_ASSERT((rc == 0) == (gai_rc == 0), "a description is accepted if it can be resolved");
        }
        if (rc == 0) u_net_addr_free(a);
    }
#elif defined(H_PORT)
    {
        /* any number for a port */
        long v = 0;
        static const char *pre[] = { "", "1", "6", "655", "6553", "6554", "655350", "9", "0", "006553", "131", "4294967", "18446744073709551" };
        { const char *q = pre[vp_pick(0, 12)]; memset(port, 0, sizeof port); strcpy(port, q); };
        n = strlen(port) + (size_t) vp_pick(1, DIG);
        for (i = 0; port[i]; ++i) v = v > 99999 ? v : v * 10 + (port[i] - 48);
        for (; i < (int) n; ++i) { port[i] = vp_of("0123456789"); v = v > 99999 ? v : v * 10 + (port[i] - 48); }
        port[n] = 0;
        strcpy(uri, "udp://h:"); strcat(uri, port);
        rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
        if (v == 0) { if (rc == 0) u_net_addr_free(a); return 0; }
        VP_ASSERT((rc == 0) == (v < 65536), "port numbers of 16 bits, and no others, are accepted");
        if (rc == 0) { asked_for(2, passive, "h", port); u_net_addr_free(a); }
    }
#elif defined(H_IPV6)
    {
        static const char *lit[] = { "::1", "fe80::200:f8ff:fe21:67cf", "::", "*" };
        const char *h = lit[vp_pick(0, 3)]; char p[3];
        k = vp_pick(6, 8); n = vp_stra(p, 2, "a09*");
        VP_ASSUME(n > 0);
        strcpy(uri, map[k].name); strcat(uri, "://["); strcat(uri, h); strcat(uri, "]:"); strcat(uri, p);
        rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
        VP_ASSERT(rc == 0, "address literals are accepted");
        asked_for(k, passive, h, p);
        u_net_addr_free(a);
    }
#elif defined(H_UNIX)
    {
        static const int len[] = { 0, 1, 2, 3, 104, 105, 106, 107, 108, 109, 110, 120 };
        int l = len[vp_pick(0, 11)];
        memset(unpath, 'p', sizeof unpath); unpath[l] = 0;
        if (l) unpath[0] = '/';
        for (i = 1; i < l && i < (l > 100 ? 2 : 3); ++i) unpath[i] = vp_of("/aZ9-_.~!$&'()*+,;=:@");
        if (l > 100) unpath[l - 1] = vp_of("a/.");
        if (l > 1) VP_ASSUME(unpath[1] != '/');
        un = 1;
        strcpy(uri, vp_bool() ? "unix://" : "unix:"); strcat(uri, unpath);
        switch (vp_pick(0, 2)) { case 1: fault = vp_pick(0, 3); break; case 2: vp_fail_at = vp_pick(0, 5); break; }
        rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
        i = vp_fail_at >= 0 && vp_fail_at < vp_nalloc;
        if (rc == 0) VP_ASSERT(l > 0 && l < (int) sizeof ((struct sockaddr_un *) 0)->sun_path, "a path that does not fit is refused");
        else VP_ASSERT(i || l == 0 || l >= (int) sizeof ((struct sockaddr_un *) 0)->sun_path, "a path that fits is accepted");
        if (rc == 0) { fd = u_net_sd_by_addr(a); check(fd, 9, passive, 0); u_net_addr_free(a); }
    }
#elif defined(H_MAKE)
    {
        /* any kind of socket with any options, one or two calls failing */
        int one = vp_bool(), same;
        static const int ks[] = { 0, 2, 4, 6, 7, 8, 9 };
        k = ks[vp_pick(0, 6)];
        naddr = vp_pick(1, NADDR);
        un = k == 9; strcpy(unpath, "/p");
        opts = vp_bool() ? U_NET_OPT_DONT_REUSE_ADDR : 0;
        if (vp_bool()) opts |= U_NET_OPT_DONT_CONNECT;
        if (map[k].proto == IPPROTO_SCTP && vp_bool())
        {
            int ev = vp_int();
            opts |= U_NET_OPT_SCTP_ONE_TO_MANY | (ev & 0xff8);
        }
        if (vp_bool()) opts |= U_NET_OPT_DGRAM_BROADCAST;
        fault = vp_pick(-1, NFAULT);
        strcpy(uri, map[k].name); strcat(uri, "://"); strcat(uri, un ? "/p" : "h:1");
        if (one)
        {
            fd = u_net_sd_ex(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, opts, vp_bool() ? &tv : NULL);
            if (!un) asked_for(k, passive, "h", "1");
            check(fd, k, passive, opts);
        }
        else
        {
            rc = u_net_uri2addr(uri, passive ? U_NET_SSOCK : U_NET_CSOCK, &a);
            VP_ASSERT(rc == 0, "a good description is accepted");
            if (vp_bool()) { u_net_addr_set_opts(a, 0xff8 & ~opts); u_net_addr_set_opts(a, opts); }
            else { u_net_addr_add_opts(a, opts & 0xfff0f); u_net_addr_add_opts(a, opts & ~0xfff0f); }
            fd = u_net_sd_by_addr(a);
            check(fd, k, passive, opts);
            /* the address can be used again */
            memset(S, 0, sizeof S); memset(bad, 0, sizeof bad); nsock = nopen = 0;
            fd = vp_bool() ? u_net_sd_by_addr_ex(a, &tv) : u_net_sd_by_addr(a);
            check(fd, k, passive, opts);
            if (fd >= 0) VP_ASSERT(u_net_addr_can_accept(a) == (passive && map[k].type == SOCK_STREAM), "passive stream sockets can accept");
            u_net_addr_free(a);
        }
        (void) same;
    }
#elif defined(H_OOM)
    {
        /* memory runs out at any point */
        vp_fail_at = vp_pick(0, 8); k = vp_pick(0, 1) * 9;
        un = k == 9; strcpy(unpath, "/p");
        fd = u_net_sd(un ? "unix:///p" : "tcp://h:1", passive ? U_NET_SSOCK : U_NET_CSOCK, 0);
        if (vp_fail_at < vp_nalloc) VP_ASSERT(fd == -1 && nopen == 0, "running out of memory leaves no socket");
        else check(fd, k, passive, 0);
        VP_ASSERT(u_net_sd("tcp:", U_NET_CSOCK, 0) == -1 && u_net_uri2addr("tcp://h:1", (u_net_mode_t) 2, &a) != 0, "what makes no sense is refused");
    }
#elif defined(H_MODE)
    {
        /* modes of a descriptor, whatever its flags */
        int was = vp_int();
        VP_ASSUME(was >= 0); flg = was; fault = vp_pick(-1, 1);
        switch (vp_pick(0, 2))
        {
            case 0:
                rc = u_net_set_nonblocking(6);
                VP_ASSERT((rc == 0) == (fault < 0) && flg == (rc == 0 ? was | O_NONBLOCK : was), "only the blocking mode is set");
                break;
            case 1:
                rc = u_net_unset_nonblocking(6);
                VP_ASSERT((rc == 0) == (fault < 0) && flg == (rc == 0 ? was & ~O_NONBLOCK : was), "only the blocking mode is cleared");
                break;
            default:
                rc = u_net_nagle_off(6);
                VP_ASSERT((rc == 0) == (fault != 0) && nodelay == (rc == 0 ? 1 : -1) && flg == was, "the algorithm is disabled or it is reported");
                break;
        }
        rc = 0;
    }
#elif defined(H_ACCEPT)
    {
        struct sockaddr_in in; socklen_t l = sizeof in;
        acc_eintr = vp_pick(0, 4); fault = vp_pick(-1, 0);
        fd = u_accept(7, (struct sockaddr *) &in, &l);
        VP_ASSERT(fd == (fault == 0 ? -1 : 9) && nacc == acc_eintr + 1, "interruptions are waited out");
        if (fd == -1) VP_ASSERT(errno == EMFILE, "and other errors reported");
        rc = 0;
    }
#elif defined(H_NTOP)
    {
        /* printing addresses */
        union { struct sockaddr sa; struct sockaddr_in in; struct sockaddr_un un; } u; char want[200], ip[20]; const char *r;
        char *d; size_t room;
        u_use_unused_args(NULL, 0);
        memset(&u, 0, sizeof u);
        if (vp_bool())
        {
            unsigned char b[4]; unsigned p;
            for (i = 0; i < 4; ++i) b[i] = i == 1 || i == 2 ? (unsigned char) (vp_bool() ? 0 : 255) : vp_u8();
            p = vp_uint() & 0xffff;
            u.in.sin_family = AF_INET; memcpy(&u.in.sin_addr, b, 4); u.in.sin_port = (in_port_t) (p >> 8 | (p & 255) << 8);
            sprintf(ip, "%u.%u.%u.%u", b[0], b[1], b[2], b[3]);
            sprintf(want, "%s:%u", ip, p);
            room = (size_t) vp_pick(1, 20);
            d = (char *) malloc(room);
            r = u_inet_ntop(AF_INET, &u.in.sin_addr, d, (u_socklen_t) room);
            if (strlen(ip) < room) VP_ASSERT(r == d && strcmp(d, ip) == 0, "an address is printed");
            else VP_ASSERT(r == NULL && errno == ENOSPC, "or does not fit");
            free(d);
        }
        else
        {
            static const int len[] = { 0, 1, 2, 106, 107, 108 }; int l = len[vp_pick(0, 5)];
            u.un.sun_family = AF_UNIX;
            memset(u.un.sun_path, 'p', (size_t) l);
            for (i = 0; i < l && i < 2; ++i) { u.un.sun_path[i] = (char) vp_u8(); VP_ASSUME(u.un.sun_path[i] != 0); }
            memcpy(want, u.un.sun_path, (size_t) l); want[l] = 0;
        }
        {
            /* the address in a block of its own size */
            void *b = malloc(u.sa.sa_family == AF_UNIX ? sizeof u.un : sizeof u.in);
            memcpy(b, &u, u.sa.sa_family == AF_UNIX ? sizeof u.un : sizeof u.in);
            n = strlen(want) + 1;
            room = vp_bool() ? n : n + 3; if (vp_bool()) room = n > 2 ? n - 2 : 1;
            d = (char *) malloc(room);
            r = u_sa_ntop((struct sockaddr *) b, d, room);
            if (room >= n) VP_ASSERT(r == d && strcmp(d, want) == 0, "a socket address is printed");
            free(d); free(b);
        }
        rc = 0;
    }
#endif
    (void) i; (void) tv; (void) n; (void) k; (void) opts; (void) fd; (void) host; (void) port; (void) uri;
    VP_ASSERT(answer == NULL || released == 1, "what the resolver gave is returned");
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
