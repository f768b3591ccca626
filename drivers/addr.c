/* addresses of interfaces and hosts */
#include "vd.h"
#include <ifaddrs.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <net/if.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <linux/if_packet.h>
#include <unistd.h>
#include <dirent.h>
#include <stdarg.h>
#include "utils/resolve.h"
size_t __sanitizer_get_current_allocated_bytes(void);
static long *tab, *ans; static size_t ntab, nans; static int fail, rc, er;
static socklen_t put(struct sockaddr_storage *s, int fam, int a) {
    memset(s, 0, sizeof *s); s->ss_family = fam;
    if (fam == AF_INET) { struct sockaddr_in *x = (void *)s; uint8_t b[4] = {10, 9, 8, a}; memcpy(&x->sin_addr, b, 4); return sizeof *x; }
    if (fam == AF_INET6) { struct sockaddr_in6 *x = (void *)s; uint8_t b[16] = {254, 128}; b[15] = a; memcpy(&x->sin6_addr, b, 16); x->sin6_scope_id = a; return sizeof *x; }
    struct sockaddr_ll *x = (void *)s; uint8_t b[6] = {2, 0, 0, 0, 1, a}; memcpy(x->sll_addr, b, 6); x->sll_halen = 6; return sizeof *x;
}
/* each answer is one allocation of exactly the needed size, so that reading past an address shows */
int __wrap_getifaddrs(struct ifaddrs **r) {
    if (fail) { errno = fail; return -1; }
    struct ifaddrs *first = 0, **last = &first;
    for (size_t i = 0; i < ntab;) {
        struct ifaddrs *x = calloc(1, sizeof *x); long n = tab[i++]; x->ifa_name = malloc(n + 1); for (long k = 0; k < n; k++) x->ifa_name[k] = tab[i++]; x->ifa_name[n] = 0;
        int fam = tab[i++], a = tab[i++]; x->ifa_flags = tab[i++];
        if (fam) { struct sockaddr_storage s; socklen_t m = put(&s, fam, a); x->ifa_addr = malloc(m); memcpy(x->ifa_addr, &s, m); }
        *last = x; last = &x->ifa_next;
    }
    *r = first; return 0;
}
void __wrap_freeifaddrs(struct ifaddrs *p) { while (p) { struct ifaddrs *n = p->ifa_next; free(p->ifa_name); free(p->ifa_addr); free(p); p = n; } }
static int known(const char *s) {
    size_t l = strlen(s);
    for (size_t i = 0; i < ntab;) { long n = tab[i++]; int eq = (size_t)n == l; for (long k = 0; k < n; k++, i++) eq = eq && s[k] == tab[i]; i += 3; if (eq) return 1; }
    return 0;
}
int __wrap_ioctl(int fd, unsigned long q, ...) {
    va_list ap; va_start(ap, q); struct ifreq *r = va_arg(ap, struct ifreq *); va_end(ap); (void)fd;
    char nm[IFNAMSIZ + 1] = {0}; memcpy(nm, r->ifr_name, IFNAMSIZ); if (known(nm)) return 0; errno = ENODEV; return -1;
}
unsigned __wrap_if_nametoindex(const char *s) { if (known(s)) return 1; errno = ENODEV; return 0; }
int __wrap_getaddrinfo(const char *n, const char *sv, const struct addrinfo *h, struct addrinfo **r) {
    (void)n; (void)sv; (void)h; errno = er; if (rc) return rc;
    struct addrinfo *first = 0, **last = &first;
    for (size_t i = 0; i + 1 < nans; i += 2) {
        struct addrinfo *x = calloc(1, sizeof *x); struct sockaddr_storage s; x->ai_addrlen = put(&s, ans[i], ans[i + 1]); x->ai_family = ans[i];
        x->ai_addr = malloc(x->ai_addrlen); memcpy(x->ai_addr, &s, x->ai_addrlen); *last = x; last = &x->ai_next;
    }
    *r = first; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *p) { while (p) { struct addrinfo *n = p->ai_next; free(p->ai_addr); free(p); p = n; } }
static void vd_begin(void) { tab = vd_ints(&ntab); }
static void vd_finish(void) { free(tab); }
static void show(if_addr_vect *v) {
    putchar('[');
    for (size_t i = 0; i < VECT_LEN(v); i++) {
        if_addr *a = &VECT_ELEM(v, i); int fam = a->sa.ss_family, n; unsigned sc = 0; uint8_t *b;
        if (fam == AF_INET) { b = (void *)&((struct sockaddr_in *)&a->sa)->sin_addr; n = 4; }
        else if (fam == AF_INET6) { b = (void *)&((struct sockaddr_in6 *)&a->sa)->sin6_addr; n = 16; sc = ((struct sockaddr_in6 *)&a->sa)->sin6_scope_id; }
        else { b = ((struct sockaddr_ll *)&a->sa)->sll_addr; n = 6; }
        printf("%s[%d,%u,%u", i ? "," : "", fam, a->flags, sc); for (int k = 0; k < n; k++) printf(",%d", b[k]); putchar(']');
    }
    putchar(']');
}
static int nfds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void vd_op(const char *op) {
    int r; int f0 = nfds(); fail = rc = er = 0; ans = 0; nans = 0;
    if (vd_is(op, "all")) {
        unsigned m = vd_int(); fail = vd_int(); size_t m0 = __sanitizer_get_current_allocated_bytes(); if_address_vect v; VECT_INIT(&v, 2);
        r = get_all_if_address(&v, m); vd_beg(); vd_ki("r", r); vd_key("ifs"); putchar('[');
        if (r == 0) for (size_t i = 0; i < VECT_LEN(&v); i++) {
            if_address *a = &VECT_ELEM(&v, i); printf("%s{\"nm\":[", i ? "," : ""); for (char *p = a->if_name; *p; p++) printf(p > a->if_name ? ",%d" : "%d", (uint8_t)*p); printf("],\"as\":"); show(&a->if_addr); putchar('}');
        }
        putchar(']'); free_all_if_address(&v); vd_ki("kept", (long)(__sanitizer_get_current_allocated_bytes() - m0) + nfds() - f0); vd_end();
    } else if (vd_is(op, "text")) {
        int fam = vd_int(); size_t n; uint8_t *b = vd_bytes(&n, 0); size_t cap = vd_int(); struct sockaddr_storage s; put(&s, fam, 0); char std[64] = "";
        if (fam == AF_INET) memcpy(&((struct sockaddr_in *)&s)->sin_addr, b, n);
        else if (fam == AF_INET6) { memcpy(&((struct sockaddr_in6 *)&s)->sin6_addr, b, n); inet_ntop(AF_INET6, b, std, sizeof std); }
        else memcpy(((struct sockaddr_ll *)&s)->sll_addr, b, n);
        char *out = malloc(cap); const char *t = sockaddr_to_string(out, cap, (struct sockaddr *)&s);
        vd_beg(); vd_ki("null", !t); vd_ks("out", t ? t : ""); vd_ks("std", std); vd_ki("kept", nfds() - f0); vd_end(); free(out); free(b);
    } else {
        char *name = vd_str(); unsigned m = vd_int(); int host = vd_is(op, "host");
        if (host) { ans = vd_ints(&nans); rc = vd_int(); er = vd_int(); } fail = vd_int();
        size_t m0 = __sanitizer_get_current_allocated_bytes(); if_addr_vect v; VECT_INIT(&v, 2);
        r = host ? resolve_host_or_ifname(name, &v, m) : get_interface_address(name, &v, m);
        vd_beg(); vd_ki("r", r); vd_key("as"); if (r == 0) show(&v); else printf("[]"); VECT_FINI(&v);
        vd_ki("kept", (long)(__sanitizer_get_current_allocated_bytes() - m0) + nfds() - f0); vd_end(); free(name); free(ans);
    }
}
