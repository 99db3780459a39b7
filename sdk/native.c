#define _GNU_SOURCE
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
// Native replay of one symbolic path: inputs are read from the file given as argument, in order.
// Exit status: 0 held, 1 assertion violated, 3 inputs exhausted, 4 assumption not met.
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#define VMODEL_RAW
#include "vmodel.h"
void harness_main(void);
int model_snprintf(char *out, size_t len, const char *fmt, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3);
static FILE *v_in;
static uint64_t in_raw(void) {
    unsigned long long v;
    if (v_in == NULL || fscanf(v_in, "%llu", &v) != 1) {
        fprintf(stderr, "REPLAY: inputs exhausted\n");
        exit(3);
    }
    return (uint64_t) v;
}
uint8_t in_u8(void) { return (uint8_t) in_raw(); }
uint16_t in_u16(void) { return (uint16_t) in_raw(); }
uint32_t in_u32(void) { return (uint32_t) in_raw(); }
uint64_t in_u64(void) { return in_raw(); }
bool in_bool(void) { return in_raw() & 1; }
void in_bytes(void *p, size_t n) {
    for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = in_u8();
}
void v_assert(uint64_t c, const char *msg) {
    if (!c) {
        printf("REPLAY-VIOLATION: %s\n", msg);
        fflush(stdout);
        if (getenv("REPLAY_ONLY") != NULL && strcmp(getenv("REPLAY_ONLY"), msg) != 0) exit(5);
        exit(1);
    }
}
void v_assume(uint64_t c) {
    if (!c) {
        fprintf(stderr, "REPLAY: assumption not met\n");
        exit(4);
    }
}
void v_reach(const char *msg) { printf("REACHED %s\n", msg); }
void v_end(void) {
    fflush(stdout);
    exit(0);
}
void v_observe(uint64_t v) { printf("OBSERVED %llu\n", (unsigned long long) v); }
uint64_t v_concrete(uint64_t v) { return v; }
uint8_t v_pick(const void *p, size_t n, size_t i, uint8_t other) { return i < n ? ((const uint8_t *) p)[i] : other; }
uint64_t v_select(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
// A native run knows where the SDK saw secrets (m_secret).  Checking samples it compares the contents there; replaying a
// counterexample it looks for copies as well, recognisable by the values the counterexample gives the secrets.
void v_secret(const void *p, size_t n) {
    (void) p;
    (void) n;
}
extern uint8_t __start_vappbss[] __attribute__((weak)), __stop_vappbss[] __attribute__((weak));
extern uint8_t __start_vappdata[] __attribute__((weak)), __stop_vappdata[] __attribute__((weak));
void *__asan_get_current_fake_stack(void);
static bool v_hit(const uint8_t *p, const void *a, size_t an, const void *b, size_t bn) {
    const uint8_t *x = a, *y = b;
    return !(x != NULL && p >= x && p < x + an) && !(y != NULL && p >= y && p < y + bn);
}
__attribute__((no_sanitize("address", "undefined"))) static uint64_t v_search(const uint8_t *from, size_t n, const void *a, size_t an,
                                                                             const void *b, size_t bn) {
    uint64_t c = 0;
    for (size_t i = 0; i + 12 <= n; i++) {
        bool same = true;
        for (unsigned k = 0; k < 12 && same; k++) same = from[i + k] == (uint8_t) (0xA7 * (k + 1) ^ 0x3C);
        c += same && v_hit(from + i, a, an, b, bn);
    }
    return c;
}
__attribute__((no_sanitize("address", "undefined"))) uint64_t v_secret_scan(const void *a, size_t an, const void *b, size_t bn) {
    uint64_t c = 0;
    bool strict = getenv("VERIF_STRICT") != NULL;
    for (unsigned i = 0; i < M_SECRETS; i++) {
        const m_secret_t *s = &m_secret[i];
        if (!s->live || !v_hit(s->p, a, an, b, bn)) continue;
        bool same = true;
        for (unsigned k = 0; k < 32 && same; k++) same = s->p[k] == s->copy[k];
        c += same || strict;
    }
    if (!strict) return c;
    if (__start_vappbss != NULL) c += v_search(__start_vappbss, (size_t) (__stop_vappbss - __start_vappbss), a, an, b, bn);
    if (__start_vappdata != NULL) c += v_search(__start_vappdata, (size_t) (__stop_vappdata - __start_vappdata), a, an, b, bn);
    // frames of functions that have returned (AddressSanitizer keeps them for a while)
    uint8_t *fake = __asan_get_current_fake_stack();
    int mem = open("/proc/self/mem", O_RDONLY);
    for (size_t off = 0; fake != NULL && mem >= 0 && off < (12u << 20); off += 4096) {
        static uint8_t page[4096];
        uintptr_t at = ((uintptr_t) fake & ~(uintptr_t) 4095) + off;
        if (pread(mem, page, sizeof(page), (off_t) at) != sizeof(page)) break;
        c += v_search(page, sizeof(page), NULL, 0, NULL, 0);
    }
    if (mem >= 0) close(mem);
    return c;
}
static volatile uint8_t v_sink;
void v_check_r(const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) v_sink ^= ((const volatile uint8_t *) p)[i];
}
void v_check_w(const void *p, size_t n) {
    for (size_t i = 0; i < n; i++) {
        volatile uint8_t *q = (volatile uint8_t *) p;
        q[i] = q[i];
    }
}
int app_snprintf(char *out, size_t len, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    uint64_t args[4] = {0};
    unsigned n = 0;
    for (const char *p = fmt; *p != 0 && n < 4; p++) {
        if (*p != '%') continue;
        if (*++p == '%') continue;
        bool wide = false;
        for (; (*p >= '0' && *p <= '9') || *p == 'l' || *p == 'z'; p++) wide |= *p == 'l' || *p == 'z';
        args[n++] = wide || *p == 's' ? va_arg(ap, uint64_t) : va_arg(ap, uint32_t);
    }
    va_end(ap);
    return model_snprintf(out, len, fmt, args[0], args[1], args[2], args[3]);
}
int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IONBF, 0);
    if (argc > 1) v_in = fopen(argv[1], "r");
    harness_main();
    printf("REPLAY: held\n");
    return 0;
}
