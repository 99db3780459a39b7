// C library functions for the symbolic runs (native replays use the real ones).
#include <stddef.h>
#include <stdint.h>
char *strcpy(char *d, const char *s) {
    size_t i = 0;
    do d[i] = s[i];
    while (s[i++] != 0);
    return d;
}
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i] != 0; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
size_t strnlen(const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i] != 0) i++;
    return i;
}
int strcmp(const char *a, const char *b) {
    size_t i = 0;
    for (; a[i] != 0 && a[i] == b[i]; i++) {}
    return (int) (uint8_t) a[i] - (int) (uint8_t) b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i] || a[i] == 0) return (int) (uint8_t) a[i] - (int) (uint8_t) b[i];
    }
    return 0;
}
void *memchr(const void *p, int c, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (((const uint8_t *) p)[i] == (uint8_t) c) return (void *) ((uintptr_t) p + i);
    }
    return 0;
}
