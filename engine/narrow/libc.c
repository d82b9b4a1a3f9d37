/* The part of the standard library which a small embedded library may use, for a 32-bit program without one. */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>

void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n)
{
        char *a = d; const char *b = s;
        if (a <= b) while (n--) *a++ = *b++;
        else while (n--) a[n] = b[n];
        return d;
}
void *memset(void *d, int c, size_t n) { char *a = d; while (n--) *a++ = (char)c; return d; }
int memcmp(const void *x, const void *y, size_t n)
{
        const unsigned char *a = x, *b = y;
        for (; n--; a++, b++) if (*a != *b) return *a - *b;
        return 0;
}
void *memchr(const void *s, int c, size_t n)
{
        const unsigned char *a = s;
        for (; n--; a++) if (*a == (unsigned char)c) return (void*)a;
        return NULL;
}
size_t strlen(const char *s) { const char *e = s; while (*e) e++; return (size_t)(e - s); }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n)
{
        for (; n; n--, a++, b++) {
                if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
                if (!*a) break;
        }
        return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) { } return r; }
char *strncpy(char *d, const char *s, size_t n)
{
        size_t i = 0;
        for (; i < n && s[i]; i++) d[i] = s[i];
        for (; i < n; i++) d[i] = 0;
        return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
        char *e = d + strlen(d);
        while (n-- && *s) *e++ = *s++;
        *e = 0;
        return d;
}
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char*)s; if (!*s) return NULL; } }
size_t strspn(const char *s, const char *t) { size_t i = 0; while (s[i] && strchr(t, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *t) { size_t i = 0; while (s[i] && !strchr(t, s[i])) i++; return i; }
char *strpbrk(const char *s, const char *t) { s += strcspn(s, t); return *s ? (char*)s : NULL; }
char *strtok_r(char *s, const char *t, char **k)
{
        if (!s) s = *k;
        s += strspn(s, t);
        if (!*s) { *k = s; return NULL; }
        char *e = s + strcspn(s, t);
        if (*e) *e++ = 0;
        *k = e;
        return s;
}
char *strtok(char *s, const char *t) { static char *k; return strtok_r(s, t, &k); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) || isupper(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcasecmp(const char *a, const char *b)
{
        while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++;
        return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
unsigned long strtoul(const char *s, char **e, int base)
{
        unsigned long v = 0;
        int neg = 0;
        const char *b = s;
        while (isspace((unsigned char)*s)) s++;
        if (*s == '+' || *s == '-') neg = *s++ == '-';
        if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x' && isxdigit((unsigned char)s[2])) { s += 2; base = 16; }
        else if (base == 0) base = *s == '0' ? 8 : 10;
        int any = 0;
        for (;; s++) {
                int c = (unsigned char)*s, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
                if (d >= base) break;
                v = v * (unsigned)base + (unsigned)d;
                any = 1;
        }
        if (e) *e = (char*)(any ? s : b);
        return neg ? 0ul - v : v;
}
long strtol(const char *s, char **e, int base) { return (long)strtoul(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }

/* ---- formatted print: everything of the standard for integers, chars and texts */
struct sink { char *p; size_t n, len; };
static void put(struct sink *k, char c) { if (k->len + 1 < k->n) k->p[k->len] = c; k->len++; }
static uint64_t divmod(uint64_t v, unsigned base, unsigned *rem)      /* no division of 64 bits without its library */
{
        uint64_t q = 0, r = 0;
        for (int i = 63; i >= 0; i--) {
                r = (r << 1) | ((v >> i) & 1);
                q <<= 1;
                if (r >= base) { r -= base; q |= 1; }
        }
        *rem = (unsigned)r;
        return q;
}
int vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
        struct sink k = { buf, size, 0 };
        for (; *f; f++) {
                if (*f != '%') { put(&k, *f); continue; }
                f++;
                int left = 0, plus = 0, space = 0, alt = 0, zero = 0, width = 0, prec = -1, size_ = 0;
                for (;; f++) {
                        if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1;
                        else if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else break;
                }
                if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
                else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
                if (*f == '.') {
                        f++;
                        prec = 0;
                        if (*f == '*') { prec = va_arg(ap, int); f++; }
                        else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0');
                }
                for (;; f++) {
                        if (*f == 'l') size_++; else if (*f == 'h') size_--; else if (*f == 'j') size_ = 2;
                        else if (*f == 'z' || *f == 't') size_ = 1; else break;
                }
                char digits[72], sign = 0;
                const char *s = NULL;
                size_t n = 0;
                switch (*f) {
                case '%': put(&k, '%'); continue;
                case 'c': digits[0] = (char)va_arg(ap, int); s = digits; n = 1; zero = 0; break;
                case 's':
                        if (size_ > 0) goto fail;       /* wide chars which cannot be converted */
                        s = va_arg(ap, const char*);
                        if (!s) s = "(null)";
                        n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s);
                        zero = 0;
                        break;
                case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                        uint64_t v;
                        unsigned base = *f == 'o' ? 8 : (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
                        if (*f == 'p') { v = (uint32_t)va_arg(ap, void*); alt = 1; }
                        else if (*f == 'd' || *f == 'i') {
                                int64_t x = size_ >= 2 ? va_arg(ap, long long) : size_ == 1 ? va_arg(ap, long) : va_arg(ap, int);
                                if (size_ == -1) x = (short)x;
                                if (size_ <= -2) x = (signed char)x;
                                sign = x < 0 ? '-' : plus ? '+' : space ? ' ' : 0;
                                v = x < 0 ? 0 - (uint64_t)x : (uint64_t)x;
                        } else {
                                v = size_ >= 2 ? va_arg(ap, unsigned long long) : size_ == 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
                                if (size_ == -1) v = (unsigned short)v;
                                if (size_ <= -2) v = (unsigned char)v;
                        }
                        int nonzero = v != 0;
                        char *e = digits + sizeof(digits), *b = e;
                        while (v) { unsigned r; v = divmod(v, base, &r); *--b = (char)(r < 10 ? '0' + r : (*f == 'X' ? 'A' : 'a') + r - 10); }
                        while (e - b < (prec < 0 ? 1 : prec) && b > digits + 4) *--b = '0';
                        if (alt && base == 8 && (b == e || *b != '0')) *--b = '0';
                        if (prec >= 0) zero = 0;
                        int x = alt && base == 16 && nonzero;
                        if (zero && !left) while (e - b + (sign != 0) + 2 * x < width && b > digits + 4) *--b = '0';
                        if (x) { *--b = *f == 'X' ? 'X' : 'x'; *--b = '0'; }
                        if (sign) *--b = sign;
                        s = b;
                        n = (size_t)(e - b);
                        break;
                }
                default: goto fail;
                }
                int pad = width > (int)n ? width - (int)n : 0;
                if (!left) while (pad-- > 0) put(&k, ' ');
                for (size_t i = 0; i < n; i++) put(&k, s[i]);
                if (left) while (pad-- > 0) put(&k, ' ');
        }
        if (size) buf[k.len < size ? k.len : size - 1] = 0;
        return (int)k.len;
fail:
        if (size) buf[k.len < size ? k.len : size - 1] = 0;
        return -1;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list a) { return vsnprintf(b, 0x7fffffff, f, a); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); return r; }
