#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <stddef.h>
#include <stdarg.h>
#define EOF (-1)
int snprintf(char *, size_t, const char *, ...) __attribute__((format(printf, 3, 4)));
int vsnprintf(char *, size_t, const char *, va_list);
int sprintf(char *, const char *, ...) __attribute__((format(printf, 2, 3)));
int vsprintf(char *, const char *, va_list);
int printf(const char *, ...);
int puts(const char *);
#endif
