#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
void exit(int) __attribute__((noreturn));
void abort(void) __attribute__((noreturn));
int abs(int);
long labs(long);
int atoi(const char *);
long atol(const char *);
long strtol(const char *, char **, int);
unsigned long strtoul(const char *, char **, int);
#endif
