#ifndef VF_INTTYPES_H
#define VF_INTTYPES_H
#include <stdint.h>
#define PRIu8 "u"
#define PRIu16 "u"
#define PRIu32 "u"
#define PRIx8 "x"
#define PRIx32 "x"
#define PRIX8 "X"
#define PRIX32 "X"
#define PRId32 "d"
#define PRIuPTR "u"
#endif
