#undef assert
void vf_assert_failed(const char *file, int line);
#define assert(c) ((c) ? (void)0 : vf_assert_failed(__FILE__, __LINE__))
