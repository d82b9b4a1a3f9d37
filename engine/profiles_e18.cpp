#define VF_P18 1
#include "profiles_e.cpp"
