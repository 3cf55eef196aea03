// Included first into the code under test: std::string is instantiated (and instrumented) here
// instead of being taken from the precompiled C++ runtime.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <cstdint>
#include <cstring>
