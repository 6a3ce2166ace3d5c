// Included first when /repo is compiled for simulated threads: std::string's
// members are compiled (and so instrumented) with the code that uses them,
// instead of taken from libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
