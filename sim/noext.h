// Forced into the thread build: string members are compiled (and instrumented)
// with the code that uses them instead of being taken from libstdc++.so.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
