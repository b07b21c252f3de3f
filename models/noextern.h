// force-included when compiling to bitcode: let library templates be instantiated in the unit
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "streams.h"
#endif
