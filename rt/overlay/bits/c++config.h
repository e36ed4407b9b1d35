// Overlay: instantiate every library template in the harness instead of relying on libstdc++.so's instantiations.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
