// Included first in every C++ file compiled for the executor: instantiate library templates here
// instead of leaving them to libstdc++.so, so that their code is part of the encoding.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
