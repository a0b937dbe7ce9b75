// The headers of the AArch64 C library are borrowed for targets that have no C
// library here (same data model); their vector math declarations are left out.
#include <bits/libm-simd-decl-stubs.h>
