// Included before the library when it is built for a simulated big-endian host.
#include <bits/stdc++.h>
#include <endian.h>
#undef __BYTE_ORDER
#define __BYTE_ORDER __BIG_ENDIAN
#undef BYTE_ORDER
#define BYTE_ORDER BIG_ENDIAN
// no processor-specific code paths
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __SSE__
#undef __SSE2__
#undef __LITTLE_ENDIAN__
#define __BIG_ENDIAN__ 1
#ifdef PORTABLE
#undef __GNUC__
#undef __clang__
#endif
