// libstdc++ leaves std::string members to its binary; lower them instead
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
// the wide character block operations, as the C standard defines them
#include <wchar.h>
extern "C" __attribute__((weak)) wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) throw() { __builtin_memcpy(d, s, n * sizeof(wchar_t)); return d; }
extern "C" __attribute__((weak)) wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) throw() { __builtin_memmove(d, s, n * sizeof(wchar_t)); return d; }
extern "C" __attribute__((weak)) wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) throw() { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
extern "C" __attribute__((weak)) int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) throw() { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
