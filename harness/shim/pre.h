// Included first when the compiler's sources are translated for the symbolic executor: keeps functions it replaces from being inlined.
#pragma once
#ifdef __cplusplus
#include <bits/stringfwd.h>
namespace std
{
inline namespace __cxx11
{
__attribute__((noinline)) inline string to_string(int) noexcept;
__attribute__((noinline)) inline string to_string(unsigned) noexcept;
__attribute__((noinline)) inline string to_string(long);
__attribute__((noinline)) inline string to_string(unsigned long);
__attribute__((noinline)) inline string to_string(long long);
__attribute__((noinline)) inline string to_string(unsigned long long);
}
}
#endif
