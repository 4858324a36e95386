// Out-of-line parts of libstdc++ used by the ASN.1 compiler, for the symbolic executor only.
#include <cstddef>
#include <string>
#include <unordered_set>
namespace std
{
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    (void)p; // every table has to work with every hash function; names stay symbolic this way
    return seed + n;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    if (n < 13) n = 13;
    _M_next_resize = n;
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if (n_elt + n_ins <= n_bkt && n_bkt > 1) return {false, 0};
    size_t n = (n_elt + n_ins) * 2 + 1;
    if (n < 13) n = 13;
    _M_next_resize = n;
    return {true, n};
}
}
}
// std::map: trees that are not balanced
#include <map>
namespace std
{
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red) return x->_M_right; // the header is red
    if (x->_M_left)
    {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
extern "C" {
void* memchr(const void* p, int c, size_t n) noexcept
{
    for (const unsigned char* q = (const unsigned char*)p; n != 0; n--, q++)
        if (*q == (unsigned char)c) return (void*)q;
    return nullptr;
}
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
}
#include "vf.h"
#include <cerrno>
#include <climits>
extern "C" {
static int vfm_errno;
int* __errno_location() noexcept { return &vfm_errno; }
// numbers read from text, so that printing them gives that text without a division
static struct { char text[24]; int length; long long value; } vfm_read[16];
static int vfm_reads;
static long long vfm_strtoll(const char* s, char** end, int base, bool is_signed = true)
{
    // decimal only, without the leading white space no caller passes
    bool neg  = vf_fork(*s == '-') != 0;
    bool plus = vf_fork(*s == '+') != 0;
    const char* p = s + (neg | plus);
    const char* first = p;
    unsigned long long v = 0;
    for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + (unsigned long long)(*p & 15);
    // out of range: compared digit by digit, as decimal text
    const char* q = first;
    const char* most = is_signed ? neg ? "9223372036854775808" : "9223372036854775807" : "18446744073709551615";
    const int   m = is_signed ? 19 : 20;
    while (p - q > m && *q == '0') q++;
    bool big = base != 10 || p - q > m;
    if (p - q == m)
    {
        bool less = false;
        for (int i = 0; i < m; i++)
        {
            big |= !less & !big & (q[i] > most[i]);
            less |= !big & (q[i] < most[i]);
        }
    }
    if (end) *end = const_cast<char*>(p == first ? s : p);
    if (vf_fork(big))
    {
        vfm_errno = ERANGE;
        return !is_signed ? -1 : neg ? LLONG_MIN : LLONG_MAX;
    }
    long long r = (long long)(neg ? 0 - v : v);
    if (is_signed && vfm_reads < 16 && p > first && p - first < 20 && base == 10 && !plus && vf_fork(*first != '0'))
    {
        auto& e = vfm_read[vfm_reads++];
        e.length = int(p - s);
        for (int i = 0; i < e.length; i++) e.text[i] = s[i];
        e.value = r;
    }
    return r;
}
static void vfm_print(std::string* out, unsigned long long v, bool neg)
{
    char buf[24];
    int  n = 0;
    do
    {
        buf[n++] = char('0' + v % 10);
        v /= 10;
    } while (vf_fork(v != 0));
    new (out) std::string;
    if (neg) out->push_back('-');
    while (n > 0) out->push_back(buf[--n]);
}
static void vfm_print_signed(std::string* out, long long v)
{
    for (int i = 0; i < vfm_reads; i++)
        if (vf_fork(v == vfm_read[i].value))
        {
            new (out) std::string(vfm_read[i].text, size_t(vfm_read[i].length));
            return;
        }
    bool neg = vf_fork(v < 0) != 0;
    vfm_print(out, neg ? 0 - (unsigned long long)v : (unsigned long long)v, neg);
}
#define TO_STRING(T, code, how) \
void vfm_to_string_##code(std::string* out, T v) __asm__("vfos_ZNSt7__cxx119to_stringE" #code); \
__attribute__((used)) void vfm_to_string_##code(std::string* out, T v) { how; }
TO_STRING(int, i, vfm_print_signed(out, v))
TO_STRING(long, l, vfm_print_signed(out, v))
TO_STRING(long long, x, vfm_print_signed(out, v))
TO_STRING(unsigned, j, vfm_print(out, v, false))
TO_STRING(unsigned long, m, vfm_print(out, v, false))
TO_STRING(unsigned long long, y, vfm_print(out, v, false))
#define STRTO(T, name, how) \
T vfm_##name##_a(const char* s, char** end, int base) __asm__("__isoc23_" #name); \
T vfm_##name##_a(const char* s, char** end, int base) { typedef T R; return R(vfm_strtoll(s, end, base, how)); } \
T vfm_##name##_b(const char* s, char** end, int base) __asm__(#name); \
T vfm_##name##_b(const char* s, char** end, int base) { typedef T R; return R(vfm_strtoll(s, end, base, how)); }
STRTO(long long, strtoll, true)
STRTO(long, strtol, true)
STRTO(unsigned long long, strtoull, false)
STRTO(unsigned long, strtoul, false)
unsigned long long vfe_strtod(const char* s, long n);
double strtod(const char* s, char** end) noexcept
{
    const char* p = s;
    while ((*p >= '0' && *p <= '9') || *p == '.') p++;
    if (end) *end = const_cast<char*>(p);
    // known text has its exact value, any other a mark that must not be printed
    unsigned long long bits = vfe_strtod(s, p - s);
    double             d;
    __builtin_memcpy(&d, &bits, 8);
    return d;
}
}
