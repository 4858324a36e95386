// Text streams for the symbolic executor: string streams collect what is written, other streams are sinks.
// A function here named vfos<mangled name> stands for the libstdc++ function of that name.
#include <new>
#include <ostream>
#include <sstream>
#include <string>
#include "vf.h"
namespace
{
struct Target { const void* os; std::string* text; };
Target targets[32];
int    count;
std::string* target(const void* os)
{
    for (int i = count; i-- > 0;)
        if (targets[i].os == os) return targets[i].text;
    return nullptr;
}
// the parts of the stream objects the inlined code of the headers reads
void construct(char* obj, int ostream_at, int buf_at, int ios_at)
{
    for (int i = 0; i < ios_at + 264; i++) obj[i] = 0;
    static long tables[2][2][4]; // offset of the virtual base three words in front of the address point
    int k = ostream_at != 0;
    tables[k][0][0] = ios_at;
    tables[k][1][0] = ios_at - ostream_at;
    *(long**)obj = &tables[k][0][3];
    *(long**)(obj + ostream_at) = &tables[k][k][3];
    *(long*)(obj + ios_at + 8) = 6;          // precision
    *(int*)(obj + ios_at + 24) = 0x1002;     // dec, skipws
    std::string* s = new (obj + buf_at + 72) std::string;
    for (int i = 0; i < count; i++)
        if (targets[i].os == obj + ostream_at)
        {
            targets[i].text = s;
            return;
        }
    if (count < 32) targets[count++] = Target{obj + ostream_at, s};
    else vf_check(false, "too many string streams");
}
void destroy(char* obj, int ostream_at, int buf_at)
{
    for (int i = 0; i < count; i++)
        if (targets[i].os == obj + ostream_at)
        {
            for (int j = i; j + 1 < count; j++) targets[j] = targets[j + 1];
            count--;
            break;
        }
    reinterpret_cast<std::string*>(obj + buf_at + 72)->~basic_string();
}
void text(void* os, const char* p, size_t n)
{
    std::string* s = target(os);
    if (!s) return;
    p = reinterpret_cast<const char*>(vf_fork(reinterpret_cast<uint64_t>(p)));
    s->append(p, vf_fork(n));
}
void number(void* os, unsigned long v, bool negative)
{
    std::string* s = target(os);
    if (!s) return;
#ifdef RAW_NUMBERS
    s->push_back(negative ? 2 : 1);
    for (int i = 0; i < 8; i++) s->push_back(char(v >> (8 * i)));
    return;
#endif
    char buf[24];
    int  n = 0;
    do
    {
        buf[n++] = char('0' + v % 10);
        v /= 10;
    } while (vf_fork(v != 0));
    if (negative) buf[n++] = '-';
    while (n > 0) s->push_back(buf[--n]);
}
void* signed_number(void* os, long v)
{
    if (!target(os)) return os;
    bool neg = vf_fork(v < 0) != 0;
    number(os, neg ? 0 - (unsigned long)v : (unsigned long)v, neg);
    return os;
}
void* unsigned_number(void* os, unsigned long v) { number(os, v, false); return os; }
}
#define F(ret, name, args, mangled) ret name args __asm__("vfos" mangled); __attribute__((used)) ret name args
extern "C" {
// inlined destructors look for the virtual base with these
static long ios_128[4] = {128}, ios_112[4] = {112};
extern long* vtt_ss[10] __asm__("_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE");
__attribute__((used)) long* vtt_ss[10] = {ios_128 + 3, ios_128 + 3, ios_128 + 3, ios_128 + 3, ios_112 + 3, ios_112 + 3, ios_112 + 3, ios_112 + 3, ios_112 + 3, ios_112 + 3};
extern long* vtt_os[4] __asm__("_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE");
__attribute__((used)) long* vtt_os[4] = {ios_112 + 3, ios_112 + 3, ios_112 + 3, ios_112 + 3};
F(void, nop_i, (void*), "_ZNSt8ios_baseD2Ev") {}
F(void, nop_l, (void*), "_ZNSt6localeD1Ev") {}
F(void, ss_c, (char* o), "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev") { construct(o, 16, 24, 128); }
F(void, ss_d, (char* o), "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev") { destroy(o, 16, 24); }
F(void, os_c, (char* o), "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev") { construct(o, 0, 8, 112); }
F(void, os_d, (char* o), "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev") { destroy(o, 0, 8); }
F(void*, o_ins, (void* os, const char* p, long n), "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") { text(os, p, n); return os; }
F(void*, o_cstr, (void* os, const char* p), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
{
    size_t n = 0;
    while (p[n] != 0) n++;
    text(os, p, n);
    return os;
}
F(void*, o_char, (void* os, char c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c") { text(os, &c, 1); return os; }
F(void*, o_uchar, (void* os, char c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h") { text(os, &c, 1); return os; }
F(void*, o_schar, (void* os, char c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a") { text(os, &c, 1); return os; }
F(void*, o_put, (void* os, char c), "_ZNSo3putEc") { text(os, &c, 1); return os; }
F(void*, o_write, (void* os, const char* p, long n), "_ZNSo5writeEPKcl") { text(os, p, n); return os; }
F(void*, o_i, (void* os, int v), "_ZNSolsEi") { return signed_number(os, v); }
F(void*, o_s, (void* os, short v), "_ZNSolsEs") { return signed_number(os, v); }
F(void*, o_t, (void* os, unsigned short v), "_ZNSolsEt") { return unsigned_number(os, v); }
F(void*, o_j, (void* os, unsigned v), "_ZNSolsEj") { return unsigned_number(os, v); }
F(void*, o_l, (void* os, long v), "_ZNSolsEl") { return signed_number(os, v); }
F(void*, o_m, (void* os, unsigned long v), "_ZNSolsEm") { return unsigned_number(os, v); }
F(void*, o_x, (void* os, long v), "_ZNSolsEx") { return signed_number(os, v); }
F(void*, o_y, (void* os, unsigned long v), "_ZNSolsEy") { return unsigned_number(os, v); }
F(void*, o_b, (void* os, bool v), "_ZNSolsEb") { return unsigned_number(os, v); }
F(void*, o_d, (void* os, double), "_ZNSolsEd") { text(os, "0.0", 3); return os; }
F(void*, o_id, (void* os, double), "_ZNSo9_M_insertIdEERSoT_") { text(os, "0.0", 3); return os; }
F(void*, o_il, (void* os, long v), "_ZNSo9_M_insertIlEERSoT_") { return signed_number(os, v); }
F(void*, o_im, (void* os, unsigned long v), "_ZNSo9_M_insertImEERSoT_") { return unsigned_number(os, v); }
F(void*, o_ix, (void* os, long v), "_ZNSo9_M_insertIxEERSoT_") { return signed_number(os, v); }
F(void*, o_iy, (void* os, unsigned long v), "_ZNSo9_M_insertIyEERSoT_") { return unsigned_number(os, v); }
F(void*, o_ib, (void* os, bool v), "_ZNSo9_M_insertIbEERSoT_") { return unsigned_number(os, v); }
int isprint(int c) { return (c >= 0x20) & (c < 0x7f); }
static void gone(void*) {}
static const char* what(void*) { return "exception"; }
__attribute__((used)) void* vf_model_exception_vtable[3] = {(void*)gone, (void*)gone, (void*)what};
}
