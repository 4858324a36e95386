// Definitions for the symbolic executor only: pieces of libstdc++.so that inlined headers touch.
namespace vfm
{
long  vt[4] = {0, 0, 0, 0};                                // vbase offset 0
struct Ctype { char pad[56]; char widen_ok; char widen[256]; } ct = {{}, 1, {}};
struct Stream { void* vptr; char pad[232]; void* ctype; char rest[64]; };
}
extern vfm::Stream fake_cerr __asm__("_ZSt4cerr");
extern vfm::Stream fake_cout __asm__("_ZSt4cout");
vfm::Stream fake_cerr = {&vfm::vt[3], {}, &vfm::ct, {}};
vfm::Stream fake_cout = {&vfm::vt[3], {}, &vfm::ct, {}};
#include <string>
template class std::basic_string<char>;
