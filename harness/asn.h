// The whole ASN.1 compiler, main() included, on a specification held in memory.
#pragma once
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include "vf.h"
static std::string vf_input;
static std::string vf_output[3];     // X.hpp, X.fwd.hpp, X.detail.hpp
namespace std
{
struct vf_ifstream
{
    explicit vf_ifstream(const std::string&) {}
    bool good() const { return true; }
    bool is_open() const { return true; }
    explicit operator bool() const { return true; }
};
struct vf_ofstream
{
    std::string* to;
    explicit vf_ofstream(const std::string& name)
    {
        size_t a = name.find('.'), b = name.rfind('.');
        to = &vf_output[a == b ? 0 : name[a + 1] == 'f' ? 1 : 2];
    }
    bool good() const { return true; }
    bool is_open() const { return true; }
    explicit operator bool() const { return true; }
    vf_ofstream& operator<<(const std::string& s) { *to += s; return *this; }
    vf_ofstream& operator<<(const char* s) { *to += s; return *this; }
    void flush() {}
    void close() {}
};
template <typename C>
struct vf_istreambuf_iterator
{
    typedef input_iterator_tag iterator_category;
    typedef C value_type;
    typedef ptrdiff_t difference_type;
    typedef const C* pointer;
    typedef C reference;
    size_t at;
    vf_istreambuf_iterator() : at(~size_t(0)) {}
    vf_istreambuf_iterator(vf_ifstream&) : at(0) { end(); }
    void end() { if (at >= vf_input.size()) at = ~size_t(0); }
    C operator*() const { return vf_input[at]; }
    vf_istreambuf_iterator& operator++() { at++; end(); return *this; }
    vf_istreambuf_iterator operator++(int) { vf_istreambuf_iterator t = *this; ++*this; return t; }
    bool operator==(const vf_istreambuf_iterator& o) const { return at == o.at; }
    bool operator!=(const vf_istreambuf_iterator& o) const { return at != o.at; }
};
}
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define istreambuf_iterator vf_istreambuf_iterator
#define main vf_compiler_main
#include "src/compiler_main/CompilerMain.cpp"
#undef main
#undef ifstream
#undef ofstream
#undef istreambuf_iterator
// runs the compiler; false if it refuses
static bool compile(const std::string& text)
{
    vf_input = text;
    for (std::string& o : vf_output) o.clear();
    char a0[] = "fast_ber_compiler", a1[] = "in.asn", a2[] = "out";
    char* argv[] = {a0, a1, a2, nullptr};
    return vf_compiler_main(3, argv) == 0;
}
