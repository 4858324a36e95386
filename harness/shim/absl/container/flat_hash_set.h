// stand-in for absl::flat_hash_set: same contents and iteration interface, linear search
#pragma once
#include <cstddef>
#include <utility>
#include <vector>
namespace absl
{
template <typename T>
class flat_hash_set
{
    std::vector<T> v;

  public:
    using const_iterator = typename std::vector<T>::const_iterator;
    const_iterator begin() const { return v.begin(); }
    const_iterator end() const { return v.end(); }
    const_iterator find(const T& t) const
    {
        const_iterator i = v.begin();
        while (i != v.end() && !(*i == t)) ++i;
        return i;
    }
    size_t count(const T& t) const { return find(t) != v.end(); }
    bool   contains(const T& t) const { return find(t) != v.end(); }
    std::pair<const_iterator, bool> insert(const T& t)
    {
        const_iterator i = find(t);
        if (i != v.end()) return {i, false};
        v.push_back(t);
        return {v.end() - 1, true};
    }
    template <typename... A>
    std::pair<const_iterator, bool> emplace(A&&... a) { return insert(T(std::forward<A>(a)...)); }
    size_t size() const { return v.size(); }
    bool   empty() const { return v.empty(); }
    void   reserve(size_t n) { v.reserve(n); }
    void   clear() { v.clear(); }
};
}
