// The sizes of the tables of a registry of names, of those it has.
#pragma once
#include <cstddef>
#include <string>
#include <utility>
#include <vector>
namespace REG
{
    template <class I> std::vector<std::pair<std::string, size_t>> sizes(I &i)
    {
        std::vector<std::pair<std::string, size_t>> v;
        if constexpr (requires { i.dictionary.size(); }) v.push_back({"dictionary", i.dictionary.size()});
        if constexpr (requires { i.dictionary_inv.size(); }) v.push_back({"dictionary_inv", i.dictionary_inv.size()});
        if constexpr (requires { i.objects.size(); }) v.push_back({"objects", i.objects.size()});
        if constexpr (requires { i.count.size(); }) v.push_back({"count", i.count.size()});
        return v;
    }
    template <class I> size_t total(I &i) { size_t n = 0; for (auto &p : sizes(i)) n += p.second; return n; }
    template <class I> bool all(I &i, size_t n) { for (auto &p : sizes(i)) if (p.second != n) return false; return true; }
    template <class I, class K> bool has_handle(I &i, K k)
    {
        if constexpr (requires { i.objects.count(k); i.objects[k] == nullptr; }) return i.objects.count(k) && !(i.objects[k] == nullptr);
        return true;
    }
    template <class I, class K> bool counted(I &i, K k)
    {
        if constexpr (requires { i.check_count(k); }) return i.check_count(k) >= 1;
        return true;
    }
}
