// Value domains of the specification and their concrete values.
// Index order is value order (specification: MVault.tla).
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <climits>
#include <functional>
#include <memory>
#include "Strings/ToString.h"
#include "Strings/FromString.h"

// A user type: heap storage (double frees and leaks show up), colliding hashes, live instance counter
struct Cus
{
    static long Live;
    int* P;
#ifdef CONC_DRIVER
    static void Count(int) {}       // the counter of the other drivers would be shared by threads
#else
    static void Count(int d) { Live += d; }
#endif
    explicit Cus(int n) : P(new int(n)) { Count(1); }
    Cus() : Cus(0) {}
    Cus(const Cus& o) : P(new int(*o.P)) { Count(1); }
    Cus& operator=(const Cus& o) { if (this != &o) *P = *o.P; return *this; }
    ~Cus() { *P = -77; delete P; Count(-1); }
    bool operator==(const Cus& o) const { return *P == *o.P; }
    bool operator!=(const Cus& o) const { return *P != *o.P; }
    bool operator<(const Cus& o) const { return *P < *o.P; }
    bool operator>(const Cus& o) const { return *P > *o.P; }
    bool operator<=(const Cus& o) const { return *P <= *o.P; }
    bool operator>=(const Cus& o) const { return *P >= *o.P; }
};
namespace std { template <> struct hash<Cus> { size_t operator()(const Cus& c) const { return static_cast<size_t>(*c.P % 2); } }; }
namespace mvlt
{
    template <> inline std::string ToString(const Cus& c) noexcept { return "C\"" + std::to_string(*c.P); }
    template <> inline bool FromString(const std::string& s, Cus& c) noexcept
    {
        if (s.size() != 3 || s[0] != 'C' || s[1] != '"' || s[2] < '0' || s[2] > '5') return false;
        *c.P = s[2] - '0';
        return true;
    }
}

template <class T> struct Dom;
template <> struct Dom<int>
{
    static const char* Name() { return "int"; }
    static const std::vector<int>& Values()
    { static std::vector<int> v{INT_MIN, 0, 1, 2, 3, 5, 8, 100, 65537, INT_MAX}; return v; }
};
template <> struct Dom<std::string>
{
    static const char* Name() { return "str"; }
    static const std::vector<std::string>& Values()
    {
        static std::vector<std::string> v{"", "\n{\"x\":1}", "\"q\",;\\", "7", "A-text-that-is-longer-than-any-small-buffer", "a", "a\r\nb|c", "\xd0\xb6"};
        return v;
    }
};
template <> struct Dom<double>
{
    static const char* Name() { return "dbl"; }
    static const std::vector<double>& Values() { static std::vector<double> v{-1.5, 0, 0.25, 1e6}; return v; }
};
template <> struct Dom<bool>
{
    static const char* Name() { return "bool"; }
    static const std::vector<bool>& Values() { static std::vector<bool> v{false, true}; return v; }
};
template <> struct Dom<std::uint64_t>
{
    static const char* Name() { return "u64"; }
    static const std::vector<std::uint64_t>& Values()
    { static std::vector<std::uint64_t> v{0, 1, 4294967297ull, 18446744073709551615ull}; return v; }
};
template <> struct Dom<Cus>
{
    static const char* Name() { return "cus"; }
    static std::vector<Cus> Values() { std::vector<Cus> v; for (int i = 0; i < 6; ++i) v.emplace_back(i); return v; }
};
template <class T> int Idx(const T& x)
{
    int i = 0;
    for (const auto& y : Dom<T>::Values()) { if (T(y) == x) return i; ++i; }
    return 99;
}
template <class T> T ValOf(int i) { return T(Dom<T>::Values().at(static_cast<size_t>(i))); }
template <> inline Cus ValOf<Cus>(int i) { return Cus(i); }
