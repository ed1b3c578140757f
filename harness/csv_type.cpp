// -DOPS_T=type -DOPS_N=name
#include "csv_ops.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <type_traits>
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

template <class T> static T ReadAs(const std::string& s)
{
    if constexpr (std::is_same_v<T, std::string>) return s;
    else if constexpr (std::is_same_v<T, bool>) return s == "true";
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::strtod(s.c_str() + (s[0] == '~'), nullptr));
    else if constexpr (std::is_signed_v<T>) return static_cast<T>(std::strtoll(s.c_str(), nullptr, 10));
    else return static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
}
template <class T> static std::string TextAs(const T& v)
{
    if constexpr (std::is_same_v<T, std::string>) return v;
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>)
    {
        char b[2000];
        if (v == 0) return "0.000000";          // minus zero is zero
        // exact when it is a multiple of 1/64, otherwise rounded to six decimals
        const bool exact = std::isfinite(v) && static_cast<double>(v) * 64 == std::floor(static_cast<double>(v) * 64);
        std::snprintf(b, sizeof b, "%s%.6f", exact ? "" : "~", static_cast<double>(v));
        return b;
    }
    else { std::ostringstream o; o << +v; return o.str(); }
}
using T = OPS_T;
static T Read(const std::string& s) { return ReadAs<T>(s); }
static std::string Text(const T& v) { return TextAs<T>(v); }
namespace {
struct Ops : CsvOps
{
    const char* Name() override { return STR(OPS_N); }
    std::type_index Type() override { return typeid(T); }
    bool Add(mvlt::Vault& v, const std::string& key, bool unique, const std::string& def) override
    {
        if (unique) return v.AddUniqueKey<T>(key).IsOperationSuccess;
        return v.AddKey<T>(key, Read(def));
    }
    bool Param(std::vector<std::pair<std::string, mvlt::VaultParamInput>>& p, const std::string& key, const std::string& text) override
    {
        p.emplace_back(key, mvlt::VaultParamInput(Read(text)));
        return true;
    }
    void Bind(mvlt::Vault& v, const std::string& key, mvlt::VaultRecordSet& s) override { v.RequestEqual(key, T{}, s); }
    std::string Cell(const mvlt::VaultRecordRef& r, const std::string& key, std::string& x) override
    {
        T v{};
        if (!r.GetData(key, v).IsOperationSuccess) { x = "GetData"; return ""; }
        std::string s;
        if (!r.GetDataAsString(key, s).IsOperationSuccess) x = "GetDataAsString";
        std::string t = Text(v);
        if (std::is_floating_point_v<T> && s == "-0.000000" && t == "0.000000") return t;
        if (s != (t.empty() || t[0] != '~' || std::is_same_v<T, std::string> ? t : t.substr(1))) x = "text of a value";
        return t;
    }
};
}
CsvOps* CAT(MakeCsv_, OPS_N)() { return new Ops; }
