// Executes scripts of calls of DataSaver and the data containers (GenSaver.tla, MCSaver.tla) in the real
// library and records what happened; TraceSaver.tla judges.   saverdriver SCRIPTS TRACE [--from K] [--only K]
#include "DataContainer.h"
#include <nlohmann/json.hpp>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <type_traits>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#include <malloc.h>
#define HEAP_BYTES() mallinfo2().uordblks
#endif
using J = nlohmann::ordered_json;
using namespace mvlt;

static std::string Str(const J& codes) { std::string s; for (const auto& c : codes) s += static_cast<char>(c.get<int>()); return s; }
static J Codes(const std::string& s) { J a = J::array(); for (unsigned char c : s) a.push_back(static_cast<int>(c)); return a; }

// A type of a user: counts its objects, owns memory
struct Obj
{
    static long Live;
    int* P;
    explicit Obj(int n = 0) : P(new int(n)) { ++Live; }
    Obj(const Obj& o) : P(new int(*o.P)) { ++Live; }
    Obj& operator=(const Obj& o) { *P = *o.P; return *this; }
    ~Obj() { *P = -1; delete P; --Live; }
};
long Obj::Live = 0;
static int Pool[10];
using Ptr = int*;

template <class T> static T ReadAs(const std::string& s)
{
    if constexpr (std::is_same_v<T, std::string>) return s;
    else if constexpr (std::is_same_v<T, bool>) return s == "true";
    else if constexpr (std::is_same_v<T, Obj>) return Obj(std::atoi(s.c_str()));
    else if constexpr (std::is_same_v<T, Ptr>) return Pool + std::atoi(s.c_str());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::strtod(s.c_str() + (s[0] == '~'), nullptr));
    else if constexpr (std::is_signed_v<T>) return static_cast<T>(std::strtoll(s.c_str(), nullptr, 10));
    else return static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
}
template <class T> static std::string TextAs(const T& v)
{
    if constexpr (std::is_same_v<T, std::string>) return v;
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, Obj>) return std::to_string(*v.P);
    else if constexpr (std::is_same_v<T, Ptr>) return v >= Pool && v < Pool + 10 ? std::to_string(v - Pool) : "wild";
    else if constexpr (std::is_floating_point_v<T>)
    {
        char b[2000];
        if (v == 0) return "0.000000";
        const bool exact = std::isfinite(v) && static_cast<double>(v) * 64 == std::floor(static_cast<double>(v) * 64);
        std::snprintf(b, sizeof b, "%s%.6f", exact ? "" : "~", static_cast<double>(v));
        return b;
    }
    else { std::ostringstream o; o << +v; return o.str(); }
}
template <class T> struct Tag { using Type = T; };
static const char* const TypeNames[] = {"str", "bool", "i32", "u64", "f64", "i16", "i8", "u8", "obj", "ptr"};
template <class F> static void WithType(const std::string& n, F f)
{
    if (n == "str") f(Tag<std::string>()); else if (n == "bool") f(Tag<bool>()); else if (n == "i32") f(Tag<std::int32_t>());
    else if (n == "u64") f(Tag<std::uint64_t>()); else if (n == "f64") f(Tag<double>()); else if (n == "i16") f(Tag<std::int16_t>());
    else if (n == "i8") f(Tag<std::int8_t>()); else if (n == "u8") f(Tag<std::uint8_t>()); else if (n == "obj") f(Tag<Obj>());
    else if (n == "ptr") f(Tag<Ptr>());
    else { std::fprintf(stderr, "driver: unknown type %s\n", n.c_str()); std::exit(3); }
}
static std::string NameOf(const std::type_index& t)
{
    if (t == typeid(void)) return "void";
    for (const char* n : TypeNames) { bool hit = false; WithType(n, [&](auto g) { hit = t == typeid(typename decltype(g)::Type); }); if (hit) return n; }
    return "unknown";
}
// Calls of the delete functions
static J Deleted;
static int Events;
template <class T, int D> static void Del(const void* p)
{
    ++Events;
    std::string name = NameOf(typeid(T));
    Deleted.push_back(J::array({D, name, p ? Codes(TextAs(*static_cast<const T*>(p))) : J("null")}));
}
// Reads twice into different variables: a value that was not written stays different
template <class T, class F> static bool Read(F get, J& v, std::string& x)
{
    T a = ReadAs<T>("1"), b = ReadAs<T>(std::is_same_v<T, bool> ? "true" : "2");
    const std::string ta = TextAs(a), tb = TextAs(b);
    const bool ra = get(a), rb = get(b);
    if (ra != rb) x = "two readings";
    if (TextAs(a) == ta && TextAs(b) == tb) return ra;                   // untouched
    if (TextAs(a) != TextAs(b)) x = "two readings";
    v.push_back(Codes(TextAs(a)));
    return ra;
}
static J Look(const DataSaver& s, std::string& x)
{
    const std::string t = NameOf(s.GetDataType());
    J text = J::array();
    if (t == "unknown") { x = "type of a value"; return J::array({t, text, text}); }
    for (const char* n : TypeNames)
        WithType(n, [&](auto g)
        {
            using T = typename decltype(g)::Type;
            J v = J::array();
            const bool ok = Read<T>([&](T& d) { return s.GetData(d); }, v, x);
            if (ok != (t == n) || v.size() != (t == n ? 1u : 0u)) x = "reading under the type " + std::string(n);
            else if (ok) text = v[0];
        });
    return J::array({t, text, Codes(s.Str())});
}

struct Cont
{
    std::unique_ptr<DataHashMap> Hash; std::unique_ptr<DataMap> Map;
    std::unique_ptr<DataMultiHashMap> MHash; std::unique_ptr<DataMultiMap> MMap;
    bool On() const { return Hash || Map || MHash || MMap; }
    void Off() { Hash.reset(); Map.reset(); MHash.reset(); MMap.reset(); }
    template <class F> void Do(F f) { if (Hash) f(*Hash); else if (Map) f(*Map); else if (MHash) f(*MHash); else if (MMap) f(*MMap); }
};
struct World { std::unique_ptr<DataSaver> S[4]; Cont C[4]; };

template <class T, class F> static void WithDel(int d, F f)
{
    // a lambda, a function pointer, a null pointer
    if (d == 2) { auto fn = [](const void* p) { Del<T, 2>(p); }; f(fn); }
    else if (d == 1) { void (*fn)(const void*) = Del<T, 1>; f(fn); }
    else { std::nullptr_t none = nullptr; f(none); }
}
template <class C, class F> static void GetAll(C& c, const std::string& k, F f)
{
    if constexpr (std::is_same_v<C, DataMultiHashMap> || std::is_same_v<C, DataMultiMap>)
    {
        auto r = c.GetAllData(k);
        for (auto it = r.first; it != r.second; ++it) f(it->first, it->second);
    }
}

static void RunOp(World& w, const J& op, J& ev)
{
    const std::string o = op.at("o");
    std::string x;
    J v = J::array();
    bool ok = true;
    auto S = [&](const char* n) -> std::unique_ptr<DataSaver>& { return w.S[op.at(n).get<int>()]; };
    auto C = [&](const char* n) -> Cont& { return w.C[op.at(n).get<int>()]; };
    const int d = op.contains("d") ? op.at("d").get<int>() : 0;
    const std::string text = op.contains("x") ? Str(op.at("x")) : op.contains("text") ? Str(op.at("text")) : "";
    const std::string k = op.contains("k") ? Str(op.at("k")) : "";
    if (o == "SNew") S("s").reset(new DataSaver());
    else if (o == "SVal") WithType(op.at("t"), [&](auto g)
    {
        using T = typename decltype(g)::Type;
        const T val = ReadAs<T>(text);
        if (d == 0) S("s").reset(new DataSaver(val)); else WithDel<T>(d, [&](auto& f) { S("s").reset(new DataSaver(val, f)); });
    });
    else if (o == "SCopy") S("s").reset(new DataSaver(*S("q")));
    else if (o == "SAsg") { DataSaver& r = (*S("s") = *S("q")); if (&r != S("s").get()) x = "assignment"; }
    else if (o == "SSet") WithType(op.at("t"), [&](auto g)
    {
        using T = typename decltype(g)::Type;
        const T val = ReadAs<T>(text);
        if (d == 0) S("s")->SetData(val); else WithDel<T>(d, [&](auto& f) { S("s")->SetData(val, f); });
    });
    else if (o == "SStrSet") ok = S("s")->SetDataFromString(text);
    else if (o == "SGet") WithType(op.at("t"), [&](auto g) { using T = typename decltype(g)::Type; ok = Read<T>([&](T& a) { return S("s")->GetData(a); }, v, x); });
    else if (o == "SReset") S("s")->ResetData();
    else if (o == "SSwap") S("s")->Swap(*S("q"));
    else if (o == "SDel") S("s").reset();
    else if (o == "CNew")
    {
        const std::string kind = op.at("kind");
        Cont& c = C("c");
        if (kind == "hash") c.Hash.reset(new DataHashMap()); else if (kind == "map") c.Map.reset(new DataMap());
        else if (kind == "mhash") c.MHash.reset(new DataMultiHashMap()); else c.MMap.reset(new DataMultiMap());
    }
    else if (o == "CCopy" || o == "CMove")
    {
        Cont &c = C("c"), &e = C("e");
        const bool mv = o == "CMove";
        if (e.Hash) c.Hash.reset(mv ? new DataHashMap(std::move(*e.Hash)) : new DataHashMap(*e.Hash));
        else if (e.Map) c.Map.reset(mv ? new DataMap(std::move(*e.Map)) : new DataMap(*e.Map));
        else if (e.MHash) c.MHash.reset(mv ? new DataMultiHashMap(std::move(*e.MHash)) : new DataMultiHashMap(*e.MHash));
        else c.MMap.reset(mv ? new DataMultiMap(std::move(*e.MMap)) : new DataMultiMap(*e.MMap));
        if (mv) e.Off();
    }
    else if (o == "CAsg")
    {
        Cont &c = C("c"), &e = C("e");
        if (c.Hash) *c.Hash = *e.Hash; else if (c.Map) *c.Map = *e.Map; else if (c.MHash) *c.MHash = *e.MHash; else *c.MMap = *e.MMap;
    }
    else if (o == "CDel") C("c").Off();
    else C("c").Do([&](auto& c)
    {
        if (o == "CAdd" || o == "CSet" || o == "CIt") WithType(op.at("t"), [&](auto g)
        {
            using T = typename decltype(g)::Type;
            const T val = ReadAs<T>(text);
            if (o == "CIt")
            {
                for (auto it = c.begin(); it != c.end(); ++it)
                    if (it->first == k) WithDel<T>(d, [&](auto& f) { it->second.SetData(val, f); });
            }
            else if (o == "CAdd") { if (d == 0) c.AddData(k, val); else WithDel<T>(d, [&](auto& f) { c.AddData(k, val, f); }); }
            else { if (d == 0) c.SetData(k, val); else WithDel<T>(d, [&](auto& f) { c.SetData(k, val, f); }); }
        });
        else if (o == "CAddS") c.AddDataFromDataSaver(k, *S("s"));
        else if (o == "CSetS") c.SetDataFromDataSaver(k, *S("s"));
        else if (o == "CStrSet") ok = c.SetDataFromString(k, text);
        else if (o == "CGet") WithType(op.at("t"), [&](auto g) { using T = typename decltype(g)::Type; ok = Read<T>([&](T& a) { return c.GetData(k, a); }, v, x); });
        else if (o == "CGetS") ok = c.GetDataSaver(k, *S("s"));
        else if (o == "CStr") { ok = Read<std::string>([&](std::string& a) { return c.GetDataAsString(k, a); }, v, x); if (ok && v.empty()) x = "text not given"; }
        else if (o == "CIs") ok = c.IsData(k);
        else if (o == "CErase") c.EraseData(k);
        else if (o == "CClear") c.Clear();
        else if (o == "CAll") GetAll(c, k, [&](const std::string& key, const DataSaver& s)
        {
            if (key != k) x = "key of GetAllData";
            J l = Look(s, x);
            v.push_back(J::array({l[0], l[1]}));
        });
        else { std::fprintf(stderr, "driver: unknown call %s\n", o.c_str()); std::exit(3); }
    });
    ev["ok"] = ok; ev["v"] = v; ev["x"] = x;
}

static void OnAlarm(int) { const char m[] = "driver: HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
static void RunScript(const J& script, int index, FILE* out)
{
    auto emit = [&](const J& e) { if (!out) return; std::string s = e.dump(-1, ' ', true); std::fwrite(s.data(), 1, s.size(), out); std::fputc('\n', out); std::fflush(out); };
    emit({{"e", "Begin"}, {"i", index}});
    World w;
    for (const J& op : script)
    {
        J ev = {{"e", "Op"}, {"op", op}};
        Deleted = J::array();
        RunOp(w, op, ev);
        ev["del"] = Deleted;
        Deleted = J::array();
        std::string x = ev["x"];
        J s = J::array(), c = J::array(), n = J::array();
        const long live = Obj::Live;
        for (int i = 1; i <= 3; ++i)
        {
            s.push_back(w.S[i] ? J::array({Look(*w.S[i], x)}) : J::array());
            J els = J::array();
            long size = -1;
            w.C[i].Do([&](auto& m)
            {
                size = static_cast<long>(m.Size());
                for (auto it = m.cbegin(); it != m.cend(); ++it) els.push_back(J::array({Codes(it->first), Look(it->second, x)}));
                size_t k = 0;
                for (auto& e : m) { if (k >= els.size() || els[k][0] != Codes(e.first)) { x = "iteration"; break; } ++k; }
            });
            c.push_back(els); n.push_back(size);
        }
        if (!Deleted.empty()) x = "delete function called by a reading";
        ev["s"] = s; ev["c"] = c; ev["n"] = n; ev["live"] = live; ev["x"] = x;
        emit(ev);
    }
    Deleted = J::array();
}

int main(int argc, char** argv)
{
    if (argc < 3) return 3;
    int from = 0, only = -1;
    unsigned seed = 1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        if (a == "--from") from = std::atoi(argv[i + 1]); else if (a == "--only") only = std::atoi(argv[i + 1]);
        else if (a == "--seed") seed = static_cast<unsigned>(std::atoi(argv[i + 1]));
    }
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    std::signal(SIGALRM, OnAlarm);
    // the library explains readings under a wrong type on the error stream; a crash report does not go there
    struct Nothing : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    std::cerr.rdbuf(new Nothing);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i)
    {
        if (i < from || (only >= 0 && i != only)) continue;
        const J script = J::parse(line);
        alarm(120);
        RunScript(script, i, out);
        long grow = Obj::Live > 0 ? Obj::Live : 0;
        if ((i % 8) == static_cast<int>(seed % 8) || only >= 0)
        {
            long d[3];
            for (int k = 0; k < 3; ++k) { const long b = static_cast<long>(HEAP_BYTES()); RunScript(script, i, nullptr); d[k] = static_cast<long>(HEAP_BYTES()) - b; }
            if (d[1] > 0 && d[2] > 0) grow = std::min(d[1], d[2]);
        }
        Obj::Live = 0;
        alarm(0);
        std::fprintf(out, "{\"e\":\"End\",\"i\":%d,\"grow\":%ld}\n", i, grow);
        std::fflush(out);
    }
    std::fprintf(out, "{\"e\":\"Eof\"}\n");
    std::fclose(out);
    return 0;
}
