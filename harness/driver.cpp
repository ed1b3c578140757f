// Conformance driver: executes scripts of API calls (produced by the TLA+ generator) against the real
// library and records one event per call: the call, its result, and the whole observable state after it.
// It judges nothing: TraceMVault.tla decides whether the recorded behaviour is one of the specification's.
//   driver SCRIPTS TRACE [--from K] [--only K] [--probe N] [--seed S]
// SCRIPTS: one JSON array of calls per line.  TRACE: ndjson, appended per line.
#include "ops.h"
#include <nlohmann/json.hpp>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <sys/personality.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#include <malloc.h>
#define HEAP_BYTES() mallinfo2().uordblks
#endif
using J = nlohmann::ordered_json;
using mvlt::VaultOperationResultCode;

long Cus::Live = 0;
static std::vector<TypeOps*> AllOps;
static TypeOps* Ops(const std::string& t)
{
    for (auto* o : AllOps) if (t == o->Name()) return o;
    std::fprintf(stderr, "driver: unknown type %s\n", t.c_str());
    std::exit(96);      // the library showed a type that was never stored
}
static std::string TypeName(const std::type_index& t)
{
    for (auto* o : AllOps) if (o->Type() == t) return o->Name();
    return t == std::type_index(typeid(void)) ? "void" : "other";
}
static const char* CodeName(VaultOperationResultCode c)
{
    using C = VaultOperationResultCode;
    switch (c)
    {
    case C::OtherParentVaultNotValid: return "OtherParentVaultNotValid";
    case C::SameVaultRecordSet: return "SameVaultRecordSet";
    case C::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda: return "TryToAddUniqueKeyInNonEmptyVaultWithoutLambda";
    case C::DuplicateKey: return "DuplicateKey";
    case C::UniqueKey: return "UniqueKey";
    case C::RecordAlredyInSet: return "RecordAlredyInSet";
    case C::ParentVaultNotMatch: return "ParentVaultNotMatch";
    case C::ParentVaultNotValid: return "ParentVaultNotValid";
    case C::DataRecordNotValid: return "DataRecordNotValid";
    case C::WrongKey: return "WrongKey";
    case C::WrongType: return "WrongType";
    case C::Idle: return "Idle";
    case C::WrongValue: return "WrongValue";
    case C::UniqueKeyValueAlredyInSet: return "UniqueKeyValueAlredyInSet";
    case C::Success: return "Success";
    }
    return "?";
}

#ifdef CONC_DRIVER
static const int NV = 3, NS = 6, NR = 6;
// The harness's own calls: neither scheduled nor tracked
struct Calm { bool o; Calm() : o(sim::IsMuted()) { sim::Mute(true); } ~Calm() { sim::Mute(o); } };
#else
static const int NV = 3, NS = 4, NR = 6;
#endif

struct World
{
    std::unique_ptr<Vault> V[NV + 1];
    std::unique_ptr<VaultRecordSet> S[NS + 1];
    std::unique_ptr<VaultRecordRef> R[NR + 1];
    std::map<std::string, int> Ids;
    int NextId = 1;
    int Salt = 0;
    bool ByKey = false;
    World() { for (int i = 1; i <= NR; ++i) R[i].reset(new VaultRecordRef()); }

    Host H(const J& h)
    {
        Host x;
        if (h[0] == "v") x.V = V[h[1].get<int>()].get(); else x.S = S[h[1].get<int>()].get();
        return x;
    }
    int IdOf(const VaultRecordRef& r)
    {
#ifdef CONC_DRIVER
        // a record is known by the value of its key I, which nobody changes; 0: gone (or was never there)
        Calm c;
        if (ByKey)
        {
            int x = -1;
            const VaultOperationResult res = Ops("int")->GetData(r, "I", 0, x);
            return res.IsOperationSuccess ? x + 1 : res.ResultCode == VaultOperationResultCode::DataRecordNotValid ? 0 : 11;
        }
#endif
        const std::string a = r.GetRecordUniqueId();
        if (a == "null") return 0;
        auto it = Ids.find(a);
        return it == Ids.end() ? -1 : it->second;
    }
    int VaultOfAddr(const std::string& a)
    {
        for (int i = 1; i <= NV; ++i)
        {
            if (!V[i]) continue;
            std::ostringstream o; o << static_cast<const void*>(V[i].get());
            if (o.str() == a) return i;
        }
        return -1;
    }
};

static int CellIdx(const std::string& t, const std::string& cell)
{
    TypeOps* o = Ops(t);
    for (int i = 0; i < o->DomSize(); ++i) if (o->Str(i) == cell) return i;
    return 99;
}
static int JsonIdx(const std::string& t, const J& cell)
{
    TypeOps* o = Ops(t);
    const bool quoted = t == "str" || t == "cus";
    if (quoted != cell.is_string()) return 98;
    for (int i = 0; i < o->DomSize(); ++i)
    {
        if (quoted ? cell.get<std::string>() == o->Str(i) : J::parse(o->Str(i)) == cell) return i;
    }
    return 99;
}

struct Schema { std::vector<std::string> Names, Types; std::vector<bool> U; std::vector<int> D; };
template <class X> Schema SchemaOf(const X& x, Host h, int salt)
{
    Schema s;
    s.Names = x.GetKeys();
    std::vector<std::string> uk = x.GetUniqueKeys();
    std::set<std::string> us(uk.begin(), uk.end());
    if (us.size() != uk.size()) us.insert("duplicate");
    for (const auto& k : s.Names)
    {
        std::type_index ti = typeid(void);
        const bool has = x.GetKeyType(k, ti) && x.IsKeyExist(k);
        const std::string t = has ? TypeName(ti) : "void";
        s.Types.push_back(t);
        s.U.push_back(us.erase(k) != 0);
        int d = -3;
        if (t != "void" && t != "other")
        {
            TypeOps* o = Ops(t);
            int out = -1;
            const int in = salt % o->DomSize();
            VaultOperationResult r = o->GetKeyValue(h, k, in, out);
            if (r.IsOperationSuccess && r.ResultCode == VaultOperationResultCode::Success) d = out;
            else if (r.ResultCode == VaultOperationResultCode::UniqueKey && !r.IsOperationSuccess && out == in) d = -1;
        }
        s.D.push_back(d);
    }
    for (const auto& k : us) { s.Names.push_back(k); s.Types.push_back("void"); s.U.push_back(true); s.D.push_back(-4); }
#ifndef CONC_DRIVER
    // no other key shows anywhere
    static const std::vector<std::string> others{"A", "B", "C", "D", "E", "nope", ""};
    for (const auto& k : others)
    {
        std::type_index ti = typeid(void);
        int out = 0;
        if (std::find(s.Names.begin(), s.Names.end(), k) != s.Names.end()) continue;
        if (x.IsKeyExist(k) || x.GetKeyType(k, ti) || (salt % 5 == 0 && Ops("int")->GetKeyValue(h, k, 0, out).IsOperationSuccess))
        { s.Names.push_back(k); s.Types.push_back("void"); s.U.push_back(true); s.D.push_back(-5); }
    }
#endif
    return s;
}
static J SchemaJson(const Schema& s)
{
    J a = J::array();
    for (size_t i = 0; i < s.Names.size(); ++i)
    {
        // the default of a unique key cannot be read; it is T{} by definition
        int d = s.D[i] == -1 && s.U[i] ? (s.Types[i] == "int" || s.Types[i] == "dbl" ? 1 : 0) : s.U[i] ? -5 : s.D[i];
        a.push_back({{"k", s.Names[i]}, {"t", s.Types[i]}, {"u", bool(s.U[i])}, {"d", d}});
    }
    return a;
}
static J RowOf(const Schema& s, const J& obj)
{
    J row = J::array();
    size_t i = 0;
    if (!obj.is_object()) return J::array({97});
    for (auto it = obj.begin(); it != obj.end(); ++it, ++i)
    {
        if (i >= s.Names.size() || it.key() != s.Names[i] || s.Types[i] == "void" || s.Types[i] == "other") { row.push_back(96); continue; }
        row.push_back(JsonIdx(s.Types[i], it.value()));
    }
    return row;
}
static J RowOfStrings(const Schema& s, const std::vector<std::pair<std::string, std::string>>& r)
{
    J row = J::array();
    for (size_t i = 0; i < r.size(); ++i)
    {
        if (i >= s.Names.size() || r[i].first != s.Names[i] || s.Types[i] == "void" || s.Types[i] == "other") { row.push_back(96); continue; }
        row.push_back(CellIdx(s.Types[i], r[i].second));
    }
    return row;
}

static std::vector<std::string> ResultNotes;
// The whole observable state
static J View(World& w)
{
    J view, recs = J::array(), x = J::array();
    std::map<std::string, J> rows;           // address -> row as shown by its vault
    std::map<std::string, int> owner;
    J vs = J::array(), vsz = J::array(), ssz = J::array(), es = J::array();
    std::vector<std::pair<std::string, int>> order;
    for (int i = 1; i <= NV; ++i)
    {
        if (!w.V[i]) { vs.push_back({{"on", false}, {"keys", J::array()}}); vsz.push_back(0); es.push_back(J::array()); continue; }
        J errs = J::array();
        for (const auto& e : w.V[i]->GetErrorsInLastReadedFile()) errs.push_back(J::array({e.first, e.second}));
        es.push_back(errs);
        Host h; h.V = w.V[i].get();
        Schema sc = SchemaOf(*w.V[i], h, w.Salt);
        vs.push_back({{"on", true}, {"keys", SchemaJson(sc)}});
        vsz.push_back(w.V[i]->Size());
        J js = J::parse(w.V[i]->ToJson(false, 2, false, "", false), nullptr, false);
        if (js.is_discarded() || !js.is_object()) { x.push_back("json of vault " + std::to_string(i)); continue; }
        for (auto it = js.begin(); it != js.end(); ++it)
        {
            if (owner.count(it.key())) x.push_back("record in two vaults");
            owner[it.key()] = i;
            rows[it.key()] = RowOf(sc, it.value());
            order.emplace_back(it.key(), i);
        }
    }
#ifdef CONC_DRIVER
    std::sort(order.begin(), order.end(), [&](const std::pair<std::string, int>& a, const std::pair<std::string, int>& b)
    { return std::make_pair(a.second, rows[a.first].dump()) < std::make_pair(b.second, rows[b.first].dump()); });
#endif
    for (auto it = w.Ids.begin(); it != w.Ids.end();) { if (owner.count(it->first)) ++it; else it = w.Ids.erase(it); }
    for (auto& o : order)
    {
        auto it = w.Ids.find(o.first);
        if (it == w.Ids.end()) it = w.Ids.emplace(o.first, w.NextId++).first;
        recs.push_back(J::array({it->second, o.second, rows[o.first]}));
    }
    J ss = J::array();
    for (int i = 1; i <= NS; ++i)
    {
        if (!w.S[i]) { ss.push_back({{"on", false}, {"p", 0}, {"m", J::array()}}); ssz.push_back(0); continue; }
        VaultRecordSet& s = *w.S[i];
        int p = 0;
        if (s.GetIsParentVaultValid()) p = w.VaultOfAddr(s.GetParentVaultUniqueId());
        else if (s.GetParentVaultUniqueId() != "null") p = -2;
        J m = J::array();
        Host h; h.S = &s;
        Schema sc = SchemaOf(s, h, w.Salt);
        J js = J::parse(s.ToJson(false, 2, false, "", false), nullptr, false);
        if (js.is_discarded() || !js.is_object()) x.push_back("json of set " + std::to_string(i));
        else for (auto it = js.begin(); it != js.end(); ++it)
        {
            auto id = w.Ids.find(it.key());
            if (id == w.Ids.end()) { x.push_back("set shows a record that does not exist"); m.push_back(-1); continue; }
            m.push_back(id->second);
            J row = RowOf(sc, it.value());
            if (row != rows[it.key()]) x.push_back("set and vault show different values");
        }
#ifdef CONC_DRIVER
        std::sort(m.begin(), m.end(), [](const J& a, const J& b) { return a.get<int>() < b.get<int>(); });
#endif
        ss.push_back({{"on", true}, {"p", p}, {"m", m}});
        ssz.push_back(s.Size());
    }
    J rs = J::array();
    for (int i = 1; i <= NR; ++i)
    {
        int id = w.IdOf(*w.R[i]);
        if ((id != 0) != w.R[i]->IsValid()) x.push_back("IsValid of a ref");
        rs.push_back(id);
    }
    for (const auto& n : ResultNotes) x.push_back(n);
    ResultNotes.clear();
    view["v"] = vs; view["es"] = es; view["s"] = ss; view["r"] = rs; view["recs"] = recs; view["vsz"] = vsz; view["ssz"] = ssz; view["x"] = x;
    return view;
}

struct CoutCapture
{
    std::ostringstream O; std::streambuf* Old;
    CoutCapture() : Old(std::cout.rdbuf(O.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(Old); }
};

// The text of a cell of a row that has no such value (a record that is gone, or without that key) is blank: -1.
using CellType = std::function<TypeOps*(size_t, size_t)>;

// Decodes the table that Print writes, with or without record ids.  Returns false when it is not such a table.
static bool ParseTable(World& w, const std::string& text, const std::vector<std::string>& cols, const CellType& typeOf, bool ids, J& seq, J& rows, J& total)
{
    size_t nl = text.find('\n');
    if (nl == std::string::npos || text[0] != '+') return false;
    std::vector<size_t> width;
    { // +---+----+ : dashes between pluses = width + 2
        size_t n = 0;
        for (size_t i = 1; i < nl; ++i) { if (text[i] == '+') { width.push_back(n); n = 0; } else if (text[i] == '-') ++n; else return false; }
    }
    if (width.size() != cols.size()) return false;
    size_t p = nl + 1;
    if (text[p++] != '|') return false;
    for (size_t c = 0; c < cols.size(); ++c)
    {
        std::string e = " " + cols[c];
        if (width[c] < 2 || cols[c].size() > width[c] - 2) return false;
        e += std::string(width[c] - 2 - cols[c].size(), ' ') + " |";
        if (text.compare(p, e.size(), e) != 0) return false;
        p += e.size();
    }
    if (text[p++] != '\n') return false;
    p = text.find('\n', p);
    if (p == std::string::npos) return false;
    ++p;
    size_t r = 0;
    while (p < text.size() && text[p] == '|')
    {
        ++p;
        J row = J::array();
        for (size_t c = 0; c < cols.size(); ++c)
        {
            TypeOps* o = typeOf(r, c);
            bool found = false;
            for (int i = o ? 0 : -1; i < (o ? o->DomSize() : 0) && !found; ++i)
            {
                const std::string v = o ? o->Str(i) : "";
                if (v.size() > width[c] - 2) continue;
                const std::string e = " " + v + std::string(width[c] - 2 - v.size(), ' ') + " |";
                if (text.compare(p, e.size(), e) == 0) { row.push_back(i); p += e.size(); found = true; }
            }
            if (!found) return false;
        }
        size_t e = text.find('\n', p);
        if (e == std::string::npos || (ids ? text[p] != ' ' : e != p)) return false;
        if (ids)
        {
            const std::string id = text.substr(p + 1, e - p - 1);
            auto it = w.Ids.find(id);
            seq.push_back(id == "null" ? 0 : it == w.Ids.end() ? -1 : it->second);
        }
        rows.push_back(row);
        p = e + 1;
        ++r;
    }
    if (p >= text.size() || (text[p] != '+' && text[p] != '$')) return false;
    p = text.find('\n', p);
    int n = -1;
    if (p == std::string::npos || std::sscanf(text.c_str() + p + 1, " (%d records)", &n) != 1) return false;
    total = n;
    return true;
}

static J ProbeHost(World& w, const std::string& hk, int n)
{
    J pb;
    Host h;
    if (hk == "v") h.V = w.V[n].get(); else h.S = w.S[n].get();
    pb["h"] = J::array({hk, n});
    Schema sc = h.V ? SchemaOf(*h.V, h, w.Salt + 1) : SchemaOf(*h.S, h, w.Salt + 1);
    pb["keys"] = SchemaJson(sc);
    pb["sz"] = h.V ? h.V->Size() : h.S->Size();
    J asc = J::array(), desc = J::array(), gr = J::array();
    auto ids = [&](const std::vector<VaultRecordRef>& v) { J a = J::array(); for (const auto& r : v) a.push_back(w.IdOf(r)); return a; };
    for (size_t i = 0; i < sc.Names.size(); ++i)
    {
        const std::string& k = sc.Names[i];
        asc.push_back(ids(h.V ? h.V->GetSortedRecords(k) : h.S->GetSortedRecords(k)));
        desc.push_back(ids(h.V ? h.V->GetSortedRecords(k, true) : h.S->GetSortedRecords(k, true)));
        J per = J::array();
        if (sc.Types[i] != "void" && sc.Types[i] != "other")
        {
            TypeOps* o = Ops(sc.Types[i]);
            for (int x = 0; x < o->DomSize(); ++x)
            {
                std::vector<VaultRecordRef> v;
                VaultOperationResult r = o->GetRecords(h, k, x, v, std::nullopt);
                J a = ids(v);
                if (r.IsOperationSuccess != !v.empty()) a.push_back(-7);
                per.push_back(a);
            }
        }
        gr.push_back(per);
    }
    pb["asc"] = asc; pb["desc"] = desc; pb["gr"] = gr;
    // range scans of the ordered index: the values found by >= x for a few x
    J strs = J::array();
    for (const auto& r : h.V ? h.V->ToStrings() : h.S->ToStrings()) strs.push_back(RowOfStrings(sc, r));
    pb["strs"] = strs;
    const bool fmt = (w.Salt & 1) != 0, arr = (w.Salt & 2) != 0;
    const std::string tpl = (w.Salt & 4) ? "Record" : "R\"\n";
    const std::string text = h.V ? h.V->ToJson(fmt, static_cast<size_t>(w.Salt % 4), true, tpl, arr) : h.S->ToJson(fmt, static_cast<size_t>(w.Salt % 4), true, tpl, arr);
    J js = J::parse(text, nullptr, false);
    J rows = J::array(), names = J::array();
    bool good = !js.is_discarded() && (arr ? js.is_array() : js.is_object());
    // a set without a vault shows an empty document of either kind
    if (h.S && !h.S->GetIsParentVaultValid() && (text == "{}" || text == "[]")) good = true;
    if (good && arr) for (auto& e : js) rows.push_back(RowOf(sc, e));
    if (good && !arr) for (auto it = js.begin(); it != js.end(); ++it)
    {
        rows.push_back(RowOf(sc, it.value()));
        names.push_back(it.key().compare(0, tpl.size(), tpl) == 0 && it.key().size() > tpl.size() ? std::atoi(it.key().c_str() + tpl.size()) : -1);
    }
    pb["jok"] = good; pb["jarr"] = arr; pb["jrows"] = rows; pb["jn"] = names;
    return pb;
}
static J ProbeRef(World& w, int n)
{
    const VaultRecordRef& r = *w.R[n];
    J pb;
    pb["r"] = n;
    pb["val"] = r.IsValid();
    J keys = J::array(), g = J::array(), gs = J::array(), st = J::array(), js = J::array(), pr = J::array();
    std::vector<std::string> names = r.GetKeys();
    // types come from the vault of the record; the driver finds it by the record id
    Schema sc;
    for (int i = 1; i <= NV && r.IsValid(); ++i)
    {
        if (!w.V[i]) continue;
        Host h; h.V = w.V[i].get();
        J all = J::parse(w.V[i]->ToJson(false, 2, false, "", false), nullptr, false);
        if (all.is_object() && all.contains(r.GetRecordUniqueId())) { sc = SchemaOf(*w.V[i], h, w.Salt); break; }
    }
    for (size_t i = 0; i < names.size(); ++i)
    {
        keys.push_back(names[i]);
        if (!r.IsKeyExist(names[i])) keys.push_back("?");
        const std::string t = i < sc.Types.size() && sc.Names[i] == names[i] ? sc.Types[i] : "void";
        if (t == "void" || t == "other") { g.push_back(95); gs.push_back(95); continue; }
        TypeOps* o = Ops(t);
        int out = -1;
        VaultOperationResult res = o->GetData(r, names[i], (w.Salt + 1) % o->DomSize(), out);
        g.push_back(res.IsOperationSuccess ? out : 94);
        std::string s = "?";
        res = r.GetDataAsString(names[i], s);
        gs.push_back(res.IsOperationSuccess ? CellIdx(t, s) : 94);
    }
    for (const char* k : {"A", "B", "C", "D", "E", "nope", ""})
    {
        std::string text = "?"; int out = 0;
        if (std::find(names.begin(), names.end(), k) == names.end())
            if (r.IsKeyExist(k) || r.GetDataAsString(k, text).IsOperationSuccess || text != "?" || Ops("int")->GetData(r, k, 0, out).IsOperationSuccess) keys.push_back("?");
    }
    st = RowOfStrings(sc, r.ToStrings());
    J parsed = J::parse(r.ToJson((w.Salt & 1) != 0, static_cast<size_t>(w.Salt % 3)), nullptr, false);
    if (parsed.is_discarded()) js.push_back(93); else js = RowOf(sc, parsed);
    { // PrintRecord: "Vault record 0x..:\n" then "\tkey = value\n" in any order
        CoutCapture c;
        r.PrintRecord();
        std::string text = c.O.str();
        if (!r.IsValid()) { if (text != "VaultRecordRef not valid!\n") pr.push_back(92); }
        else
        {
            const std::string head = "Vault record " + r.GetRecordUniqueId() + ":\n";
            size_t total = head.size();
            bool good = text.compare(0, head.size(), head) == 0;
            for (size_t i = 0; i < names.size() && good; ++i)
            {
                int found = 91;
                if (i < sc.Types.size() && sc.Types[i] != "void" && sc.Types[i] != "other")
                {
                    TypeOps* o = Ops(sc.Types[i]);
                    size_t best = 0;        // the longest one: a text may start with a line break
                    for (int x = 0; x < o->DomSize(); ++x)
                    {
                        const std::string line = "\t" + names[i] + " = " + o->Str(x) + "\n";
                        const size_t at = text.find(line);
                        if (at != std::string::npos && (text[at - 1] == '\n') && line.size() > best) { found = x; best = line.size(); }
                    }
                    total += best;
                }
                pr.push_back(found);
            }
            if (!good || total != text.size()) pr.push_back(90);
        }
    }
    pb["keys"] = keys; pb["g"] = g; pb["gs"] = gs; pb["st"] = st; pb["js"] = js; pb["pr"] = pr;
    return pb;
}

static bool RunOp(World& w, const J& op, J& ev);
// A user callback was called for the n-th time by the call op: it may make calls of its own
static void Nested(World& w, const J& op, int n);
#ifndef CONC_DRIVER
static void Nested(World&, const J&, int) {}
#endif
// Key names that tell their types (concurrent programs), or the types that the keys have in the vault, set or ref that is read
static std::map<std::string, std::string> TypesNow;
static void TypesOfHost(World& w, const J& h)
{
    (void)w; (void)h;
#ifndef CONC_DRIVER
    Host x = w.H(h);
    Schema sc = x.V ? SchemaOf(*x.V, x, 0) : SchemaOf(*x.S, x, 0);
    TypesNow.clear();
    for (size_t i = 0; i < sc.Names.size(); ++i) if (sc.Types[i] != "void" && sc.Types[i] != "other") TypesNow[sc.Names[i]] = sc.Types[i];
#endif
}
static TypeOps* TypeInRef(const VaultRecordRef& r, const std::string& k)
{
    for (const char* t : {"int", "str", "cus", "dbl", "u64", "bool"}) { int n = -1; if (Ops(t)->GetData(r, k, 0, n).IsOperationSuccess) return Ops(t); }
    return nullptr;
}
static void TypesOfRef(const VaultRecordRef& r)
{
    (void)r;
#ifndef CONC_DRIVER
    TypesNow.clear();
    for (const auto& k : r.GetKeys())
        for (const char* t : {"int", "str", "cus", "dbl", "u64", "bool"}) { int n = -1; if (Ops(t)->GetData(r, k, 0, n).IsOperationSuccess) TypesNow[k] = t; }
#endif
}
static std::string TypeOfName(const std::string& k)
{
#ifndef CONC_DRIVER
    auto it = TypesNow.find(k);
    return it == TypesNow.end() ? "void" : it->second;
#endif
    return k == "I" || k == "K" || k == "W" ? "int" : k == "U" ? "cus" : k == "S" ? "str" : k == "N" ? "dbl" : "void";
}
static J NamedRow(const std::vector<std::pair<std::string, std::string>>& r)
{
    J row = J::array();
    for (const auto& c : r) { const std::string t = TypeOfName(c.first); row.push_back(J::array({c.first, t == "void" ? 96 : CellIdx(t, c.second)})); }
    return row;
}
static J NamedRowJ(const J& obj)
{
    J row = J::array();
    if (!obj.is_object()) return J::array({J::array({"?", 97})});
    for (auto it = obj.begin(); it != obj.end(); ++it) { const std::string t = TypeOfName(it.key()); row.push_back(J::array({it.key(), t == "void" ? 96 : JsonIdx(t, it.value())})); }
    return row;
}

static std::optional<std::size_t> Amt(const J& op)
{
    const int a = op.at("amt").get<int>();
    if (a < 0) return std::nullopt;
    return static_cast<std::size_t>(a);
}
static Pred MakePred(const J& pr, VaultRecordRef* keep)
{
    if (pr.empty()) return [keep](const VaultRecordRef& r) { if (keep) *keep = r; return true; };
    const std::string k = pr[0].get<std::string>(), t = pr[1].get<std::string>();
    const Kind kind = KindOf(pr[2].get<std::string>());
    const int n = pr[3].get<int>();
    return [=](const VaultRecordRef& r)
    {
        if (keep) *keep = r;
        TypeOps* o = Ops(t);
        int x = -1;
        if (!o->GetData(r, k, 0, x).IsOperationSuccess) return false;
        return o->Compare(kind, x, n);
    };
}
// The functions keep their own copies; trees are built from temporaries and copies alike
static AnyReq Tree(const J& t)
{
    const std::string x = t.at("x").get<std::string>();
    if (x == "l")
    {
        const J& pr = t.at("pr");
        Pred p = MakePred(pr, nullptr);
        AnyReq leaf = Ops(t.at("t").get<std::string>())->Leaf(KindOf(t.at("kind").get<std::string>()), t.at("k").get<std::string>(), t.at("n").get<int>(), pr.empty() ? nullptr : &p);
        AnyReq copy = leaf;
        return copy;
    }
    AnyReq l = Tree(t.at("l")), r = Tree(t.at("r"));
    AnyReq both = x == "a" ? AndReq(l, r) : OrReq(l, r);
    AnyReq other = both;
    both = l;
    return other;
}

// A file of the calling thread
struct TempFile
{
    std::string Name;
    TempFile() { static thread_local char here; char b[64]; std::snprintf(b, sizeof b, "f%d_%p.csv", static_cast<int>(getpid()), static_cast<void*>(&here)); Name = b; }
    ~TempFile() { std::remove(Name.c_str()); }
};
static std::string Quoted(const std::string& t) { std::string q = "\""; for (char c : t) { if (c == '"') q += c; q += c; } return q + '"'; }
// The rows of a CSV file (RFC 4180); a row with the only field "?" where the file is no such text
static std::vector<std::vector<std::string>> CsvRows(const std::string& text, char sep)
{
    std::vector<std::vector<std::string>> rows;
    for (size_t i = 0; i < text.size();)
    {
        std::vector<std::string> row;
        for (bool more = text[i] != '\r' && text[i] != '\n'; more;)
        {
            std::string f;
            if (i < text.size() && text[i] == '"')
            {
                for (++i;; ++i)
                {
                    if (i >= text.size()) return {{"?"}};
                    if (text[i] == '"') { if (i + 1 < text.size() && text[i + 1] == '"') ++i; else break; }
                    f += text[i];
                }
                ++i;
            }
            else while (i < text.size() && text[i] != sep && text[i] != '\r' && text[i] != '\n') f += text[i++];
            row.push_back(f);
            more = i < text.size() && text[i] == sep;
            if (more) ++i;
        }
        if (i < text.size() && text[i] == '\r') ++i;
        if (i < text.size() && text[i] == '\n') ++i; else if (i < text.size()) return {{"?"}};
        rows.push_back(row);
    }
    return rows;
}

static bool On(World& w, const J& h)
{
    return h[0] == "v" ? static_cast<bool>(w.V[h[1].get<int>()]) : static_cast<bool>(w.S[h[1].get<int>()]);
}
// The objects a call needs exist (Pre in MVault.tla); other calls are recorded as Nop
static bool Possible(World& w, const J& op)
{
    const std::string o = op.at("o").get<std::string>();
    auto v = [&](const char* f) -> bool { return static_cast<bool>(w.V[op.at(f).get<int>()]); };
    auto s = [&](const char* f) -> bool { return static_cast<bool>(w.S[op.at(f).get<int>()]); };
    if (o == "VNew") return !v("v");
    if (o == "VCopyC" || o == "VMoveC") return !v("v") && v("w");
    if (o == "VCopyA" || o == "VMoveA") return v("v") && v("w");
    if (o == "SNew") return !s("s");
    if (o == "SCopyC" || o == "SMoveC") return !s("s") && s("q");
    if (o == "SCopyA" || o == "SMoveA" || o == "SAlg" || o == "SEq") return s("s") && s("q");
    if (o == "SAlgF") return s("s") && s("q") && s("w");
    if (op.contains("h") && !On(w, op.at("h"))) return false;
    if (op.contains("v") && !v("v")) return false;
    if (op.contains("s") && !s("s")) return false;
    return true;
}

// What is wrong with the texts and comparisons of results
static void JudgeResult(const VaultOperationResult& r)
{
#ifndef CONC_DRIVER
    static std::map<std::string, VaultOperationResultCode> texts;
    auto bad = [](const char* m) { ResultNotes.push_back(m); };
    const std::string t = r.ResultCodeString();
    if (t.empty()) bad("a result code without text");
    if (texts.emplace(t, r.ResultCode).first->second != r.ResultCode) bad("two result codes with one text");
    std::string shown;
    { CoutCapture c; r.Print(); shown = c.O.str(); }
    for (const std::string& part : {t, r.Key, std::string(r.SavedType.name()), std::string(r.RequestedType.name()), std::string(r.IsOperationSuccess ? "Success" : "Failed")})
        if (shown.find(part) == std::string::npos) bad("printed result");
    VaultOperationResult q = r;
    if (!(q == r)) bad("equal results");
    q.IsOperationSuccess = !q.IsOperationSuccess;
    if (q == r) bad("results with different success");
    q = r; q.Key += "x";
    if (q == r) bad("results with different keys");
    q = r; q.RequestedType = typeid(World);
    if (q == r) bad("results with different requested types");
    q = r; q.SavedType = typeid(World);
    if (q == r) bad("results with different saved types");
    q = r; q.ResultCode = r.ResultCode == VaultOperationResultCode::WrongKey ? VaultOperationResultCode::WrongType : VaultOperationResultCode::WrongKey;
    if (q == r) bad("results with different codes");
#endif
}
static void PutResult(J& ev, const VaultOperationResult& r)
{
    JudgeResult(r);
    ev["ok"] = r.IsOperationSuccess;
    ev["code"] = CodeName(r.ResultCode);
    ev["key"] = r.Key;
    ev["rt"] = TypeName(r.RequestedType);
    ev["sv"] = TypeName(r.SavedType);
}

static bool RunOp(World& w, const J& op, J& ev)
{
    const std::string o = op.at("o").get<std::string>();
    auto S = [&](const char* f) { return op.at(f).get<std::string>(); };
    auto N = [&](const char* f) { return op.at(f).get<int>(); };
    auto V = [&](const char* f) -> Vault& { return *w.V[op.at(f).get<int>()]; };
    auto Set = [&](const char* f) -> VaultRecordSet& { return *w.S[op.at(f).get<int>()]; };
    auto Ref = [&](const char* f) -> VaultRecordRef& { return *w.R[op.at(f).get<int>()]; };
    auto B = [&](bool b) { ev["ok"] = b; };
    auto ids = [&](const std::vector<VaultRecordRef>& v) { J a = J::array(); for (const auto& r : v) a.push_back(w.IdOf(r)); return a; };
    auto params = [&](const J& ps)
    {
        std::vector<std::pair<std::string, VaultParamInput>> v;
        for (const auto& p : ps) v.emplace_back(p.at("k").get<std::string>(), Ops(p.at("t").get<std::string>())->Param(p.at("n").get<int>()));
        return v;
    };
    int calls = 0;
    if (o == "Nop") B(true);
    else if (o == "Size") { Host h = w.H(op.at("h")); ev["tot"] = h.V ? h.V->Size() : h.S->Size(); B(true); }
    else if (o == "Keys") { Host h = w.H(op.at("h")); ev["names"] = h.V ? h.V->GetKeys() : h.S->GetKeys(); B(true); }
    else if (o == "UKeys") { Host h = w.H(op.at("h")); ev["names"] = h.V ? h.V->GetUniqueKeys() : h.S->GetUniqueKeys(); B(true); }
    else if (o == "IsKey") { Host h = w.H(op.at("h")); B(h.V ? h.V->IsKeyExist(S("k")) : h.S->IsKeyExist(S("k"))); }
    else if (o == "KeyType")
    {
        Host h = w.H(op.at("h"));
        std::type_index ti = typeid(void);
        B(h.V ? h.V->GetKeyType(S("k"), ti) : h.S->GetKeyType(S("k"), ti));
        ev["code"] = TypeName(ti);
    }
    else if (o == "Strs")
    {
        Host h = w.H(op.at("h"));
        auto v = h.V ? h.V->ToStrings() : h.S->ToStrings();
        TypesOfHost(w, op.at("h"));
        J rows = J::array();
        for (const auto& r : v) rows.push_back(NamedRow(r));
        ev["rows"] = rows; B(true);
    }
    else if (o == "Json")
    {
        Host h = w.H(op.at("h"));
        const std::string t = h.V ? h.V->ToJson(true, 2, true, "R", false) : h.S->ToJson(true, 2, true, "R", false);
        TypesOfHost(w, op.at("h"));
        J js = J::parse(t, nullptr, false), rows = J::array();
        if (js.is_object()) for (auto it = js.begin(); it != js.end(); ++it) rows.push_back(NamedRowJ(it.value()));
        else rows.push_back(NamedRowJ(js));
        ev["rows"] = rows; B(true);
    }
    else if (o == "RefStrs") { TypesOfRef(Ref("r")); ev["rows"] = J::array({NamedRow(Ref("r").ToStrings())}); B(true); }
    else if (o == "RefJson") { TypesOfRef(Ref("r")); ev["rows"] = J::array({NamedRowJ(J::parse(Ref("r").ToJson(true, 2), nullptr, false))}); B(true); }
    else if (o == "RefKeys") { ev["names"] = Ref("r").GetKeys(); B(true); }
    else if (o == "RefValid") B(Ref("r").IsValid());
    else if (o == "RefIsKey") B(Ref("r").IsKeyExist(S("k")));
    else if (o == "RefStr")
    {
        std::string t = "?";
        TypesOfRef(Ref("r"));
        PutResult(ev, Ref("r").GetDataAsString(S("k"), t));
        ev["rows"] = J::array();
        if (ev["ok"].get<bool>()) ev["rows"] = J::array({NamedRow({{S("k"), t}})});
    }
    else if (o == "RefPrint") { Ref("r").PrintRecord(); B(true); }
    else if (o == "PrintV") { Host h = w.H(op.at("h")); if (h.V) h.V->Print(true, 9, "K"); else h.S->Print(true, 9, "K"); B(true); }
    else if (o == "SParent") B(Set("s").GetIsParentVaultValid());
    else if (o == "VNew") { w.V[N("v")].reset(new Vault()); B(true); }
    else if (o == "VDel") { w.V[N("v")].reset(); B(true); }
    else if (o == "VCopyC") { w.V[N("v")].reset(new Vault(V("w"))); B(true); }
    else if (o == "VMoveC") { w.V[N("v")].reset(new Vault(std::move(V("w")))); B(true); }
    else if (o == "VCopyA")
    {
#ifdef CONC_DRIVER
        Vault& x = V("v"); x = V("w");
#else
        if (N("v") != N("w"))
        {   // the target's records go away: their addresses may be reused at once
            J js = J::parse(V("v").ToJson(false, 2, false, "", false), nullptr, false);
            V("v") = V("w");
            if (js.is_object()) for (auto it = js.begin(); it != js.end(); ++it) w.Ids.erase(it.key());
        }
        else { Vault& x = V("v"); x = V("w"); }
#endif
        B(true);
    }
    else if (o == "VMoveA") { V("v") = std::move(V("w")); B(true); }
    else if (o == "DropVault") { V("v").DropVault(); B(true); }
    else if (o == "DropData") { V("v").DropData(); B(true); }
    else if (o == "AddKey") B(Ops(S("t"))->AddKey(V("v"), S("k"), N("n")));
    else if (o == "AddUKey") PutResult(ev, Ops(S("t"))->AddUKey(V("v"), S("k")));
    else if (o == "AddUKeyF") PutResult(ev, Ops(S("t"))->AddUKeyF(V("v"), S("k"), op.at("vals").get<std::vector<int>>(), [&](std::size_t) { Nested(w, op, ++calls); }));
    else if (o == "UpdKey") PutResult(ev, Ops(S("t"))->UpdKey(V("v"), S("k"), N("n")));
    else if (o == "RemKey") B(V("v").RemoveKey(S("k")));
    else if (o == "GetKeyValue")
    {
        TypeOps* t = Ops(S("t"));
        int in = (w.Salt + 1) % t->DomSize(), out = -1;
        PutResult(ev, t->GetKeyValue(w.H(op.at("h")), S("k"), in, out));
        ev["oin"] = in; ev["out"] = out;
    }
    else if (o == "Create")
    {
        auto ps = params(op.at("ps"));
        if (N("r") == 0) PutResult(ev, V("v").CreateRecord(ps)); else PutResult(ev, V("v").CreateRecord(Ref("r"), ps));
    }
    else if (o == "Import")
    {
        const std::string mode = S("mode");
        const char sep = (w.Salt & 2) ? ';' : ',';
        TempFile file;
        std::vector<std::string> names;
        {
            std::ofstream f(file.Name, std::ios::binary);
            auto line = [&](const std::vector<std::string>& r) { for (size_t i = 0; i < r.size(); ++i) f << (i ? std::string(1, sep) : "") << Quoted(r[i]); f << "\r\n"; };
            for (const auto& c : op.at("cols")) names.push_back(c.at("k").get<std::string>());
            if (mode != "user") line(names);
            for (const auto& r : op.at("rows"))
            {
                std::vector<std::string> cells;
                for (size_t i = 0; i < r.size(); ++i) cells.push_back(r[i].get<int>() < 0 ? "?bad" : Ops(op.at("cols")[i].at("t").get<std::string>())->Str(r[i].get<int>()));
                line(cells);
            }
        }
        if (mode == "user") B(V("v").ReadFile(file.Name, sep, false, names));
        else if (mode == "hdr") B(V("v").ReadFile(file.Name, sep, true, {}));
        else B(V("v").ReadFile(file.Name, sep, [&](const std::vector<std::string>& k, std::vector<std::string>&) { if (k != names) ev["code"] = "names"; }));
#ifndef CONC_DRIVER
        J errs = J::array();
        for (const auto& e : V("v").GetErrorsInLastReadedFile()) errs.push_back(J::array({e.first, e.second}));
        ev["errs"] = errs;
#endif
    }
    else if (o == "Errs") { V("v").GetErrorsInLastReadedFile(); B(true); }
    else if (o == "Save")
    {
        Host h = w.H(op.at("h"));
        const char sep = (w.Salt & 2) ? ';' : ',';
        const bool hdr = op.at("hdr").get<bool>();
        const auto cols = op.at("cols").get<std::vector<std::string>>();
        TempFile file;
        const bool ok = h.V ? h.V->SaveToFile(file.Name, cols, std::string(1, sep), hdr) : h.S->SaveToFile(file.Name, cols, std::string(1, sep), hdr);
        B(ok);
        J rows = J::array(), head = J::array();
        if (ok)
        {
            std::ifstream f(file.Name, std::ios::binary);
            const std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            std::vector<std::vector<std::string>> all = CsvRows(text, sep);
            if (hdr && !all.empty()) { head = all[0]; all.erase(all.begin()); }
#ifdef CONC_DRIVER
            const std::vector<std::string> names = head.get<std::vector<std::string>>();
#else
            std::vector<std::string> names = cols, types;
            Schema sc = h.V ? SchemaOf(*h.V, h, 0) : SchemaOf(*h.S, h, 0);
            if (names.empty()) names = sc.Names;
            for (const auto& c : names) { types.push_back("void"); for (size_t i = 0; i < sc.Names.size(); ++i) if (sc.Names[i] == c) types.back() = sc.Types[i]; }
#endif
            for (const auto& r : all)
            {
                J row = J::array();
                for (size_t i = 0; i < r.size(); ++i)
                {
                    const std::string k = i < names.size() ? names[i] : "?";
#ifdef CONC_DRIVER
                    const std::string t = TypeOfName(k);
#else
                    const std::string t = i < types.size() ? types[i] : "void";
#endif
                    row.push_back(J::array({k, t == "void" ? 96 : CellIdx(t, r[i])}));
                }
                rows.push_back(row);
            }
        }
        ev["rows"] = rows; ev["names"] = head;
    }
    else if (o == "EraseRef")
    {
#ifndef CONC_DRIVER
        // now and then many refs denote the record that goes
        std::vector<VaultRecordRef> many(w.Salt % 6 == 0 ? 256 : 0, Ref("r"));
#endif
        B(V("v").EraseRecord(Ref("r")));
    }
    else if (o == "EraseKV") PutResult(ev, Ops(S("t"))->EraseKV(V("v"), S("k"), N("n")));
    else if (o == "EraseMany") PutResult(ev, Ops(S("t"))->EraseMany(V("v"), S("k"), N("n"), Amt(op)));
    else if (o == "SetData") PutResult(ev, Ops(S("t"))->SetData(Ref("r"), S("k"), N("n")));
    else if (o == "SetDataV") PutResult(ev, Ref("r").SetData(params(op.at("ps"))));
    else if (o == "GetData")
    {
        TypeOps* t = Ops(S("t"));
        int in = (w.Salt + 1) % t->DomSize(), out = -1;
        PutResult(ev, t->GetData(Ref("r"), S("k"), in, out));
        ev["oin"] = in; ev["out"] = out;
    }
    else if (o == "RefCopy")
    {
        if (w.Salt & 1) { VaultRecordRef tmp(Ref("q")); Ref("r") = tmp; } else { VaultRecordRef& x = Ref("r"); x = Ref("q"); }
        B(true);
    }
    else if (o == "RefMove")
    {
        if ((w.Salt & 1) && N("r") != N("q")) { VaultRecordRef tmp(std::move(Ref("q"))); Ref("r") = std::move(tmp); }
        else { VaultRecordRef& x = Ref("r"); x = std::move(Ref("q")); }
        B(true);
    }
    else if (o == "RefReset") { if (w.Salt & 1) Ref("r").Reset(); else w.R[N("r")].reset(new VaultRecordRef()); B(true); }
    else if (o == "RefEq")
    {
#ifdef CONC_DRIVER
        B((w.Salt & 1) ? Ref("r") == Ref("q") : !(Ref("r") != Ref("q")));
#else
        const bool eq = Ref("r") == Ref("q"), ne = Ref("r") != Ref("q");
        B(eq);
        if (eq == ne) ev["code"] = "!=";
#endif
    }
    else if (o == "GetRec") PutResult(ev, Ops(S("t"))->GetRecord(w.H(op.at("h")), S("k"), N("n"), Ref("r")));
    else if (o == "GetRecs")
    {
        std::vector<VaultRecordRef> v;
#ifndef CONC_DRIVER
        v.push_back(*w.R[1]); v.emplace_back();
#endif
        ev["pin"] = ids(v);
        PutResult(ev, Ops(S("t"))->GetRecords(w.H(op.at("h")), S("k"), N("n"), v, Amt(op)));
        ev["seq"] = ids(v);
    }
    else if (o == "Sorted")
    {
        Host h = w.H(op.at("h"));
        const bool rev = op.at("rev").get<bool>();
        auto a = Amt(op);
        std::vector<VaultRecordRef> v = a ? (h.V ? h.V->GetSortedRecords(S("k"), rev, *a) : h.S->GetSortedRecords(S("k"), rev, *a))
                                          : (h.V ? h.V->GetSortedRecords(S("k"), rev) : h.S->GetSortedRecords(S("k"), rev));
        ev["seq"] = ids(v); B(true);
    }
    else if (o == "SortBy")
    {
        Host h = w.H(op.at("h"));
        const bool rev = op.at("rev").get<bool>();
        const int stop = N("stop");
        auto a = Amt(op);
        std::vector<VaultRecordRef> v;
        J seq = J::array();
        auto f = [&](const VaultRecordRef& r) { v.push_back(r); seq.push_back(w.IdOf(r)); Nested(w, op, ++calls); return stop == 0 || static_cast<int>(v.size()) < stop; };
        if (a) { if (h.V) h.V->SortBy(S("k"), f, rev, *a); else h.S->SortBy(S("k"), f, rev, *a); }
        else { if (h.V) h.V->SortBy(S("k"), f, rev); else h.S->SortBy(S("k"), f, rev); }
        ev["seq"] = seq; B(true);
    }
    else if (o == "SortRef")
    {
        Host h = w.H(op.at("h"));
        const bool rev = op.at("rev").get<bool>();
        const size_t i = static_cast<size_t>(N("i"));
        bool got = false;
        if (w.Salt & 1)
        {
            auto v = h.V ? h.V->GetSortedRecords(S("k"), rev) : h.S->GetSortedRecords(S("k"), rev);
            if (v.size() >= i) { Ref("r") = v[i - 1]; got = true; }
        }
        else
        {
            size_t c = 0;
            auto f = [&](const VaultRecordRef& r) { if (++c == i) { Ref("r") = r; got = true; return false; } return true; };
            if (h.V) h.V->SortBy(S("k"), f, rev); else h.S->SortBy(S("k"), f, rev);
        }
        B(got);
    }
    else if (o == "Req")
    {
        const J& pr = op.at("pr");
        VaultRecordRef* keep = N("kr") == 0 ? nullptr : w.R[N("kr")].get();
        Pred p0 = MakePred(pr, keep);
        Pred p = op.contains("cb") ? Pred([&](const VaultRecordRef& r) { Nested(w, op, ++calls); return p0(r); }) : p0;
        PutResult(ev, Ops(S("t"))->Req(w.H(op.at("h")), KindOf(S("kind")), S("k"), N("n"), N("n2"), op.at("ib").get<bool>(), op.at("ie").get<bool>(),
            Amt(op), pr.empty() && !keep && !op.contains("cb") ? nullptr : &p, Set("s")));
    }
    else if (o == "ReqX")
    {
        Host h = w.H(op.at("h"));
        AnyReq r = Tree(op.at("tree"));
        PutResult(ev, h.V ? RunReq(*h.V, r, Set("s")) : RunReq(*h.S, r, Set("s")));
    }
    else if (o == "SAdd") PutResult(ev, Set("s").AddRecord(Ref("r")));
    else if (o == "SRem") B(Set("s").RemoveRecord(Ref("r")));
    else if (o == "SCheck") B(Set("s").CheckRecord(Ref("r")));
    else if (o == "SRemKV") PutResult(ev, Ops(S("t"))->SRemKV(Set("s"), S("k"), N("n")));
    else if (o == "SRemMany") PutResult(ev, Ops(S("t"))->SRemMany(Set("s"), S("k"), N("n"), Amt(op)));
    else if (o == "SClear") { Set("s").Clear(); B(true); }
    else if (o == "SReset") { Set("s").Reset(); B(true); }
    else if (o == "SNew") { w.S[N("s")].reset(new VaultRecordSet()); B(true); }
    else if (o == "SDel") { w.S[N("s")].reset(); B(true); }
    else if (o == "SCopyC") { w.S[N("s")].reset(new VaultRecordSet(Set("q"))); B(true); }
    else if (o == "SMoveC") { w.S[N("s")].reset(new VaultRecordSet(std::move(Set("q")))); B(true); }
    else if (o == "SCopyA") { VaultRecordSet& x = Set("s"); x = Set("q"); B(true); }
    else if (o == "SMoveA") { VaultRecordSet& x = Set("s"); x = std::move(Set("q")); B(true); }
    else if (o == "SAlg")
    {
        const std::string f = S("f");
        PutResult(ev, f == "Join" ? Set("s").Join(Set("q")) : f == "Exclude" ? Set("s").Exclude(Set("q")) : Set("s").Intersect(Set("q")));
    }
    else if (o == "SAlgF") PutResult(ev, S("f") == "Union" ? Union(Set("s"), Set("q"), Set("w")) : Intersection(Set("s"), Set("q"), Set("w")));
    else if (o == "SEq")
    {
#ifdef CONC_DRIVER
        B((w.Salt & 1) ? Set("s") == Set("q") : !(Set("s") != Set("q")));
#else
        const bool eq = Set("s") == Set("q");
        B(eq);
        if (eq == (Set("s") != Set("q"))) ev["code"] = "!=";
#endif
    }
    else if (o == "Print")
    {
        Host h = w.H(op.at("h"));
        const bool rev = op.at("rev").get<bool>();
        Schema sc = h.V ? SchemaOf(*h.V, h, 0) : SchemaOf(*h.S, h, 0);
        std::vector<std::string> cols, types;
        std::list<std::string> sel;
        for (const auto& c : op.at("cols")) sel.push_back(c.get<std::string>());
        if (sel.empty()) { cols = sc.Names; types = sc.Types; }
        else for (const auto& c : sel)
        {
            cols.push_back(c);
            for (size_t i = 0; i < sc.Names.size(); ++i) if (sc.Names[i] == c) types.push_back(sc.Types[i]);
        }
        if (types.size() != cols.size()) return false;       // an unknown column: not specified
        std::string text;
        {
            CoutCapture c;
            auto a = Amt(op);
            if (op.at("tab").get<bool>())
            {
                auto v = h.V ? h.V->GetSortedRecords(S("k"), rev) : h.S->GetSortedRecords(S("k"), rev);
                mvlt::PrintAsTable(v, true, a ? *a : static_cast<size_t>(-1), std::vector<std::string>(sel.begin(), sel.end()));
            }
            else if (h.V) h.V->Print(true, a ? *a : static_cast<size_t>(-1), S("k"), rev, sel);
            else h.S->Print(true, a ? *a : static_cast<size_t>(-1), S("k"), rev, sel);
            text = c.O.str();
        }
        J seq = J::array(), rows = J::array(), total = -1;
        const bool table = ParseTable(w, text, cols, [&](size_t, size_t c) { return Ops(types[c]); }, true, seq, rows, total);
        int n = -1;
        if (!table)
        {
            const size_t p = text.rfind(" (");
            if (p != std::string::npos) std::sscanf(text.c_str() + p, " (%d records)", &n);
            total = n;
        }
        B(table); ev["seq"] = seq; ev["rows"] = rows; ev["tot"] = total;
    }
#ifndef CONC_DRIVER
    else if (o == "Table")
    {
        // a table of refs of one's own choice: some may be invalid, or of other vaults
        std::vector<VaultRecordRef> refs;
        for (const auto& r : op.at("rs")) refs.push_back(*w.R[r.get<int>()]);
        std::vector<std::string> sel, cols;
        for (const auto& c : op.at("cols")) sel.push_back(c.get<std::string>());
        if (sel.empty() && !refs.front().IsValid()) return false;      // the columns are those of the first: not specified
        cols = sel.empty() ? refs.front().GetKeys() : sel;
        const bool ids = op.at("id").get<bool>();
        auto a = Amt(op);
        std::string text;
        {
            CoutCapture c;
            if (w.Salt & 1) mvlt::PrintAsTable(std::list<VaultRecordRef>(refs.begin(), refs.end()), ids, a ? *a : static_cast<size_t>(-1), sel);
            else mvlt::PrintAsTable(refs, ids, a ? *a : static_cast<size_t>(-1), sel);
            text = c.O.str();
        }
        auto typeOf = [&](size_t r, size_t c) -> TypeOps*
        {
            return r < refs.size() ? TypeInRef(refs[r], cols[c]) : nullptr;
        };
        J seq = J::array(), rows = J::array(), total = -1;
        const bool table = ParseTable(w, text, cols, typeOf, ids, seq, rows, total);
        B(table); ev["seq"] = seq; ev["rows"] = rows; ev["tot"] = total;
    }
#endif
    else { std::fprintf(stderr, "driver: unknown call %s\n", o.c_str()); std::exit(3); }
    return true;
}

#ifndef CONC_DRIVER
static void OnAlarm(int) { const char m[] = "driver: HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }

static void RunScript(const J& script, int index, FILE* out, int probe, unsigned seed)
{
    auto emit = [&](const J& e) { if (!out) return; std::string s = e.dump(-1, ' ', true); std::fwrite(s.data(), 1, s.size(), out); std::fputc('\n', out); std::fflush(out); };
    emit({{"e", "Begin"}, {"i", index}});
    {
        World w;
        int n = 0;
        const size_t len = script.size();
        for (const J& op0 : script)
        {
            ++n;
            w.Salt = static_cast<int>((seed * 31u + static_cast<unsigned>(index) * 7u + static_cast<unsigned>(n)) % 1024u);
            J op = op0;
            J ev = {{"e", "Op"}, {"op", op}, {"ok", true}, {"code", "-"}, {"key", "-"}, {"rt", "-"}, {"sv", "-"}, {"oin", 0}, {"out", 0}, {"seq", J::array()}};
            if (!Possible(w, op) || !RunOp(w, op, ev)) ev["op"] = {{"o", "Nop"}};
            ev["view"] = View(w);
            J pb = J::array(), rp = J::array();
            if (probe > 0 && (static_cast<size_t>(n) == len || (w.Salt % probe) == 0))
            {
                for (int i = 1; i <= NV; ++i) if (w.V[i]) pb.push_back(ProbeHost(w, "v", i));
                for (int i = 1; i <= NS; ++i) if (w.S[i]) pb.push_back(ProbeHost(w, "s", i));
                for (int i = 1; i <= NR; ++i) rp.push_back(ProbeRef(w, i));
            }
            ev["pb"] = pb; ev["rp"] = rp;
            emit(ev);
        }
        // teardown in an order that depends on the script
        unsigned x = seed + static_cast<unsigned>(index) * 2654435761u;
        std::vector<int> todo;
        for (int i = 1; i <= NV; ++i) todo.push_back(i);
        for (int i = 1; i <= NS; ++i) todo.push_back(100 + i);
        for (int i = 1; i <= NR; ++i) todo.push_back(200 + i);
        while (!todo.empty())
        {
            x = x * 1664525u + 1013904223u;
            const size_t p = (x >> 8) % todo.size();
            const int t = todo[p];
            todo.erase(todo.begin() + static_cast<long>(p));
            if (t > 200) w.R[t - 200].reset(); else if (t > 100) w.S[t - 100].reset(); else w.V[t].reset();
        }
    }
}

int main(int argc, char** argv)
{
    if (!std::getenv("MV_NOASLR"))
    {
        setenv("MV_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 3) return 3;
    int from = 0, only = -1, probe = 0, limit = 60;
    unsigned seed = 1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        const int x = std::atoi(argv[i + 1]);
        if (a == "--from") from = x; else if (a == "--only") only = x; else if (a == "--probe") probe = x;
        else if (a == "--seed") seed = static_cast<unsigned>(x); else if (a == "--limit") limit = x;
    }
    mvlt::SetBackTraceFormat(mvlt::BackTraceFormat::None);
    AllOps = {MakeOps_int(), MakeOps_str(), MakeOps_dbl(), MakeOps_bool(), MakeOps_u64(), MakeOps_cus()};
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    std::signal(SIGALRM, OnAlarm);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i)
    {
        if (i < from || (only >= 0 && i != only)) continue;
        const J script = J::parse(line);
        alarm(static_cast<unsigned>(limit));
        const long live0 = Cus::Live;
        RunScript(script, i, out, probe, seed);
        const long live = Cus::Live - live0;
        // A leak grows with every repetition; caches of the runtime do not
        long grow = 0;
        if ((i % 8) == static_cast<int>(seed % 8) || only >= 0)
        {
            long d[3];
            for (int k = 0; k < 3; ++k)
            {
                const long b = static_cast<long>(HEAP_BYTES());
                RunScript(script, i, nullptr, 0, seed);
                d[k] = static_cast<long>(HEAP_BYTES()) - b;
            }
            if (d[1] > 0 && d[2] > 0) grow = std::min(d[1], d[2]);
        }
        alarm(0);
        J e = {{"e", "End"}, {"i", i}, {"live", live}, {"grow", grow}};
        std::string s = e.dump();
        std::fprintf(out, "%s\n", s.c_str());
        std::fflush(out);
    }
    std::fprintf(out, "{\"e\":\"Eof\"}\n");
    std::fclose(out);
    return 0;
}
#endif
