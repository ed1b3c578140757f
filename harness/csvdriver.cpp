// Executes scripts of imports and exports (GenCsv.tla, MCCsv.tla) in the real library and records what
// happened; TraceCsv.tla judges.   csvdriver SCRIPTS TRACE [--from K] [--only K]
#include "csv_ops.h"
#include <nlohmann/json.hpp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HEAP_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#include <malloc.h>
#define HEAP_BYTES() mallinfo2().uordblks
#endif
using J = nlohmann::ordered_json;
using namespace mvlt;

static std::vector<CsvOps*> AllOps;
static CsvOps* Ops(const std::string& n)
{
    for (auto* o : AllOps) if (n == o->Name()) return o;
    std::fprintf(stderr, "driver: unknown type %s\n", n.c_str());
    std::exit(3);
}
static CsvOps* Ops(const std::type_index& t)
{
    for (auto* o : AllOps) if (t == o->Type()) return o;
    return nullptr;
}
static std::string Str(const J& codes) { std::string s; for (const auto& c : codes) s += static_cast<char>(c.get<int>()); return s; }
static J Codes(const std::string& s) { J a = J::array(); for (unsigned char c : s) a.push_back(static_cast<int>(c)); return a; }

using Row = std::vector<std::string>;
static J BagJson(const std::map<Row, long>& bag)
{
    J a = J::array();
    for (const auto& e : bag) { J r = J::array(); for (const auto& c : e.first) r.push_back(Codes(c)); a.push_back(J::array({r, e.second})); }
    return a;
}
// The rows of a vault or of a set
template <class H> std::map<Row, long> Rows(const H& h, std::string& x)
{
    std::map<Row, long> bag;
    const auto keys = h.GetKeys();
    if (keys.empty()) { if (h.Size() != 0) bag[Row()] = static_cast<long>(h.Size()); return bag; }
    std::vector<CsvOps*> ops;
    for (const auto& k : keys)
    {
        std::type_index t = typeid(void);
        if (!h.GetKeyType(k, t) || !Ops(t)) { x = "type of a key"; return bag; }
        ops.push_back(Ops(t));
    }
    for (const auto& r : h.GetSortedRecords(keys[0]))
    {
        Row row;
        for (size_t i = 0; i < keys.size(); ++i) row.push_back(ops[i]->Cell(r, keys[i], x));
        ++bag[row];
    }
    return bag;
}

struct World { std::unique_ptr<Vault> V[3]; std::string Last; };
static std::string Dir = ".";
static std::string ReadAll(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
static void WriteAll(const std::string& f, const std::string& s)
{
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(s.data(), static_cast<std::streamsize>(s.size()));
    if (!o.flush()) { std::fprintf(stderr, "driver: cannot write\n"); std::exit(3); }
}

static void RunOp(World& w, const J& op, J& ev)
{
    const std::string o = op.at("o");
    const int n = op.at("v");
    if (o == "New") { w.V[n].reset(new Vault()); return; }
    if (o == "Clone") { w.V[n].reset(new Vault(*w.V[op.at("src").get<int>()])); w.V[n]->DropData(); return; }
    Vault& v = *w.V[n];
    if (o == "Drop") { v.DropData(); return; }
    if (o == "Key")
    {
        ev["ok"] = Ops(op.at("t").get<std::string>())->Add(v, Str(op.at("k")), op.at("u").get<bool>(), Str(op.at("d")));
        return;
    }
    if (o == "Rec")
    {
        std::vector<std::pair<std::string, VaultParamInput>> p;
        const auto keys = v.GetKeys();
        size_t i = 0;
        for (const auto& c : op.at("cells"))
        {
            if (i >= keys.size()) break;
            std::type_index t = typeid(void);
            v.GetKeyType(keys[i], t);
            Ops(t)->Param(p, keys[i], Str(c));
            ++i;
        }
        ev["ok"] = v.CreateRecord(p).IsOperationSuccess;
        return;
    }
    const std::string file = Dir + "/csv_in.csv", saved = Dir + "/csv_out.csv";
    if (o == "Read" || o == "Big")
    {
        std::string in = file;
        if (o == "Big")
        {
            std::string t = Str(op.at("pre"));
            const std::string pat = Str(op.at("pat"));
            for (int i = 0; i < op.at("n").get<int>(); ++i) t += pat;
            WriteAll(file, t + Str(op.at("suf")));
        }
        else if (op.at("miss").get<bool>()) in = Dir + "/csv_missing.csv";
        else WriteAll(file, op.at("src") == "last" ? w.Last : Str(op.at("text")));
        const char sep = static_cast<char>(op.at("sep").get<int>());
        const std::string mode = op.at("mode");
        std::vector<std::string> keys;
        for (const auto& k : op.at("keys")) keys.push_back(Str(k));
        J raw = J::array();
        bool ok;
        if (mode == "handler")
        {
            const std::string hm = op.at("hm");
            ok = v.ReadFile(in, sep, [&](const std::vector<std::string>& ks, std::vector<std::string>& vals)
            {
                J a = J::array(), b = J::array();
                for (const auto& k : ks) a.push_back(Codes(k));
                for (const auto& c : vals) b.push_back(Codes(c));
                raw.push_back(J::array({a, b}));
                v.Size(); v.GetKeys();                          // reading the same vault is allowed
                if (hm == "clear") vals.clear();
                else if (hm == "pop") { if (!vals.empty()) vals.pop_back(); }
                else if (hm == "push") vals.push_back("7");
                else if (hm == "set") { if (!vals.empty()) vals[0] = "12"; }
                else if (hm == "swap") std::reverse(vals.begin(), vals.end());
            });
        }
        else if (mode == "hdr" && keys.empty()) ok = v.ReadFile(in, sep);
        else ok = v.ReadFile(in, sep, mode == "hdr", keys);
        J errs = J::array();
        for (const auto& e : v.GetErrorsInLastReadedFile()) errs.push_back(J::array({e.first, Codes(e.second)}));
        ev["ok"] = ok; ev["errs"] = errs; ev["raw"] = raw;
        return;
    }
    if (o == "Save")
    {
        std::vector<std::string> keys;
        for (const auto& k : op.at("keys")) keys.push_back(Str(k));
        const std::string sep(1, static_cast<char>(op.at("sep").get<int>()));
        const std::string bad = op.at("bad");
        const std::string path = bad == "dir" ? Dir + "/csv_no_such_directory/x.csv" : saved;
        const bool hdr = op.at("hdr");
        std::string x;
        VaultRecordSet s;
        if (op.at("host") == "s")
        {
            const auto ks = v.GetKeys();
            if (!ks.empty())
            {
                std::type_index t = typeid(void);
                v.GetKeyType(ks[0], t);
                Ops(t)->Bind(v, ks[0], s);          // a set of this vault
                s.Clear();
            }
            int m = op.at("m");
            if (!ks.empty()) for (const auto& r : v.GetSortedRecords(ks[0], true)) { if (m-- == 0) break; s.AddRecord(r); }
            ev["set"] = BagJson(Rows(s, x));
        }
        unlink(saved.c_str());
        struct rlimit old, zero;
        if (bad == "full")
        {
            std::signal(SIGXFSZ, SIG_IGN);
            getrlimit(RLIMIT_FSIZE, &old);
            zero = old; zero.rlim_cur = 0;
            setrlimit(RLIMIT_FSIZE, &zero);
        }
        ev["ok"] = op.at("host") == "s" ? s.SaveToFile(path, keys, sep, hdr) : v.SaveToFile(path, keys, sep, hdr);
        if (bad == "full") setrlimit(RLIMIT_FSIZE, &old);
        if (bad.empty()) { w.Last = ReadAll(saved); ev["text"] = Codes(w.Last); }
        if (!x.empty()) ev["x"] = x;
        return;
    }
    std::fprintf(stderr, "driver: unknown call %s\n", o.c_str());
    std::exit(3);
}

static void OnAlarm(int) { const char m[] = "driver: HANG\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
static void RunScript(const J& script, int index, FILE* out)
{
    auto emit = [&](const J& e) { if (!out) return; std::string s = e.dump(-1, ' ', true); std::fwrite(s.data(), 1, s.size(), out); std::fputc('\n', out); std::fflush(out); };
    emit({{"e", "Begin"}, {"i", index}});
    World w;
    for (const J& op : script)
    {
        J ev = {{"e", "Op"}, {"op", op}, {"ok", true}, {"errs", J::array()}, {"raw", J::array()}, {"text", J::array()}, {"set", J::array()}, {"x", ""}};
        RunOp(w, op, ev);
        J rows = J::array(), keys = J::array(), size = J::array();
        std::string x = ev["x"];
        for (int i = 1; i <= 2; ++i)
        {
            J ks = J::array();
            if (!w.V[i]) { rows.push_back(J::array()); keys.push_back(ks); size.push_back(0); continue; }
            rows.push_back(BagJson(Rows(*w.V[i], x)));
            for (const auto& k : w.V[i]->GetKeys()) ks.push_back(Codes(k));
            keys.push_back(ks);
            size.push_back(w.V[i]->Size());
        }
        ev["rows"] = rows; ev["keys"] = keys; ev["size"] = size; ev["x"] = x;
        emit(ev);
    }
}

int main(int argc, char** argv)
{
    if (argc < 3) return 3;
    int from = 0, only = -1, limit = 120;
    unsigned seed = 1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        if (a == "--from") from = std::atoi(argv[i + 1]); else if (a == "--only") only = std::atoi(argv[i + 1]);
        else if (a == "--seed") seed = static_cast<unsigned>(std::atoi(argv[i + 1]));
    }
    SetBackTraceFormat(BackTraceFormat::None);
    AllOps = {MakeCsv_str(), MakeCsv_bool(), MakeCsv_i16(), MakeCsv_u16(), MakeCsv_i32(), MakeCsv_u32(), MakeCsv_i64(), MakeCsv_u64(), MakeCsv_f32(), MakeCsv_f64()};
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    Dir = std::string(argv[2]) + ".d";
    mkdir(Dir.c_str(), 0700);
    std::signal(SIGALRM, OnAlarm);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i)
    {
        if (i < from || (only >= 0 && i != only)) continue;
        const J script = J::parse(line);
        alarm(static_cast<unsigned>(limit));
        RunScript(script, i, out);
        long grow = 0;
        if (line.size() < 20000 && ((i % 8) == static_cast<int>(seed % 8) || only >= 0) && line.find("\"Big\"") == std::string::npos)
        {
            long d[3];
            for (int k = 0; k < 3; ++k) { const long b = static_cast<long>(HEAP_BYTES()); RunScript(script, i, nullptr); d[k] = static_cast<long>(HEAP_BYTES()) - b; }
            if (d[1] > 0 && d[2] > 0) grow = std::min(d[1], d[2]);
        }
        alarm(0);
        std::fprintf(out, "{\"e\":\"End\",\"i\":%d,\"grow\":%ld}\n", i, grow);
        std::fflush(out);
    }
    std::fprintf(out, "{\"e\":\"Eof\"}\n");
    std::fclose(out);
    for (const char* f : {"/csv_in.csv", "/csv_out.csv"}) unlink((Dir + f).c_str());
    rmdir(Dir.c_str());
    return 0;
}
