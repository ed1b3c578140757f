// Executes scripts of GenUuid.tla in the real library and records what it gives; TraceUuid.tla judges.
//   uuiddriver SCRIPTS TRACE [--from K] [--only K]
#include "Uuid/Uuid.h"
#include <nlohmann/json.hpp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
using J = nlohmann::ordered_json;
static J Codes(const std::string& s) { J a = J::array(); for (unsigned char c : s) a.push_back(static_cast<int>(c)); return a; }
// n identifiers given by another process: a child that was forked, or one that starts the program anew
static void Ask(bool anew, int n, J& got)
{
    int fd[2];
    if (pipe(fd) != 0) std::exit(3);
    const pid_t pid = fork();
    if (pid < 0) std::exit(3);
    if (pid == 0)
    {
        dup2(fd[1], 1); close(fd[0]); close(fd[1]);
        if (anew) { execl("/proc/self/exe", "uuiddriver", "--ids", std::to_string(n).c_str(), static_cast<char*>(nullptr)); _exit(3); }
        for (int k = 0; k < n; ++k) { const std::string u = mvlt::Uuid() + "\n"; if (write(1, u.data(), u.size()) < 0) _exit(3); }
        _exit(0);
    }
    close(fd[1]);
    std::string text; char buf[4096]; ssize_t r;
    while ((r = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, static_cast<size_t>(r));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 95);
    size_t p = 0, e;
    while ((e = text.find('\n', p)) != std::string::npos) { got.push_back(Codes(text.substr(p, e - p))); p = e + 1; }
}
static void OnAlarm(int) { _exit(97); }
int main(int argc, char** argv)
{
    if (argc < 3) return 3;
    if (std::string(argv[1]) == "--ids") { for (int k = std::atoi(argv[2]); k > 0; --k) std::printf("%s\n", mvlt::Uuid().c_str()); return 0; }
    int from = 0, only = -1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        const std::string a = argv[i];
        if (a == "--from") from = std::atoi(argv[i + 1]); else if (a == "--only") only = std::atoi(argv[i + 1]);
    }
    std::ifstream in(argv[1]);
    FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    std::signal(SIGALRM, OnAlarm);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i)
    {
        if (i < from || (only >= 0 && i != only)) continue;
        std::fprintf(out, "{\"e\":\"Begin\",\"i\":%d}\n", i);
        std::fflush(out);
        for (const auto& op : J::parse(line))
        {
            alarm(120);
            const std::string o = op["o"];
            J got = J::array();
            if (o == "Hex")
            {
                std::uint64_t n = 0;
                for (const auto& w : op["w"]) n = (n << 16) | w.get<std::uint64_t>();
                got.push_back(Codes(mvlt::ToHex(n)));
            }
            else if (o == "Ids") for (int k = 0; k < op["n"]; ++k) got.push_back(Codes(mvlt::Uuid()));
            else if (o == "Par")
            {
                const int th = op["th"], n = op["n"];
                std::vector<std::vector<std::string>> ids(static_cast<size_t>(th));
                std::vector<std::thread> ts;
                for (int t = 0; t < th; ++t) ts.emplace_back([&, t] { for (int k = 0; k < n; ++k) ids[static_cast<size_t>(t)].push_back(mvlt::Uuid()); });
                for (auto& t : ts) t.join();
                for (auto& v : ids) for (auto& s : v) got.push_back(Codes(s));
            }
            else if (o == "Fork" || o == "Anew")
            {
                std::fflush(out);
                for (int c = 0; c < op["ch"]; ++c) { Ask(o == "Anew", op["n"], got); if (o == "Fork") got.push_back(Codes(mvlt::Uuid())); }
            }
            else if (o == "Tmp")
            {
                std::string pre;
                for (const auto& c : op["pre"]) pre += static_cast<char>(c.get<int>());
                for (int k = 0; k < op["n"]; ++k) got.push_back(Codes(pre.empty() && k % 2 ? mvlt::GenTmpFileName() : mvlt::GenTmpFileName(pre)));
            }
            else return 3;
            alarm(0);
            J ev; ev["e"] = "Op"; ev["op"] = op; ev["got"] = got;
            std::fprintf(out, "%s\n", ev.dump().c_str());
        }
        std::fprintf(out, "{\"e\":\"End\",\"i\":%d}\n", i);
        std::fflush(out);
    }
    std::fprintf(out, "{\"e\":\"Eof\"}\n");
    std::fclose(out);
    return 0;
}
