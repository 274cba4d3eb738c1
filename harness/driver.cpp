// Batch driver: runs the real compiler entry points in forked children and records everything observable.
// stdin : one JSON object per line  {"id":..,"cwd":"..","cpu":secs,"limit":bytes,"runs":[{"api":"cli|strings","args":[..],"cmdline":"..","stdin":".."}]}
// stdout: one JSON object per line  {"id":..,"status":"ok|signal:N|exit:N|timeout|outlimit","runs":[{"code":..,"exc":null|"..","out":"..","err":".."}],"cout":"..","cerr":".."}
#include <lsqecc/pipelines/slicer.hpp>
#include <nlohmann/json.hpp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using nlohmann::json;

namespace {
size_t g_limit = 64u << 20;
size_t g_lines = 0; // when set, most newlines of output
json g_cur;
int g_res_fd = -1;
std::string dump(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }
void write_all(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = ::write(fd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += static_cast<size_t>(n);
    }
}
std::string latin(const std::string& s)
{   // keep every byte: invalid UTF-8 is replaced when dumped
    return s;
}
struct LimitBuf : std::streambuf {
    std::string s;
    size_t nl = 0;
    int overflow(int c) override { if (c != EOF) { s.push_back(static_cast<char>(c)); nl += c == '\n'; check(); } return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        s.append(p, static_cast<size_t>(n));
        if (g_lines) for (std::streamsize i = 0; i < n; i++) nl += p[i] == '\n';
        check();
        return n;
    }
    void check();
};
LimitBuf* g_out = nullptr; LimitBuf* g_err = nullptr;
// Every finished run is a line of its own, so that a later run ending the process does not lose it
void emit_run(const json& r) { write_all(g_res_fd, dump(r) + "\n"); }
void emit(const char* status)
{
    json r; r["status"] = status;
    write_all(g_res_fd, dump(r) + "\n");
}
void LimitBuf::check()
{
    if (s.size() > g_limit || (g_lines && nl > g_lines)) {
        g_cur["out"] = latin(g_out->s); g_cur["err"] = latin(g_err->s); g_cur["code"] = nullptr; g_cur["exc"] = nullptr;
        emit_run(g_cur);
        emit("outlimit");
        _exit(0);
    }
}
void run_one(const json& run)
{
    g_cur = json::object();
    std::string api = run.value("api", "cli");
    if (api == "strings") {
        std::string res = lsqecc::run_slicer_program_from_strings(run.value("cmdline", ""), run.value("stdin", ""));
        json r; r["api"] = "strings"; r["out"] = latin(res); r["err"] = ""; r["code"] = 0; r["exc"] = nullptr;
        emit_run(r);
        return;
    }
    std::vector<std::string> args{"lsqecc_slicer"};
    for (auto& a : run["args"]) args.push_back(a.get<std::string>());
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    std::istringstream in{run.value("stdin", "")};
    LimitBuf ob, eb; g_out = &ob; g_err = &eb;
    std::ostream out(&ob), err(&eb);
    json r; r["exc"] = nullptr; r["code"] = nullptr;
    try { r["code"] = lsqecc::run_slicer_program(static_cast<int>(args.size()), argv.data(), in, out, err); }
    catch (const std::exception& e) { r["exc"] = latin(std::string(e.what())); }
    catch (...) { r["exc"] = "(not a std::exception)"; }
    r["out"] = latin(ob.s); r["err"] = latin(eb.s);
    emit_run(r);
}
std::string slurp(int fd)
{
    std::string s; char buf[65536]; lseek(fd, 0, SEEK_SET); ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0) { s.append(buf, static_cast<size_t>(n)); if (s.size() > (256u << 20)) break; }
    return s;
}
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    int real_out = dup(1), real_err = dup(2);
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json req = json::parse(line);
        int cout_fd = memfd_create("o", 0), cerr_fd = memfd_create("e", 0), res_fd = memfd_create("r", 0);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(cout_fd, 1); dup2(cerr_fd, 2);
            int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
            g_res_fd = res_fd;
            g_limit = req.value("limit", size_t{32u << 20});
            g_lines = req.value("lines", size_t{0});
            if (req.contains("cwd")) { if (chdir(req["cwd"].get<std::string>().c_str())) _exit(97); }
            struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
            struct rlimit fs{256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fs);
            double cpu = req.value("cpu", 10.0);
            struct itimerval tv{}; tv.it_value.tv_sec = static_cast<long>(cpu); tv.it_value.tv_usec = static_cast<long>((cpu - static_cast<long>(cpu)) * 1e6);
            setitimer(ITIMER_PROF, &tv, nullptr);
            for (auto& run : req["runs"]) run_one(run);
            std::cout.flush(); std::cerr.flush(); fflush(nullptr);
            emit("ok");
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string status;
        json rep = json::object();
        std::string res = slurp(res_fd);
        if (WIFSIGNALED(st)) status = WTERMSIG(st) == SIGPROF ? "timeout" : "signal:" + std::to_string(WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0) status = "exit:" + std::to_string(WEXITSTATUS(st));
        rep["runs"] = json::array();
        for (size_t at = 0, nl; (nl = res.find('\n', at)) != std::string::npos; at = nl + 1) {
            json j = json::parse(res.begin() + static_cast<std::ptrdiff_t>(at), res.begin() + static_cast<std::ptrdiff_t>(nl), nullptr, false);
            if (!j.is_object()) continue;
            if (j.contains("status")) rep["status"] = j["status"];
            else rep["runs"].push_back(std::move(j));
        }
        if (!status.empty()) rep["status"] = status;
        else if (!rep.contains("status")) rep["status"] = "noresult";
        rep["id"] = req["id"];
        rep["cout"] = slurp(cout_fd); rep["cerr"] = slurp(cerr_fd);
        close(cout_fd); close(cerr_fd); close(res_fd);
        write_all(real_out, dump(rep) + "\n");
    }
    (void) real_err;
    return 0;
}
