// interp SCRIPT TRACE PROGRESS FROM [scratch]
// Executes SCRIPT (one JSON object per line) from line FROM (0-based) and appends one event per call to TRACE.
#include "core.hpp"
#include <fstream>
#include <cstdio>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

Env* env = nullptr;
std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }

static std::map<std::string, std::string> last;     // last logged projection of every slot
static long long LIMIT = 5000;
// receives whatever the library writes to std::cout
struct Sink : std::streambuf
{
    std::string text;
    int overflow(int c) override { if (c != EOF) { text += (char)c; } return c; }
    std::streamsize xsputn(const char* p, std::streamsize k) override { text.append(p, k); return k; }
};
static Sink cout_sink;
static void reset_sink() { std::string().swap(cout_sink.text); }
static FILE* trace = nullptr;

static bool too_big(const J& j)
{
    if (j.t == J::Int) { return j.i > LIMIT || j.i < -LIMIT; }
    for (const auto& x : j.a) { if (too_big(x)) { return true; } }
    for (const auto& x : j.o) { if (too_big(x.second)) { return true; } }
    return false;
}

static void emit(const J& e)
{
    std::string s = e.str();
    s += '\n';
    fwrite(s.data(), 1, s.size(), trace);
    fflush(trace);
}

static J changes(bool& stop)
{
    J d = J::obj();
    for (auto& kv : env->slots)
    {
        J p;
        if (kv.second->moved) { p = J::obj(); p.set("k", "moved"); }
        else { p = kv.second->proj(); }
        std::string s = p.str();
        auto it = last.find(kv.first);
        if (it == last.end() || it->second != s)
        {
            if (too_big(p)) { stop = true; }
            last[kv.first] = s;
            d.set(kv.first, p);
        }
    }
    for (auto it = last.begin(); it != last.end();)
    {
        if (!env->slots.count(it->first)) { it = last.erase(it); }
        else { ++it; }
    }
    return d;
}

static J run_op(const J& line)
{
    const std::string key = line["m"].s + "." + line["op"].s;
    auto it = table().find(key);
    if (it == table().end()) { throw std::logic_error("script: unknown operation " + key); }
    return it->second(line["a"]);
}

static void arm()
{
    struct itimerval t = {{0, 0}, {30, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(300);
}

// A call outside its precondition is made in a child: it must be stopped by an assertion or an exception.
static const char* misuse(const J& line)
{
    fflush(nullptr);
    int pfd[2];
    if (pipe(pfd) != 0) { return "pipe"; }
    pid_t pid = fork();
    if (pid == 0)
    {
        close(pfd[0]);
        dup2(pfd[1], 2);
        const struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        int rc = 11;
        try { run_op(line); }
        catch (const std::logic_error& e)
        {
            // the library itself throws runtime_error; logic_error derived ones come from at(), length_error, or the script
            rc = std::string(e.what()).compare(0, 7, "script:") == 0 ? 77 : 10;
        }
        catch (...) { rc = 10; }
        // touch every object once: damage done by the accepted call shows up here
        if (rc == 11) { for (auto& kv : env->slots) { if (!kv.second->moved) { kv.second->proj(); } } }
        _exit(rc);
    }
    close(pfd[1]);
    std::string err;
    char buf[4096];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) { if (err.size() < 100000) { err.append(buf, k); } }
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st))
    {
        if (WEXITSTATUS(st) == 10) { return "refused"; }
        if (WEXITSTATUS(st) == 11) { return "accepted"; }
        if (WEXITSTATUS(st) == 77) { return "badscript"; }
        return "memory-error";
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { return "refused"; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) { return "hang"; }
    return "memory-error";
}

int main(int argc, char** argv)
{
    if (argc < 5) { return 2; }
    std::vector<std::string> lines;
    {
        std::ifstream f(argv[1]);
        std::string s;
        while (std::getline(f, s)) { if (!s.empty()) { lines.push_back(s); } }
    }
    trace = fopen(argv[2], "a");
    int prog = open(argv[3], O_CREAT | O_RDWR, 0644);
    size_t from = atol(argv[4]);
    Env e;
    env = &e;
    if (argc > 5) { e.scratch = argv[5]; }
    std::streambuf* real_cout = std::cout.rdbuf(&cout_sink);
    bool stop = false;
    long long base = 0;
    size_t ep_line = from;
    bool in_rerun = false;

    for (size_t n = from; n < lines.size(); ++n)
    {
        int pn = (int)n;
        if (pwrite(prog, &pn, sizeof pn, 0) != sizeof pn) { return 2; }
        J line = J::parse(lines[n]);
        arm();
        if (line.has("ep"))
        {
            e.slots.clear();
            last.clear();
            e.F = line.has("F") ? line["F"].i : 1;
            LIMIT = line.has("lim") ? line["lim"].i : 5000;
            stop = false;
            ep_line = n;
            J ev = J::obj();
            ev.set("m", "sys"); ev.set("op", "reset"); ev.set("n", pn); ev.set("a", J::obj().set("F", J(e.F)).set("ep", line["ep"]));
            ev.set("d", J::obj());
            if (!in_rerun) { emit(ev); }
            reset_sink();
            line = J(); ev = J();
            base = (long long)__sanitizer_get_current_allocated_bytes();
            continue;
        }
        if (line["op"].s == "end" && line["m"].s == "sys")
        {
            e.slots.clear();
            last.clear();
            reset_sink();
            line = J();
            const bool leak = (long long)__sanitizer_get_current_allocated_bytes() > base;
            if (leak && !in_rerun)
            {
                // could be one-time initialisation inside a library: run the episode once more, silently
                in_rerun = true;
                n = ep_line - 1;
                continue;
            }
            J ev = J::obj();
            ev.set("m", "sys"); ev.set("op", "end"); ev.set("n", pn); ev.set("a", J::obj().set("z", "z"));
            ev.set("leak", leak ? 1 : 0);
            ev.set("d", J::obj());
            in_rerun = false;
            emit(ev);
            stop = true;
            continue;
        }
        if (stop) { continue; }

        J ev = J::obj();
        ev.set("m", line["m"]); ev.set("op", line["op"]); ev.set("n", pn); ev.set("a", line["a"]);
        if (line.has("mis"))
        {
            ev.set("mis", 1);
            if (in_rerun) { continue; }
            ev.set("out", misuse(line));
            ev.set("d", changes(stop));
            emit(ev);
            continue;
        }
        J r;
        try { r = run_op(line); }
        catch (const std::logic_error& x)
        {
            if (std::string(x.what()).compare(0, 7, "script:") == 0) { fprintf(stderr, "line %zu: %s\n%s\n", n, x.what(), lines[n].c_str()); fflush(nullptr); _exit(3); }
            ev.set("exc", x.what());
        }
        catch (const std::exception& x) { ev.set("exc", x.what()); }
        if (r.t != J::Null) { ev.set("r", r); }
        if (!cout_sink.text.empty()) { ev.set("so", cout_sink.text); reset_sink(); }
        ev.set("d", changes(stop));
        if (!in_rerun) { emit(ev); }
    }
    int pn = -1;
    if (pwrite(prog, &pn, sizeof pn, 0) != sizeof pn) { return 2; }
    e.slots.clear();
    last.clear();
    std::cout.rdbuf(real_cout);
    fclose(trace);
    // the process exit itself is not part of any episode; leaks are judged per episode
    fflush(nullptr);
    _exit(0);
}
