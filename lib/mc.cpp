#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <malloc.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>


#include <sys/syscall.h>
namespace mc { long long (*simulated_us)() = nullptr; }
// Random devices answer the same in every run of an execution (the library's own is replaced).
// So does the clock while static objects are constructed.
static uint64_t random_calls = 0;
static bool started = false;
// not steady_clock::now(): in a harness with a simulated kernel that is simulated too
#include <sys/syscall.h>
static std::chrono::steady_clock::time_point real_now()
{
    timespec t{};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return std::chrono::steady_clock::time_point(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec));
}
extern "C" time_t time(time_t *out) noexcept
{
    time_t r = 1500000000;
    long long us = started && mc::simulated_us ? mc::simulated_us() : -1;
    if(us >= 0) r = us / 1000000;
    else if(started) { timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; }
    if(out) *out = r;
    return r;
}
std::random_device::result_type std::random_device::_M_getval() { return (result_type) (mc::mix(0x5eed, ++random_calls) >> 13); }

namespace mc
{
    namespace
    {
        struct Point { int n; int chosen; bool dev; const char *label; };
        struct Scenario { std::string name; int bound; std::function<void()> body; int shards; int shard_depth; };
        struct Job { int scen; int shard; };

        constexpr int MAXCH = 1 << 16;
        constexpr int NSAMPLE = 3, MAXJOBS = 4096;
        struct Slot // shared memory, one per worker
        {
            std::atomic<uint64_t> beat;
            std::atomic<int> scen;        // scenario being run
            std::atomic<int> len;         // choices so far in the current execution
            std::atomic<int> state;       // 0 running, 1 finished, 2 violation, 3 internal error
            std::atomic<bool> has_msg;
            char msg[4096];
            char key[256];
            uint64_t execs, trans, abandoned, maxdepth, known, diverged;
            uint64_t by_dev[16];
            bool state_capped, time_capped, open_exec;
            int jobs_done;
            int njobs; uint16_t job[MAXJOBS]; // what this worker has run since it was started
            int sample_n;
            struct { int scen; int len; uint16_t ch[512]; } sample[NSAMPLE];
            uint16_t ch[MAXCH];
        };
        struct Shared
        {
            std::atomic<int> next_job;
            std::atomic<bool> stop;
        };

        std::vector<Scenario> scenarios;
        std::vector<Job> jobs;
        std::map<std::string, std::string> facts;
        Slot *slot = nullptr;
        Shared *shared = nullptr;

        int mem_inside = 0;
        // current execution
        std::vector<Point> pts;
        std::vector<int> prefix;
        size_t pos = 0;
        std::vector<Point> echo; size_t echo_at = 0; bool echoing = false;
        int cost = 0, bound = 0;
        bool g_failed = false, in_exec = false;
        bool strict = true;       // a recorded choice that doesn't fit is an error (replays), or just not counted (exploration)
        long diverged_at = -1;
        std::string g_msg, g_key;
        std::vector<std::string> trace_lines;
        std::function<uint64_t()> state_fn;
        uint64_t path_hash = 0;
        size_t HORIZON = 60000;
        std::set<std::string> known_keys;
        std::set<std::string> known_seen;
        bool g_thorough = false;
        std::string g_prop;
        pid_t main_pid = 0;

        // open-addressing hash set of 64-bit hashes
        struct HashSet
        {
            std::vector<uint64_t> t; size_t n = 0, cap_limit = 12000000; bool capped = false;
            HashSet() : t(1 << 12, 0) {}
            bool insert(uint64_t h)
            {
                if(h == 0) h = 1;
                if(n * 10 > t.size() * 6)
                {
                    if(n >= cap_limit) { capped = true; return false; }
                    std::vector<uint64_t> o(t.size() * 2, 0);
                    o.swap(t);
                    n = 0;
                    for(auto x : o) if(x) put(x);
                }
                return put(h);
            }
            bool put(uint64_t h)
            {
                size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ull) >> 20 & m;
                while(t[i] && t[i] != h) i = (i + 1) & m;
                if(t[i]) return false;
                t[i] = h; ++n; return true;
            }
        };
        HashSet *states = nullptr, *outcomes = nullptr;

        void set_slot_msg(const std::string &m, const std::string &k)
        {
            if(!slot) return;
            strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
            strncpy(slot->key, k.c_str(), sizeof(slot->key) - 1);
            slot->has_msg = true;
        }

        [[noreturn]] void internal_error(const std::string &m)
        {
            if(slot)
            {
                set_slot_msg("INTERNAL: " + m, "");
                slot->state = 3;
            }
            fprintf(stderr, "mc: internal error: %s\n", m.c_str());
            _exit(3);
        }

        int decide(int n, const char *label, bool dev)
        {
            if(!in_exec) internal_error(std::string("choice outside an execution: ") + label);
            if(n <= 0) internal_error(std::string("empty choice: ") + label);
            if(slot) slot->beat.fetch_add(1, std::memory_order_relaxed);
            if(states) states->insert(state_fn ? mix(state_fn(), 77) : path_hash);
            if(echoing)
            {
                int e = echo_at < echo.size() ? echo[echo_at++].chosen : 0;
                return e < n ? e : 0;
            }
            int c = 0;
            if(pos < prefix.size() && !strict && diverged_at < 0 && (prefix[pos] >= n || (pos < pts.size() && (pts[pos].n != n || pts[pos].dev != dev || strcmp(pts[pos].label, label) != 0))))
            {
                // The code keeps something from one execution to the next. What it does is still a real execution.
                diverged_at = (long) pos;
                pts.resize(pos);
            }
            if(pos < prefix.size() && diverged_at < 0)
            {
                c = prefix[pos];
                if(c >= n) internal_error(std::string("replay divergence at '") + label + "': recorded choice " + std::to_string(c) + " of " + std::to_string(n));
                if(pos < pts.size() && (pts[pos].n != n || pts[pos].dev != dev || strcmp(pts[pos].label, label) != 0))
                    internal_error(std::string("replay divergence: expected '") + pts[pos].label + "', got '" + label + "'");
            }
            if(pos < pts.size()) pts[pos] = {n, c, dev, label};
            else pts.push_back({n, c, dev, label});
            if(slot && pos < MAXCH) { slot->ch[pos] = (uint16_t) c; slot->len.store((int) pos + 1, std::memory_order_relaxed); }
            ++pos;
            if(dev && c) ++cost;
            path_hash = mix(path_hash, (uint64_t) c * 1315423911u + (uint64_t) n);
            if(tracing && (n > 1)) trace_lines.push_back(std::string(dev && c ? "* " : "  ") + label + " = " + std::to_string(c) + "/" + std::to_string(n));
            if(pos > HORIZON) fail("execution exceeds the horizon of " + std::to_string(HORIZON) + " environment steps (livelock)");
            return c;
        }

        // run one execution with `prefix`; pts[0..pos) is what happened
        // returns 0 ok, 1 violation, 2 abandoned, 4 known finding
        int run_one(int si)
        {
            Scenario &s = scenarios[si];
            pos = 0; cost = 0; diverged_at = -1; g_failed = false; g_msg.clear(); g_key.clear(); trace_lines.clear();
            bound = s.bound; path_hash = mix(0x1234567, (uint64_t) si);
            state_fn = nullptr;
            if(slot) { slot->scen = si; slot->len = 0; slot->has_msg = false; slot->beat.fetch_add(1); }
            alloc_reset(); mem_begin(); echoing = false; mem_inside = 0;
            int ret = 0;
            in_exec = true;
            struct InBody { InBody() { in_body = true; random_calls = 0; } ~InBody() { in_body = false; } } in_body_guard;
            try { s.body(); }
            catch(const Violation &) { }
            catch(const Abandon &) { ret = 2; }
            catch(const std::exception &e) { if(!g_failed) { g_failed = true; g_msg = std::string("unexpected exception escaped: ") + e.what(); } }
            catch(...) { if(!g_failed) { g_failed = true; g_msg = "unexpected exception of unknown type escaped"; } }
            in_exec = false;
            if(!g_failed && ret == 0 && pos < prefix.size() && diverged_at < 0 && !strict) diverged_at = (long) pos;
            if(!g_failed && ret == 0 && pos < prefix.size() && strict)
                internal_error("replay divergence: the execution ended after " + std::to_string(pos) + " of " + std::to_string(prefix.size()) + " recorded choices");
            if(!g_failed && states && ret == 0) states->insert(mix(path_hash, 0x5151));
            pts.resize(pos);
            if(g_failed)
            {
                if(!g_key.empty() && known_keys.count(g_key)) { known_seen.insert(g_key); return 4; }
                set_slot_msg(g_msg, g_key);
                return 1;
            }
            return ret;
        }

        std::chrono::steady_clock::time_point deadline;

        bool explore(int si, int shard)
        {
            Scenario &s = scenarios[si];
            prefix.clear(); pts.clear();
            strict = false;
            long top = -1;
            int D = s.shard_depth;
            bool newtop = true;
            size_t fresh_from = 0;
            while(true)
            {
                if(shared->stop) return true;
                if(real_now() > deadline) { slot->time_capped = true; return true; }
                int r = run_one(si);
                if(newtop) ++top;
                bool own = s.shards <= 1 || top % s.shards == shard;
                if(r == 1) { slot->state = 2; return false; }
                if(diverged_at >= 0) { slot->diverged++; pos = (size_t) diverged_at; pts.resize(pos); }
                else if(own)
                {
                    if(r == 2) slot->abandoned++;
                    else
                    {
                        slot->execs++;
                        slot->trans += pos - fresh_from;
                        slot->maxdepth = std::max<uint64_t>(slot->maxdepth, pos);
                        slot->by_dev[std::min(cost, 15)]++;
                        if(r == 4) slot->known++;
                        if(pos <= 512)
                        {
                            // keep: the first execution, one of the deepest deviation level, the latest power-of-two one
                            int which = -1;
                            if(slot->sample_n == 0) which = 0;
                            else if(cost == s.bound && slot->sample_n < 2 && pos > 2) which = 1;
                            else if((slot->execs & (slot->execs - 1)) == 0) which = 2;
                            if(which >= 0)
                            {
                                slot->sample[which].scen = si; slot->sample[which].len = (int) pos;
                                for(size_t i = 0; i < pos; ++i) slot->sample[which].ch[i] = (uint16_t) pts[i].chosen;
                                slot->sample_n = std::max(slot->sample_n, which + 1);
                            }
                        }
                    }
                }
                // next prefix
                long i = (long) pos - 1;
                if(!own) i = std::min<long>(i, D - 1);
                // prefix cost before each index
                static std::vector<int> pc;
                pc.assign(pos + 1, 0);
                for(size_t k = 0; k < pos; ++k) pc[k + 1] = pc[k] + (pts[k].dev && pts[k].chosen ? 1 : 0);
                for(; i >= 0; --i)
                {
                    int alt = pts[i].chosen + 1;
                    if(alt >= pts[i].n) continue;
                    if(pts[i].dev && pc[i] + 1 > s.bound) continue;
                    break;
                }
                if(i < 0) return true;
                newtop = i < D;
                fresh_from = (size_t) i;
                prefix.resize(i + 1);
                for(long k = 0; k < i; ++k) prefix[k] = pts[k].chosen;
                prefix[i] = pts[i].chosen + 1;
                pts.resize(i + 1); // the labels up to i are checked during the replay
            }
        }

        void write_hashes(const std::string &file, const HashSet &h)
        {
            FILE *f = fopen(file.c_str(), "wb");
            if(!f) return;
            for(auto x : h.t) if(x) fwrite(&x, 8, 1, f);
            fclose(f);
        }
        size_t merge_hashes(const std::vector<std::string> &files)
        {
            std::vector<uint64_t> all;
            for(auto &fn : files)
            {
                FILE *f = fopen(fn.c_str(), "rb");
                if(!f) continue;
                fseek(f, 0, SEEK_END);
                size_t n = (size_t) ftell(f) / 8, o = all.size();
                rewind(f);
                all.resize(o + n);
                if(n && fread(&all[o], 8, n, f) != n) all.resize(o);
                fclose(f);
                unlink(fn.c_str());
            }
            std::sort(all.begin(), all.end());
            return (size_t) (std::unique(all.begin(), all.end()) - all.begin());
        }

        std::string jstr(const std::string &s)
        {
            std::string o = "\"";
            for(unsigned char c : s)
            {
                if(c == '"' || c == '\\') { o += '\\'; o += (char) c; }
                else if(c == '\n') o += "\\n";
                else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
                else o += (char) c;
            }
            return o + "\"";
        }

        std::string slurp(const std::string &fn)
        {
            std::ifstream f(fn, std::ios::binary);
            std::stringstream ss; ss << f.rdbuf();
            return ss.str();
        }

        struct ReplayResult { int kind; std::string msg; std::string trace; std::string err; }; // kind 0 ok,1 violation,2 crash,3 hang,4 internal,5 known

        // With `history`, the jobs are explored again from the start instead, up to the first violation: for code that keeps
        // something from one execution to the next.
        ReplayResult replay(int si, const std::vector<int> &ch, int limit_s, const std::string &dir, const std::vector<Job> *history = nullptr)
        {
            std::string tf = dir + "/trace." + std::to_string(getpid()), ef = dir + "/err." + std::to_string(getpid());
            unlink(tf.c_str()); unlink(ef.c_str());
            slot->has_msg = false; slot->len = 0;
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if(p == 0)
            {
                int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                tracing = true;
                prefix = ch; pts.clear(); states = nullptr; outcomes = nullptr;
                int r = 0;
                if(!history) { strict = true; r = run_one(si); }
                else
                {
                    shared->stop = false; deadline = real_now() + std::chrono::hours(1);
                    for(auto &j : *history) if(!explore(j.scen, j.shard)) { r = 1; break; }
                }
                std::ofstream o(tf, std::ios::binary);
                for(auto &l : trace_lines) o << l << "\n";
                o.close();
                fflush(stdout);
                _exit(r == 0 ? 0 : r == 1 ? 11 : r == 4 ? 14 : 12);
            }
            ReplayResult res{0, "", "", ""};
            int st = 0; auto t0 = real_now();
            bool hung = false;
            while(true)
            {
                pid_t w = waitpid(p, &st, WNOHANG);
                if(w == p) break;
                if(real_now() - t0 > std::chrono::seconds(limit_s)) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
                usleep(2000);
            }
            res.trace = slurp(tf); res.err = slurp(ef);
            if(res.err.size() > 20000) res.err.resize(20000);
            unlink(tf.c_str()); unlink(ef.c_str());
            if(hung) { res.kind = 3; res.msg = "the code under test does not return (no progress for " + std::to_string(limit_s) + " s)"; }
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) res.kind = 0;
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 14) res.kind = 5;
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 12) res.kind = 0;
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 11) { res.kind = 1; res.msg = slot->msg; }
            else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { res.kind = 4; res.msg = slot->msg; }
            else
            {
                res.kind = 2;
                std::string head;
                std::istringstream is(res.err);
                std::string l;
                while(std::getline(is, l))
                    if(l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("runtime error") != std::string::npos)
                        head += l + "; ";
                res.msg = "the process dies (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ") " + head;
                if(slot->has_msg) res.msg = std::string(slot->msg) + " [then " + res.msg + "]";
            }
            return res;
        }
    }

    size_t mark() { return pos; }
    void again(size_t since, const std::function<void()> &f)
    {
        echo.assign(pts.begin() + (long) since, pts.begin() + (long) pos); echo_at = 0; echoing = true;
        struct Back { ~Back() { echoing = false; } } back;
        f();
    }
    bool tracing = false;
    void note_(const std::string &s) { Outside outside_; trace_lines.push_back("    " + s); }
    int choose(int n, const char *label) { Outside outside_; return decide(n, label, false); }
    int deviate(int n, const char *label)
    {
        // once the budget is used up only the default answer remains; the point is still recorded so that replays agree
        return decide(n, label, true);
    }
    int budget_left() { return bound - cost; }
    bool failed() { return g_failed; }
    void record(const std::string &msg)
    {
        if(g_failed) return;
        g_failed = true; g_msg = msg;
        set_slot_msg(msg, "");
        if(tracing) trace_lines.push_back("! " + msg);
    }
    void fail(const std::string &msg) { record(msg); throw Violation(); }
    void fail_key(const std::string &key, const std::string &msg)
    {
        if(!g_failed) { record(msg); g_key = key; }
        throw Violation();
    }
    void abandon() { throw Abandon(); }
    void state(uint64_t h) { if(states) states->insert(h); }
    void outcome(uint64_t h) { if(outcomes) outcomes->insert(h); }
    void set_state_fn(std::function<uint64_t()> fn) { state_fn = std::move(fn); }
    void fact(const std::string &n, const std::string &v) { facts[n] = v; }
    uint64_t hash_bytes(const void *p, size_t n, uint64_t seed)
    {
        auto *b = (const unsigned char *) p;
        uint64_t h = seed;
        for(size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
        h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
        return h;
    }
    bool thorough() { return g_thorough; }
    void add(const std::string &name, int b, std::function<void()> body, int shards, int depth)
    {
        scenarios.push_back({name, b, std::move(body), shards, depth});
    }
    std::string num(long long v) { return std::to_string(v); }
    std::string printable(const std::string &s, size_t max)
    {
        std::string o;
        for(unsigned char c : s)
        {
            if(o.size() > max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
            if(c == '\r') o += "\\r";
            else if(c == '\n') o += "\\n";
            else if(c == '\\') o += "\\\\";
            else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
            else o += (char) c;
        }
        return o;
    }

    // ---- allocation ledger
    Alloc alloc;
    size_t alloc_refuse = (size_t) 256 << 20;
    bool in_body = false;
    void alloc_reset() { alloc = Alloc(); }

    static std::string scratch_dir;
    static pid_t scratch_pid = 0;
    static void scratch_cleanup()
    {
        if(scratch_pid != getpid() || scratch_dir.empty()) return;
        DIR *d = opendir(scratch_dir.c_str());
        if(d)
        {
            while(dirent *e = readdir(d))
                if(strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0) unlink((scratch_dir + "/" + e->d_name).c_str());
            closedir(d);
        }
        rmdir(scratch_dir.c_str());
    }
    std::string scratch()
    {
        if(scratch_dir.empty())
        {
            char t[] = "/tmp/mcXXXXXX";
            if(!mkdtemp(t)) { perror("mkdtemp"); _exit(3); }
            scratch_dir = t; scratch_pid = getpid();
            atexit(scratch_cleanup);
        }
        return scratch_dir;
    }

    int main_(int argc, char **argv)
    {
        using clk = std::chrono::steady_clock;
        started = true;
        auto t0 = real_now();
        std::string tier = "quick", out = "/verif/out", evidence, replay_file, known_file, only;
        int nworkers = 8, time_limit = 600, bound_override = -1;
        bool list = false;
        for(int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string { if(i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return argv[++i]; };
            if(a == "--property") g_prop = val();
            else if(a == "--tier") tier = val();
            else if(a == "--out") out = val();
            else if(a == "--evidence") evidence = val();
            else if(a == "--replay") replay_file = val();
            else if(a == "--known") known_file = val();
            else if(a == "--only") only = val();
            else if(a == "--workers") nworkers = std::stoi(val());
            else if(a == "--time") time_limit = std::stoi(val());
            else if(a == "--bound") bound_override = std::stoi(val());
            else if(a == "--list") list = true;
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
        }
        g_thorough = tier == "thorough";
        main_pid = getpid();
        if(!known_file.empty())
        {
            std::ifstream kf(known_file);
            std::string l;
            while(std::getline(kf, l))
            {
                if(l.compare(0, 14, "known-finding:") != 0 || l.find("property=" + g_prop + " ") == std::string::npos) continue;
                auto k = l.find("key=");
                if(k != std::string::npos) known_keys.insert(l.substr(k + 4, l.find(' ', k) - k - 4));
            }
        }
        mkdir(out.c_str(), 0755);
        mc_register();
        if(!only.empty())
        {
            std::vector<Scenario> keep;
            for(auto &s : scenarios) if(s.name.find(only) != std::string::npos) keep.push_back(s);
            scenarios.swap(keep);
        }
        if(bound_override >= 0) for(auto &s : scenarios) s.bound = bound_override;
        if(list) { for(auto &s : scenarios) printf("%s bound=%d shards=%d\n", s.name.c_str(), s.bound, s.shards); return 0; }
        if(scenarios.empty()) { fprintf(stderr, "no scenarios\n"); return 3; }

        shared = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Slot *slots = (Slot *) mmap(nullptr, sizeof(Slot) * (size_t) (nworkers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

        if(!replay_file.empty())
        {
            slot = &slots[nworkers];
            std::ifstream f(replay_file);
            std::string l, name; std::vector<int> ch; std::vector<Job> history;
            while(std::getline(f, l))
            {
                if(l.compare(0, 11, "--- history") == 0)
                {
                    while(std::getline(f, l) && l != "--- end")
                        for(size_t i = 0; i < scenarios.size(); ++i) if(scenarios[i].name == l.substr(l.find(' ') + 1)) history.push_back({(int) i, std::stoi(l)});
                    continue;
                }
                if(l.compare(0, 10, "scenario: ") == 0) name = l.substr(10);
                if(l.compare(0, 9, "choices: ") == 0) { std::istringstream is(l.substr(9)); int c; while(is >> c) ch.push_back(c); }
            }
            int si = -1;
            for(size_t i = 0; i < scenarios.size(); ++i) if(scenarios[i].name == name) si = (int) i;
            if(si < 0) { fprintf(stderr, "replay: no scenario '%s'\n", name.c_str()); return 3; }
            auto r = replay(si, ch, history.empty() ? 60 : 600, out, history.empty() ? nullptr : &history);
            printf("%s%s\n%s\n", r.trace.c_str(), r.err.c_str(), r.kind ? ("result: " + r.msg).c_str() : "result: property holds on this execution");
            if(r.kind == 0 || r.kind == 5) return 0;
            if(r.kind == 4) return 3;
            printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), replay_file.c_str());
            return 1;
        }

        for(size_t i = 0; i < scenarios.size(); ++i)
            for(int s = 0; s < std::max(1, scenarios[i].shards); ++s)
                jobs.push_back({(int) i, s});
        nworkers = std::min<int>(nworkers, (int) jobs.size());
        deadline = t0 + std::chrono::seconds(time_limit);
        fflush(stdout); fflush(stderr);
        std::vector<pid_t> pids(nworkers);
        std::string base = out + "/" + g_prop + "." + std::to_string(main_pid);
        for(int w = 0; w < nworkers; ++w)
        {
            pid_t p = fork();
            if(p == 0)
            {
                slot = &slots[w];
                int efd = open((base + ".stderr." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(efd, 2); close(efd);
                states = new HashSet; outcomes = new HashSet;
                bool ok = true;
                while(ok && !shared->stop)
                {
                    int j = shared->next_job.fetch_add(1);
                    if(j >= (int) jobs.size()) break;
                    if(slot->njobs < MAXJOBS) slot->job[slot->njobs++] = (uint16_t) j;
                    ok = explore(jobs[j].scen, jobs[j].shard);
                    if(ok && !slot->time_capped && !shared->stop) slot->jobs_done++;
                }
                if(!ok) shared->stop = true;
                slot->state_capped = states->capped;
                write_hashes(base + ".states." + std::to_string(w), *states);
                write_hashes(base + ".outcomes." + std::to_string(w), *outcomes);
                std::ofstream kf(base + ".known." + std::to_string(w));
                for(auto &k : known_seen) kf << k << "\n";
                kf.close();
                if(ok) slot->state = 1;
                fflush(stdout);
                _exit(ok ? 0 : 11);
            }
            pids[w] = p;
        }
        // monitor
        std::vector<uint64_t> lastbeat(nworkers, 0);
        std::vector<clk::time_point> lastt(nworkers, real_now());
        std::vector<int> status(nworkers, -1);
        int alive = nworkers, bad = -1;
        const char *badkind = "";
        while(alive)
        {
            for(int w = 0; w < nworkers; ++w)
            {
                if(status[w] != -1) continue;
                int st;
                if(waitpid(pids[w], &st, WNOHANG) == pids[w])
                {
                    status[w] = st; --alive;
                    if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                    {
                        shared->stop = true;
                        if(bad < 0) { bad = w; badkind = WIFEXITED(st) && WEXITSTATUS(st) == 11 ? "violation" : WIFEXITED(st) && WEXITSTATUS(st) == 3 && slots[w].state == 3 ? "internal" : "crash"; }
                    }
                    continue;
                }
                uint64_t b = slots[w].beat;
                if(b != lastbeat[w]) { lastbeat[w] = b; lastt[w] = real_now(); }
                else if(real_now() - lastt[w] > std::chrono::seconds(20))
                {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); status[w] = st; --alive; shared->stop = true;
                    if(bad < 0) { bad = w; badkind = "hang"; }
                }
            }
            usleep(5000);
        }
        // merge
        std::vector<std::string> sf, of;
        for(int w = 0; w < nworkers; ++w)
        {
            sf.push_back(base + ".states." + std::to_string(w)); of.push_back(base + ".outcomes." + std::to_string(w));
            std::ifstream kf(base + ".known." + std::to_string(w)); std::string l;
            while(std::getline(kf, l)) known_seen.insert(l);
            unlink((base + ".known." + std::to_string(w)).c_str());
            unlink((base + ".stderr." + std::to_string(w)).c_str());
        }
        size_t nstates = merge_hashes(sf), nout = merge_hashes(of);
        uint64_t execs = 0, trans = 0, aband = 0, depth = 0, known = 0, diverged = 0, by_dev[16] = {0};
        int jobs_done = 0; bool scap = false, tcap = false;
        for(int w = 0; w < nworkers; ++w)
        {
            execs += slots[w].execs; trans += slots[w].trans; aband += slots[w].abandoned; diverged += slots[w].diverged; known += slots[w].known;
            depth = std::max(depth, slots[w].maxdepth); jobs_done += slots[w].jobs_done;
            scap |= slots[w].state_capped; tcap |= slots[w].time_capped;
            for(int i = 0; i < 16; ++i) by_dev[i] += slots[w].by_dev[i];
        }
        slot = &slots[nworkers];
        int exitcode = 0;
        std::string vmsg, rfile;
        if(bad >= 0)
        {
            Slot &b = slots[bad];
            int si = b.scen;
            std::vector<int> ch;
            int len = std::min<int>(b.len, MAXCH);
            for(int i = 0; i < len; ++i) ch.push_back(b.ch[i]);
            if(std::string(badkind) == "internal")
            {
                fprintf(stderr, "%s: %s\n", g_prop.c_str(), b.msg);
                exitcode = 2;
            }
            else
            {
                bool first_abort = std::string(badkind) == "hang";
                auto r = replay(si, ch, 60, out);
                std::vector<Job> history;
                if(!first_abort && (r.kind == 0 || r.kind == 4) && b.njobs < MAXJOBS)
                {
                    // not by these choices alone: with all that this process did before?
                    for(int i = 0; i < b.njobs; ++i) history.push_back(jobs[b.job[i]]);
                    auto h = replay(si, ch, 300, out, &history);
                    if(h.kind == 1 || h.kind == 2) { r = h; r.msg += " (depends on what was done before in the same process)"; }
                }
                if(r.kind == 0 || r.kind == 4 || r.kind == 5)
                {
                    fprintf(stderr, "%s: a %s of scenario '%s' did not reproduce on replay (%s) - not reported; first message: %s\n", g_prop.c_str(), badkind, scenarios[si].name.c_str(), r.msg.c_str(), b.has_msg ? b.msg : "-");
                    exitcode = 2;
                }
                else
                {
                    vmsg = r.msg;
                    mkdir((out + "/replays").c_str(), 0755);
                    rfile = out + "/replays/" + g_prop + ".txt";
                    std::ofstream o(rfile);
                    o << "property: " << g_prop << "\ntier: " << tier << "\nscenario: " << scenarios[si].name << "\nchoices:";
                    for(int c : ch) o << " " << c;
                    if(!history.empty()) { o << "\n--- history\n"; for(auto &j : history) o << j.shard << " " << scenarios[j.scen].name << "\n"; o << "--- end"; }
                    o << "\nmessage: " << vmsg << "\n--- trace\n" << r.trace << "--- stderr\n" << r.err << "\n";
                    o.close();
                    printf("%s\n  in scenario: %s\n%s", vmsg.c_str(), scenarios[si].name.c_str(), r.trace.size() < 6000 ? r.trace.c_str() : "");
                    printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), rfile.c_str());
                    exitcode = 1;
                }
            }
        }
        // samples, each replayed twice: identical observations are required
        std::string samples;
        int nsamp = 0; bool det = true;
        for(int w = 0; w < nworkers && nsamp < 5 && exitcode == 0; ++w)
            for(int k = 0; k < slots[w].sample_n && nsamp < 5; ++k)
            {
                auto &sm = slots[w].sample[k];
                if(k != (w % NSAMPLE) && !(slots[w].sample_n == 1)) continue;
                std::vector<int> ch(sm.ch, sm.ch + sm.len);
                auto r1 = replay(sm.scen, ch, 60, out), r2 = replay(sm.scen, ch, 60, out);
                if(r1.trace != r2.trace || r1.kind != r2.kind) { det = false; fprintf(stderr, "%s: two replays of the same choices differ (%s)\n%s---\n%s", g_prop.c_str(), scenarios[sm.scen].name.c_str(), r1.trace.c_str(), r2.trace.c_str()); }
                std::string t = r1.trace;
                if(t.size() > 1500) { t.resize(1500); t += "..."; }
                samples += std::string(nsamp ? ",\n  " : "") + jstr("scenario " + scenarios[sm.scen].name + ":\n" + t);
                ++nsamp;
            }
        if(!det) exitcode = 2;
        double wall = std::chrono::duration<double>(real_now() - t0).count();
        bool complete = exitcode == 0 && jobs_done == (int) jobs.size() && !tcap && !diverged;
        if(diverged) fprintf(stderr, "%s: %llu executions did not follow the choices recorded for them: the code keeps something from one execution to the next\n", g_prop.c_str(), (unsigned long long) diverged);
        for(auto &k : known_seen) printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), k.c_str());
        printf("%s %s: scenarios=%zu executions=%llu states=%zu transitions=%llu outcomes=%zu max_depth=%llu abandoned=%llu complete=%s wall=%.1fs\n", g_prop.c_str(), tier.c_str(), scenarios.size(),
               (unsigned long long) execs, nstates, (unsigned long long) trans, nout, (unsigned long long) depth, (unsigned long long) aband, complete ? "yes" : "no", wall);
        if(!evidence.empty())
        {
            std::ofstream o(evidence);
            const char *seed = getenv("VERIF_SEED");
            int maxb = 0; for(auto &s : scenarios) maxb = std::max(maxb, s.bound);
            o << "{\"property\": " << jstr(g_prop) << ", \"tier\": " << jstr(tier) << ", \"seed\": " << (seed && *seed ? atoi(seed) : 1) << ", \"level\": \"model_checking\",\n \"coverage\": {\n"
              << "  \"states\": " << nstates << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << execs << ",\n"
              << "  \"distinct_outcomes\": " << nout << ",\n  \"scenarios\": " << scenarios.size() << ",\n  \"longest_execution_choice_points\": " << depth << ",\n"
              << "  \"deviation_bound\": " << maxb << ",\n  \"executions_by_deviations\": [";
            for(int i = 0; i <= std::min(15, maxb); ++i) o << (i ? ", " : "") << by_dev[i];
            o << "],\n  \"executions_outside_domain\": " << aband << ",\n  \"known_finding_executions\": " << known << ",\n"
              << "  \"exhaustive\": " << (complete ? "true" : "false") << ",\n";
            if(!complete) o << "  \"cap\": " << jstr(diverged ? "executions that did not repeat their recorded choices: " + std::to_string(diverged) : tcap ? "time limit reached; jobs completed " + std::to_string(jobs_done) + "/" + std::to_string(jobs.size()) : "stopped at a violation") << ",\n";
            if(scap) o << "  \"state_count_is_lower_bound\": true,\n";
            for(auto &f : facts) o << "  " << jstr(f.first) << ": " << f.second << ",\n";
            o << "  \"samples\": [" << samples << "]\n },\n \"assumptions\": [\"every execution runs the real library code; the model is the enumerated environment and the reference oracle of the harness\"],\n"
              << " \"wall_s\": " << wall << ", \"violations\": " << (exitcode == 1 ? 1 : 0) << "}\n";
        }
        return exitcode;
    }
}

// ---- the ledger of blocks ----
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
namespace mc
{
    namespace
    {
        struct Block { const volatile void *p; size_t n; };
        constexpr size_t BLOCKS = 1 << 16;
        Block blocks[BLOCKS]; size_t nblocks = 0, nbytes = 0;
        size_t slot_of(const volatile void *p) { return (size_t) (mix(99, (uint64_t) (uintptr_t) p) & (BLOCKS - 1)); }
        void block_add(const volatile void *p, size_t n)
        {
            if(!p || nblocks > BLOCKS / 2) return;
            size_t i = slot_of(p);
            while(blocks[i].p && blocks[i].p != p) i = (i + 1) & (BLOCKS - 1);
            if(blocks[i].p) nbytes -= blocks[i].n; else ++nblocks;
            blocks[i] = {p, n}; nbytes += n;
        }
        void block_del(const volatile void *p)
        {
            if(!nblocks || !p) return;
            size_t i = slot_of(p);
            while(blocks[i].p && blocks[i].p != p) i = (i + 1) & (BLOCKS - 1);
            if(!blocks[i].p) return;
            nbytes -= blocks[i].n; --nblocks;
            for(size_t j = i;;)            // close the gap
            {
                blocks[i].p = nullptr;
                for(;;)
                {
                    j = (j + 1) & (BLOCKS - 1);
                    if(!blocks[j].p) return;
                    size_t k = slot_of(blocks[j].p);
                    if(i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                    break;
                }
                blocks[i] = blocks[j]; i = j;
            }
        }
        void on_malloc(const volatile void *p, size_t n) { if(mem_inside > 0) block_add(p, n); }
        void on_free(const volatile void *p) { block_del(p); }
    }
    Inside::Inside() { static bool hooked = __sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void) hooked; ++mem_inside; }
    Inside::~Inside() { --mem_inside; }
    Outside::Outside() : was(mem_inside) { mem_inside = 0; }
    Outside::~Outside() { mem_inside = was; }
    void mem_begin() { if(nblocks) { memset(blocks, 0, sizeof blocks); nblocks = nbytes = 0; } }
    size_t mem_live() { return nbytes; }
    std::string mem_report()
    {
        std::vector<size_t> v; for(auto &b : blocks) if(b.p) v.push_back(b.n);
        std::sort(v.rbegin(), v.rend());
        std::string r = std::to_string(v.size()) + " block" + (v.size() == 1 ? "" : "s") + " of";
        for(size_t i = 0; i < v.size() && i < 6; ++i) r += " " + std::to_string(v[i]);
        return r + (v.size() > 6 ? " ... bytes" : " bytes");
    }
    void mem_claim(void *p, size_t n) { if(p) block_add(p, n); }
}

void *operator new(size_t n)
{
    if(n > mc::alloc.largest) mc::alloc.largest = n;
    ++mc::alloc.count;
    if(n > mc::alloc_refuse && mc::in_body) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    mc::alloc.live += malloc_usable_size(p);
    if(mc::alloc.live > mc::alloc.peak && mc::alloc.live < ((size_t) 1 << 62)) mc::alloc.peak = mc::alloc.live;
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void operator delete(void *p) noexcept { if(p) mc::alloc.live -= malloc_usable_size(p); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=1024"; }

int main(int argc, char **argv) { return mc::main_(argc, argv); }
