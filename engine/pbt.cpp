#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#ifndef PBT_CHECK_ID
#define PBT_CHECK_ID "X"
#endif

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=1024:"
#ifdef PBT_UAR
           "detect_stack_use_after_return=1:"
#else
           "detect_stack_use_after_return=0:" // makes throwing several times faster
#endif
           "quarantine_size_mb=64:malloc_context_size=12:handle_abort=1:print_scariness=0:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
extern "C" const char* __tsan_default_options() { return "exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=4"; }

namespace pbt {

std::vector<Part>& parts() { static std::vector<Part> p; return p; }
std::string where(const char* f, int l) {
    const char* b = std::strrchr(f, '/');
    return std::string(b ? b + 1 : f) + ":" + std::to_string(l) + ": ";
}
std::string hex(const void* p, size_t n, size_t max) {
    static const char* d = "0123456789abcdef";
    std::string o;
    auto c = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n && i < max; ++i) { o += d[c[i] >> 4]; o += d[c[i] & 15]; }
    if (n > max) o += "...(" + std::to_string(n) + " bytes)";
    return o;
}

uint64_t Gen::draw(uint64_t bound) {
    uint64_t v = 0;
    const uint64_t k = rec_n ? *rec_n : 0;
    if (rec_n && k >= rec_cap) return 0; // sequence full: simplest alternative from here on
    switch (mode) {
        case Random:
            v = rng.next();
            if (bound != ~0ull) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * (bound + 1)) >> 64);
            break;
        case Replay:
            v = pos < in_n ? in[pos] : 0;
            if (v > bound) v = bound;
            ++pos;
            break;
        case Bytes: {
            int nb = 1; while (nb < 8 && (bound >> (8 * nb))) ++nb;
            for (int i = 0; i < nb && b_pos < b_n; ++i) v |= uint64_t(b[b_pos++]) << (8 * i);
            if (bound != ~0ull) v %= bound + 1;
            break;
        }
    }
    if (rec_n) { rec[k] = v; *rec_n = k + 1; }
    return v;
}
void Gen::fill(uint8_t* p, size_t n) {
    if (n <= 24) { for (size_t i = 0; i < n; ++i) p[i] = uint8_t(draw(255)); return; }
    const uint64_t s = u64();
    if (s == 0) { std::memset(p, 0, n); return; }
    Rng r{s};
    for (size_t i = 0; i < n; ++i) p[i] = uint8_t(r.next() >> 32);
}

namespace {

constexpr size_t CAP = 1u << 17;
struct Slot {
    std::atomic<uint64_t> seq{0};   // number of cases started
    std::atomic<uint64_t> part{0}, idx{0};
    std::atomic<int> state{0};      // 0 running, 1 failed, 2 finished
    std::atomic<uint64_t> evals{0};
    volatile uint64_t n = 0;
    char msg[8192] = {};
    char desc[16384] = {};
    uint64_t choices[CAP] = {};
};
Slot* new_slot() {
    void* m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return new (m) Slot;
}
uint64_t hash_str(std::string_view s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; } return h; }
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double cpu_of(pid_t pid) {
    clockid_t c; timespec t;
    if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return 0;
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
void put(char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); std::memcpy(d, s.data(), k); d[k] = 0; }

// Runs one case; true if it failed (message in msg).
bool run_case(const Part& p, Gen& g, std::string& msg) {
    try { p.fn(g); return false; }
    catch (const Failure& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); }
    catch (...) { msg = "unexpected non-standard exception"; }
    return true;
}

struct Options {
    std::string tier = "quick", outdir = ".", stats = "", replay, from_bytes, only, replays;
    uint64_t seed = 1; unsigned workers = 8; double cap = 500, scale = 1, hang = 60;
    bool list = false, dump = false;
} opt;

std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
std::string crash_summary(const std::string& file) {
    std::string t = slurp(file), out; std::istringstream is(t); std::string l; int frames = 0;
    while (std::getline(is, l)) {
        if (l.find("SUMMARY:") != std::string::npos || l.find("runtime error:") != std::string::npos ||
            l.find("ERROR:") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("Assertion") != std::string::npos)
            out += l + "\n";
        else if (frames < 12 && l.find("zerialize/") != std::string::npos && l.find("    #") != std::string::npos) { out += l + "\n"; ++frames; }
    }
    if (out.empty()) out = t.substr(0, 2000);
    return out.substr(0, 6000);
}

enum TrialResult { Pass, Fail, Crash, Hang };
struct Trial { TrialResult r = Pass; std::string msg, desc; std::vector<uint64_t> used; };

Slot* trial_slot = nullptr;
void redirect(const std::string& f) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }

Trial trial_impl(const Part& p, const std::vector<uint64_t>* ch, const std::string* bytes, double cpu_limit) {
    if (!trial_slot) trial_slot = new_slot();
    trial_slot->n = 0; trial_slot->state = 0; trial_slot->msg[0] = 0; trial_slot->desc[0] = 0;
    const std::string errf = opt.outdir + "/trial.err";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        redirect(errf);
        rlimit rl{rlim_t(cpu_limit), rlim_t(cpu_limit) + 5}; setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
        Gen g;
        if (ch) { g.mode = Gen::Replay; g.in = ch->data(); g.in_n = ch->size(); }
        else { g.mode = Gen::Bytes; g.b = reinterpret_cast<const uint8_t*>(bytes->data()); g.b_n = bytes->size(); }
        g.rec = trial_slot->choices; g.rec_n = &trial_slot->n; g.rec_cap = CAP;
        g.want_desc = true;
        g.on_desc = [](const std::string& d) { put(trial_slot->desc, sizeof trial_slot->desc, d); };
        std::string m;
        bool f = run_case(p, g, m);
        put(trial_slot->msg, sizeof trial_slot->msg, m);
        put(trial_slot->desc, sizeof trial_slot->desc, g.desc);
        trial_slot->state = f ? 1 : 2;
        _exit(f ? 10 : 0);
    }
    Trial t; int st = 0; double t0 = now(); bool timed = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > 6 * cpu_limit + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timed = true; break; }
        usleep(300);
    }
    t.used.assign(trial_slot->choices, trial_slot->choices + trial_slot->n);
    t.desc = trial_slot->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) t.r = Pass;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && trial_slot->state == 1) { t.r = Fail; t.msg = trial_slot->msg; }
    else if (timed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) { t.r = timed ? Pass : Hang; t.msg = "the case does not terminate"; }
    else {
        t.r = Crash;
        t.msg = WIFSIGNALED(st) ? "crash: " + std::string(strsignal(WTERMSIG(st))) + "\n" : std::string("sanitizer or abort:\n");
        t.msg += crash_summary(errf);
    }
    return t;
}
bool bad(const Part& p, const Trial& t) { return t.r == Fail || t.r == Crash || (t.r == Hang && p.terminates); }

std::vector<uint64_t> shrink(const Part& p, std::vector<uint64_t> c, bool hang) {
    const double t0 = now(); const double budget = hang ? 1 : 60; int trials = 0;
    auto ok = [&](const std::vector<uint64_t>& x, std::vector<uint64_t>& keep) {
        if (now() - t0 > budget || trials > 6000) return false;
        ++trials;
        Trial t = trial_impl(p, &x, nullptr, 20);
        if (!(t.r == Fail || t.r == Crash)) return false;
        // what was actually consumed, without trailing zeros, reproduces the same run
        auto u = t.used; while (!u.empty() && u.back() == 0) u.pop_back();
        if (u.size() > x.size()) u = x;
        keep = u;
        return true;
    };
    if (hang) return c;
    std::vector<uint64_t> k;
    while (!c.empty() && c.back() == 0) c.pop_back();
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
        for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1; len /= 2) { // delete blocks
            for (size_t i = 0; i + len <= c.size();) {
                auto x = c; x.erase(x.begin() + long(i), x.begin() + long(i + len));
                if (ok(x, k) && less(k, c)) { c = k; progress = true; } else i += len;
                if (now() - t0 > budget) return c;
            }
            if (len == 1) break;
        }
        for (size_t len = std::max<size_t>(1, c.size() / 4); len >= 1; len /= 2) { // zero blocks
            for (size_t i = 0; i + len <= c.size(); i += len) {
                auto x = c; bool ch = false;
                for (size_t j = i; j < i + len; ++j) if (x[j]) { x[j] = 0; ch = true; }
                if (ch && ok(x, k) && less(k, c)) { c = k; progress = true; }
                if (now() - t0 > budget) return c;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < c.size(); ++i) { // minimise single choices
            uint64_t lo = 0, hi = c[i];
            while (lo < hi && i < c.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto x = c; x[i] = mid;
                if (ok(x, k) && less(k, c)) { c = k; progress = true; hi = mid; if (i < c.size() && c[i] < hi) hi = c[i]; } else lo = mid + 1;
                if (now() - t0 > budget) return c;
            }
        }
    }
    return c;
}

std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

bool write_replay(const std::string& f, const Part& p, const std::vector<uint64_t>& c, const Trial& t) {
    std::ofstream o(f);
    o << "check " << PBT_CHECK_ID << "\npart " << p.name << "\nchoices";
    for (auto v : c) o << ' ' << v;
    o << "\n";
    std::string m = t.msg + "\n--- case ---\n" + t.desc; std::istringstream is(m); std::string l;
    while (std::getline(is, l)) o << "# " << l << "\n";
    return bool(o);
}

// Shrinks and confirms a failing sequence. Returns true (and prints VIOLATION) if it is real.
bool report(const Part& p, std::vector<uint64_t> c, bool hang) {
    // A failure must reproduce from its choices before anything is said about it.
    int bads = 0; Trial t;
    const int tries = 12;
    for (int i = 0; i < tries && bads < 3; ++i) { Trial x = trial_impl(p, &c, nullptr, opt.hang); if (bad(p, x)) { ++bads; t = x; if (x.r == Hang && bads == 2) bads = 3; } else if (i >= 3 && bads == 0) break; }
    if (bads < 3) return false;
    auto s = shrink(p, c, hang);
    int sb = 0; Trial st;
    for (int i = 0; i < (hang ? 0 : tries) && sb < 3; ++i) { Trial x = trial_impl(p, &s, nullptr, opt.hang); if (bad(p, x)) { ++sb; st = x; } }
    if (sb < 3) { s = c; st = t; }
    std::string nm = p.name; for (char& c : nm) if (c == '/') c = '-';
    const std::string f = (opt.replays.empty() ? opt.outdir : opt.replays) + "/" PBT_CHECK_ID "-" + nm + ".replay";
    write_replay(f, p, s, st);
    std::printf("FAILED part=%s (%zu choices after shrinking)\n%s\n--- case ---\n%s\n", p.name.c_str(), s.size(), st.msg.c_str(), st.desc.c_str());
    std::printf("VIOLATION property=%s replay=%s\n", PBT_CHECK_ID, f.c_str());
    std::fflush(stdout);
    return true;
}

constexpr unsigned ROUNDS = 8;
struct Pos { unsigned round = 0; size_t part = 0; uint64_t idx = 0; bool fresh = true; };

std::vector<uint64_t> counts;
uint64_t round_begin(uint64_t n, unsigned r) { return n * r / ROUNDS; }

void worker(unsigned w, Slot* s, Pos from) {
    redirect(opt.outdir + "/w" + std::to_string(w) + ".err");
    rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::map<size_t, int> sampled;
    const size_t W = opt.workers;
    uint64_t nontriv = 0;
    const auto stats_file = opt.outdir + "/w" + std::to_string(w) + "." + std::to_string(getpid());
    auto dump = [&] {
        std::ofstream o(stats_file + ".stats");
        o << "nontrivial " << nontriv << "\n";
        for (auto& [k, v] : labels) o << "label " << v << ' ' << k << "\n";
        for (auto& x : samples) { std::string y = x; for (auto& ch : y) if (ch == '\n') ch = '\x01'; o << "sample " << y << "\n"; }
        std::ofstream h(stats_file + ".hash", std::ios::binary);
        for (auto x : seen) h.write(reinterpret_cast<const char*>(&x), 8);
    };
    double last = now();
    for (unsigned r = from.round; r < ROUNDS; ++r) {
        for (size_t pi = (r == from.round ? from.part : 0); pi < parts().size(); ++pi) {
            const Part& p = parts()[pi];
            const uint64_t lo = round_begin(counts[pi], r), hi = round_begin(counts[pi], r + 1);
            uint64_t i = lo + ((w + W - lo % W) % W);
            if (!from.fresh && r == from.round && pi == from.part) i = from.idx + W;
            std::map<std::string, uint64_t> local;
            const double part_t0 = now();
            for (; i < hi; i += W) {
                s->part = pi; s->idx = i; s->n = 0; s->seq.fetch_add(1);
                Gen g;
                uint64_t h = hash_str(PBT_CHECK_ID, 1469598103934665603ull ^ opt.seed);
                h = hash_str(p.name, h);
                g.rng = Rng{h ^ (i * 0xd1342543de82ef95ull)};
                g.rng.next();
                g.rec = s->choices; g.rec_n = &s->n; g.rec_cap = CAP;
                g.stats = &local;
                g.want_desc = sampled[pi] < 2 && i >= lo;
                std::string m;
                if (run_case(p, g, m)) { put(s->msg, sizeof s->msg, m); s->state = 1; dump(); _exit(10); }
                s->evals.fetch_add(1);
                if (g.nontrivial_) {
                    ++nontriv;
                    ++local["(nontrivial)"];
                    uint64_t ch = 1469598103934665603ull + pi;
                    const uint64_t n = s->n;
                    for (uint64_t k = 0; k < n; ++k) { ch ^= s->choices[k]; ch *= 1099511628211ull; ch ^= ch >> 31; }
                    if (seen.size() < 3000000) seen.insert(ch);
                    if (g.want_desc && !g.desc.empty()) { ++sampled[pi]; if (w == pi % W || w == (pi + 3) % W) samples.push_back("[" + p.name + "] " + g.desc.substr(0, 600)); }
                }
                ++local["(cases)"];
            }
            if (!local.empty()) local["(ms)"] += uint64_t((now() - part_t0) * 1000);
            for (auto& [k, v] : local) labels[p.name + ": " + k] += v;
            if (now() - last > 5) { dump(); last = now(); }
        }
    }
    dump();
    s->state = 2;
    _exit(0);
}

int search() {
    const double t0 = now();
    const unsigned W = opt.workers;
    for (auto& p : parts()) {
        double n = double(opt.tier == "thorough" ? p.thorough : p.quick) * opt.scale;
        if (!opt.only.empty() && p.name.find(opt.only) == std::string::npos) n = 0;
        counts.push_back(uint64_t(n));
    }
    std::vector<Slot*> slots(W); std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> last_seq(W, ~0ull); std::vector<double> seq_cpu(W, 0);
    auto start = [&](unsigned w, Pos from) {
        std::fflush(nullptr);
        slots[w]->state = 0; slots[w]->n = 0;
        pid_t pid = fork();
        if (pid == 0) worker(w, slots[w], from);
        pids[w] = pid; last_seq[w] = ~0ull;
    };
    for (unsigned w = 0; w < W; ++w) { slots[w] = new_slot(); start(w, Pos{}); }
    struct Cand { size_t part; uint64_t idx; std::vector<uint64_t> c; bool hang; std::string msg; };
    int skipped = 0; bool capped = false; int violations = 0;
    std::vector<std::string> notes;
    auto position = [&](unsigned w) {
        Pos f; f.part = slots[w]->part; f.idx = slots[w]->idx; f.fresh = false;
        while (f.round + 1 < ROUNDS && f.idx >= round_begin(counts[f.part], f.round + 1)) ++f.round;
        return f;
    };
    for (;;) {
        bool alive = false;
        std::vector<std::pair<unsigned, Cand>> cands;
        for (unsigned w = 0; w < W; ++w) {
            if (!pids[w]) continue;
            int st = 0;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == 0) {
                alive = true;
                const uint64_t sq = slots[w]->seq; const double c = cpu_of(pids[w]);
                if (sq != last_seq[w]) { last_seq[w] = sq; seq_cpu[w] = c; }
                else if (c - seq_cpu[w] > opt.hang) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0;
                    Cand k{slots[w]->part, slots[w]->idx, {slots[w]->choices, slots[w]->choices + slots[w]->n}, true, "hang"};
                    cands.push_back({w, std::move(k)});
                }
                continue;
            }
            pids[w] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->state == 2) continue;
            Cand k{slots[w]->part, slots[w]->idx, {slots[w]->choices, slots[w]->choices + slots[w]->n}, false, slots[w]->msg};
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { k.msg = "killed (memory?)"; }
            cands.push_back({w, std::move(k)});
        }
        for (auto& [w, k] : cands) {
            const Part& p = parts()[k.part];
            if (violations) continue;
            if (k.hang && !p.terminates) { ++skipped; notes.push_back("case of part " + p.name + " skipped: too slow"); start(w, position(w)); alive = true; continue; }
            // stop the others while the failure is examined
            for (auto q : pids) if (q) kill(q, SIGSTOP);
            if (report(p, k.c, k.hang)) { ++violations; }
            else {
                ++skipped;
                notes.push_back("failure of part " + p.name + " case " + std::to_string(k.idx) + " did not reproduce: " + k.msg.substr(0, 300));
                std::fprintf(stderr, "note: %s\n", notes.back().c_str());
                for (auto q : pids) if (q) kill(q, SIGCONT);
                if (skipped < 50) { start(w, position(w)); alive = true; }
            }
        }
        if (violations) { for (auto& q : pids) if (q) { kill(q, SIGKILL); int st; waitpid(q, &st, 0); q = 0; } break; }
        if (!alive && cands.empty()) break;
        if (now() - t0 > opt.cap) {
            capped = true; notes.push_back("time cap reached before all cases were run");
            for (auto& q : pids) if (q) { kill(q, SIGKILL); int st; waitpid(q, &st, 0); q = 0; }
            break;
        }
        usleep(20000);
    }
    // ---- merge statistics ----
    uint64_t evals = 0; for (auto* s : slots) evals += s->evals;
    std::map<std::string, uint64_t> labels; std::vector<std::string> samples; uint64_t nontriv = 0;
    std::set<uint64_t> dummy; std::vector<uint64_t> hs;
    std::string cmd;
    {
        FILE* f = popen(("ls " + opt.outdir).c_str(), "r"); char b[512];
        while (f && std::fgets(b, sizeof b, f)) {
            std::string n(b); while (!n.empty() && n.back() == '\n') n.pop_back();
            if (n.size() > 6 && n.substr(n.size() - 6) == ".stats") {
                std::ifstream i(opt.outdir + "/" + n); std::string l;
                while (std::getline(i, l)) {
                    if (l.rfind("nontrivial ", 0) == 0) nontriv += std::stoull(l.substr(11));
                    else if (l.rfind("label ", 0) == 0) { size_t e = l.find(' ', 6); labels[l.substr(e + 1)] += std::stoull(l.substr(6, e - 6)); }
                    else if (l.rfind("sample ", 0) == 0) { for (auto& ch : l) if (ch == '\x01') ch = '\n'; samples.push_back(l.substr(7)); }
                }
            } else if (n.size() > 5 && n.substr(n.size() - 5) == ".hash") {
                std::string d = slurp(opt.outdir + "/" + n);
                const size_t at = hs.size(); hs.resize(at + d.size() / 8); std::memcpy(hs.data() + at, d.data(), d.size() / 8 * 8);
            }
        }
        if (f) pclose(f);
    }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    if (!opt.stats.empty()) {
        std::ofstream o(opt.stats);
        o << "{\"evaluations\": " << evals << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << hs.size()
          << ", \"violations\": " << violations << ", \"skipped\": " << skipped << ", \"time_capped\": " << (capped ? "true" : "false") << ",\n \"labels\": {";
        bool first = true;
        for (auto& [k, v] : labels) { o << (first ? "" : ", ") << json_str(k) << ": " << v; first = false; }
        o << "},\n \"samples\": [";
        for (size_t i = 0; i < samples.size() && i < 24; ++i) o << (i ? ", " : "") << json_str(samples[i]);
        o << "],\n \"notes\": [";
        for (size_t i = 0; i < notes.size(); ++i) o << (i ? ", " : "") << json_str(notes[i]);
        o << "]}\n";
    }
    std::printf("%s: %llu cases, %zu distinct non-trivial, %d violation(s), %d skipped%s, %.1f s\n", PBT_CHECK_ID, (unsigned long long)evals, hs.size(), violations, skipped, capped ? ", TIME CAP" : "", now() - t0);
    return violations ? 1 : 0;
}

int replay_file(const std::string& f) {
    std::ifstream i(f); std::string l, part; std::vector<uint64_t> c;
    while (std::getline(i, l)) {
        if (l.rfind("part ", 0) == 0) part = l.substr(5);
        if (l.rfind("choices", 0) == 0) { std::istringstream s(l.substr(7)); uint64_t v; while (s >> v) c.push_back(v); }
    }
    for (auto& p : parts()) if (p.name == part) {
        Trial t = trial_impl(p, &c, nullptr, opt.hang);
        std::printf("part %s: %s\n%s\n--- case ---\n%s\n", part.c_str(), bad(p, t) ? "FAILED" : "passed", t.msg.c_str(), t.desc.c_str());
        if (bad(p, t)) { std::printf("VIOLATION property=%s replay=%s\n", PBT_CHECK_ID, f.c_str()); return 1; }
        return 0;
    }
    std::printf("no such part: %s\n", part.c_str());
    return 2;
}
int from_bytes(const std::string& f) {
    std::string d = slurp(f);
    if (d.empty()) return 0;
    const Part& p = parts()[uint8_t(d[0]) % parts().size()];
    std::string rest = d.substr(1);
    Trial t = trial_impl(p, nullptr, &rest, opt.hang);
    if (!bad(p, t)) { std::printf("input does not fail\n"); return 0; }
    return report(p, t.used, t.r == Hang) ? 1 : 0;
}
} // namespace
} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    using namespace pbt;
    static const bool sorted = (std::sort(parts().begin(), parts().end(), [](auto& a, auto& b) { return a.name < b.name; }), true);
    (void)sorted;
    if (n < 2) return 0;
    const Part& p = parts()[d[0] % parts().size()];
    Gen g; g.mode = Gen::Bytes; g.b = d + 1; g.b_n = n - 1;
    std::string m;
    if (run_case(p, g, m)) { std::fprintf(stderr, "PBT failure in %s: %s\n", p.name.c_str(), m.c_str()); std::abort(); }
    return 0;
}
#else
int main(int argc, char** argv) {
    using namespace pbt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") opt.tier = v(); else if (a == "--seed") opt.seed = std::stoull(v());
        else if (a == "--workers") opt.workers = unsigned(std::stoul(v())); else if (a == "--outdir") opt.outdir = v(); else if (a == "--replays") opt.replays = v();
        else if (a == "--stats") opt.stats = v(); else if (a == "--cap") opt.cap = std::stod(v());
        else if (a == "--scale") opt.scale = std::stod(v()); else if (a == "--replay") opt.replay = v();
        else if (a == "--from-bytes") opt.from_bytes = v(); else if (a == "--only") opt.only = v();
        else if (a == "--hang") opt.hang = std::stod(v()); else if (a == "--list") opt.list = true;
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    std::sort(parts().begin(), parts().end(), [](auto& a, auto& b) { return a.name < b.name; });
    if (opt.list) { for (auto& p : parts()) std::printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough); return 0; }
    if (!opt.replay.empty()) return replay_file(opt.replay);
    if (!opt.from_bytes.empty()) return from_bytes(opt.from_bytes);
    return search();
}
#endif
