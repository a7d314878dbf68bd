// Native side of the contract primitives: replays a verifier counterexample against the real code, and searches
// for failing inputs (used to confirm failed obligations and as the bounded stand-in of undecided ones).
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <ctime>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vp.h"

namespace {
struct reject {};
struct value { char kind; uint64_t i = 0; std::vector<uint64_t> v; };
std::map<std::string, std::deque<value>> script;
bool replaying = false;
bool logging = false;
uint64_t rs;
uint64_t rnd() { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
std::vector<uint64_t> recent;
struct shared { uint64_t iter; uint64_t done; uint64_t rejected; uint64_t nontrivial; char fail[256]; };
shared* sh;
uint64_t mask(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
uint64_t hashv; // of the values drawn in this run

uint64_t rand_int(unsigned bits)
{
    uint64_t r = 0;
    switch (below(10))
    {
        case 0: case 1: r = below(5); break;
        case 2: r = below(40); break;
        case 3: r = (uint64_t)0 - below(20); break;
        case 4: r = (1ull << below(bits)) + below(5) - 2; break;
        case 5: r = mask(bits) - below(3); break;
        case 6: r = (1ull << (bits - 1)) + below(5) - 2; break;
        case 7: if (!recent.empty()) { r = recent[below(recent.size())] + below(5) - 2; break; } [[fallthrough]];
        case 8: r = below(5000); break;
        default: r = rnd() & rnd() >> below(32); break;
    }
    return r & mask(bits);
}
void log_int(const char* n, uint64_t v) { hashv = hashv * 1099511628211ull ^ v; if (logging) printf("IN int %s %llu\n", n, (unsigned long long)v); }
} // namespace

extern "C" {
void vp_register(const char* n, void (*f)()) { reg()[n] = f; }
bool vp_symbolic() { return false; }
void vp_assume(bool c) { if (!c) throw reject(); }
void vp_fail(const char* name)
{
    strncpy(sh->fail, name, sizeof(sh->fail) - 1);
    if (logging) { printf("FAIL %s\n", name); fflush(stdout); }
    _exit(3);
}
void vp_assert_(bool c, const char* name) { if (!c) vp_fail(name); }
void vp_cover_(const char*) {}
void vp_unresolved(const char* n) { write(2, "unresolved ", 11); write(2, n, strlen(n)); write(2, "\n", 1); _exit(77); }
uint64_t vp_nondet(const char* name, unsigned bits)
{
    uint64_t r;
    if (replaying)
    {
        auto& q = script[name];
        if (q.empty()) r = 0; else { r = q.front().i; q.pop_front(); }
        r &= mask(bits);
    }
    else r = rand_int(bits);
    recent.push_back(r);
    log_int(name, r);
    return r;
}
uint64_t vp_range_(const char* name, uint64_t lo, uint64_t hi)
{
    uint64_t r;
    if (replaying)
    {
        auto& q = script[name];
        if (q.empty()) r = lo; else { r = q.front().i; q.pop_front(); }
        if ((int64_t)r < (int64_t)lo || (int64_t)r > (int64_t)hi) throw reject();
    }
    else
    {
        uint64_t span = hi - lo + 1;
        switch (below(5)) {
            case 0: r = lo + below(span < 6 ? span : 6); break;
            case 1: r = hi - below(span < 6 ? span : 6); break;
            case 2: if (!recent.empty()) { r = recent[below(recent.size())] + below(5) - 2; if ((int64_t)r >= (int64_t)lo && (int64_t)r <= (int64_t)hi) break; } [[fallthrough]];
            case 3: { r = lo + (span ? below(span < 64 ? span : 64) : rnd()); break; }
            default: r = span ? lo + below(span) : rnd(); break;
        }
    }
    recent.push_back(r);
    log_int(name, r);
    return r;
}
void vp_make_string(std::string* s, const char* name, const char* alphabet)
{
    s->clear();
    if (replaying)
    {
        auto& q = script[name];
        if (!q.empty()) { for (auto c : q.front().v) s->push_back((char)c); q.pop_front(); }
    }
    else
    {
        size_t n = below(4) ? below(9) : (below(6) ? below(40) : below(8) ? below(400) : below(9000));
        size_t al = alphabet ? strlen(alphabet) : 0;
        unsigned mode = below(6);
        static const char* frag[] = { "\r\n", "\n", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "'", "''", "&", "&&", "0", " ", "(", ")", ",", "\xc0", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xff" };
        while (s->size() < n)
        {
            if (al && (mode < 4 || below(3))) s->push_back(alphabet[below(al)]);
            else if (mode == 5) s->push_back((char)rnd());
            else if (mode == 4) *s += frag[below(sizeof(frag) / sizeof(*frag))];
            else switch (below(6)) {
                case 0: s->push_back((char)rnd()); break;
                case 1: *s += frag[below(sizeof(frag) / sizeof(*frag))]; break;
                case 2: s->push_back('0' + below(10)); break;
                default: s->push_back(' ' + below(95)); break;
            }
        }
        if (below(3) == 0 && al) while (s->size() > n) s->pop_back();
    }
    for (char c : *s) hashv = hashv * 1099511628211ull ^ (unsigned char)c;
    if (logging) { printf("IN str %s", name); for (char c : *s) printf(" %u", (unsigned)(unsigned char)c); printf("\n"); }
}
void vp_make_string_of(std::string* s, const char* name, const char* alphabet)
{
    s->clear();
    if (replaying)
    {
        auto& q = script[name];
        if (!q.empty()) { for (auto c : q.front().v) s->push_back((char)c); q.pop_front(); }
        for (char c : *s) if (!c || !strchr(alphabet, c)) throw reject();
    }
    else
    {
        size_t n = below(4) ? below(9) : (below(6) ? below(40) : below(8) ? below(400) : below(9000));
        size_t al = strlen(alphabet);
        while (s->size() < n) s->push_back(alphabet[below(al)]);
    }
    for (char c : *s) hashv = hashv * 1099511628211ull ^ (unsigned char)c;
    if (logging) { printf("IN str %s", name); for (char c : *s) printf(" %u", (unsigned)(unsigned char)c); printf("\n"); }
}
void vp_make_vec(std::vector<size_t>* s, const char* name)
{
    s->clear();
    if (replaying)
    {
        auto& q = script[name];
        if (!q.empty()) { for (auto c : q.front().v) s->push_back(c); q.pop_front(); }
    }
    else
    {
        size_t n = below(6);
        while (s->size() < n) s->push_back(below(2) ? below(20) : rand_int(64));
    }
    for (auto c : *s) hashv = hashv * 1099511628211ull ^ c;
    if (logging) { printf("IN vec %s", name); for (auto c : *s) printf(" %llu", (unsigned long long)c); printf("\n"); }
}
void vp_ghost_(void*, size_t, void (*)(void*), bool (*)(void*), const char*) {}
void vp_note(size_t) {}
bool vp_unrolling() { return true; }
}

static int run(void (*f)())
{
    recent.clear();
    hashv = 1469598103934665603ull;
    try { f(); }
    catch (reject&) { return 1; }
    catch (std::exception& e) { vp_fail((std::string("no-uncaught-exception: ") + e.what()).c_str()); }
    catch (...) { vp_fail("no-uncaught-exception"); }
    return 0;
}

int main(int argc, char** argv)
{
    sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 3) { for (auto& [n, f] : reg()) puts(n.c_str()); return 2; }
    auto it = reg().find(argv[1]);
    if (it == reg().end()) { puts("NOENTRY"); return 2; }
    std::string mode = argv[2];
    if (mode == "replay")
    {
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line))
        {
            std::istringstream l(line);
            std::string tag, kind, name;
            l >> tag >> kind >> name;
            if (tag != "IN") continue;
            value v; v.kind = kind[0];
            uint64_t x;
            while (l >> x) v.v.push_back(x);
            if (!v.v.empty()) v.i = v.v[0];
            script[name].push_back(v);
        }
        replaying = logging = true;
        int r = run(it->second);
        puts(r ? "REJECT" : "OK");
        return r ? 4 : 0;
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10), from = 0;
    if (mode == "one")
    {
        logging = true;
        rs = seed * 1000003 + strtoull(argv[4], nullptr, 10) * 7919 + 17; rnd(); rs ^= rnd();
        int r = run(it->second);
        puts(r ? "REJECT" : "OK");
        return 0;
    }
    double secs = atof(argv[4]);
    uint64_t maxit = argc > 5 ? strtoull(argv[5], nullptr, 10) : 200000;
    time_t t0 = time(nullptr);
    struct timespec a; clock_gettime(CLOCK_MONOTONIC, &a);
    pid_t p = fork();
    if (p == 0)
    {
        freopen("/dev/null", "w", stderr);
        std::vector<bool> seen(1 << 20);
        for (uint64_t i = from; i < maxit; ++i)
        {
            sh->iter = i;
            rs = seed * 1000003 + i * 7919 + 17; rnd(); rs ^= rnd();
            alarm(20);
            int r = run(it->second);
            if (r) ++sh->rejected;
            else { ++sh->done; auto h = hashv & ((1 << 20) - 1); if (!seen[h]) { seen[h] = true; ++sh->nontrivial; } }
            if ((i & 15) == 0) { struct timespec b; clock_gettime(CLOCK_MONOTONIC, &b); if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break; }
        }
        _exit(0);
    }
    int stt = 0;
    waitpid(p, &stt, 0);
    printf("RUNS %llu REJECTED %llu DISTINCT %llu\n", (unsigned long long)sh->done, (unsigned long long)sh->rejected, (unsigned long long)sh->nontrivial);
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { puts("NONE"); return 0; }
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 77) { puts("UNRESOLVED"); return 0; }
    printf("FOUND %llu %s\n", (unsigned long long)sh->iter, sh->fail[0] ? sh->fail : (WIFSIGNALED(stt) ? strsignal(WTERMSIG(stt)) : "sanitizer"));
    return 3;
}
