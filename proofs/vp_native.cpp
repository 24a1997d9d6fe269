// Native meaning of the contract vocabulary: runs a proof_* entry against the
// real header, either replaying a recorded model or drawing random values.
//   prog replay <file>            exit 0 held, 1 violated, 77 precondition not met
//   prog random <seed> <seconds>  exit 0 held, 1 violated (prints the seed)
#include "vp.h"
#include <chrono>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" void VP_ENTRY();

namespace
{
struct rec {
    char k;
    std::uint64_t v = 0;
    std::vector<unsigned char> bytes;
};
std::vector<rec> records;
std::size_t next_rec;
struct uf {
    std::uint64_t other = 0;
    std::map<std::vector<std::uint64_t>, std::uint64_t> t;
};
std::map<std::pair<std::uint32_t, int>, uf> ufs;
bool replaying;
std::uint64_t rng;
std::jmp_buf jump;
bool throw_ok;
long live;
bool counting;
FILE * trace;

struct regs {
    const char * b;
    std::size_t n;
};

std::uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull;
}
std::uint64_t some(unsigned w)
{
    std::uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (rnd() % 8) {
    case 0: return rnd() & m;
    case 1: return (rnd() % 4) & m;
    case 2: return (1ull << (rnd() % w)) & m;
    case 3: return ((1ull << (rnd() % w)) - 1) & m;
    case 4: return (m - (rnd() % 3)) & m;
    case 5: return (rnd() % 40) & m;
    case 6: return (rnd() & rnd() & 0x0101010101010101ull) & m;
    default: return (rnd() % 256) & m;
    }
}
[[noreturn]] void precondition()
{
    if (replaying) {
        std::fflush(stdout);
        _exit(77);
    }
    std::longjmp(jump, 1);
}
std::uint64_t value(unsigned w, bool size = false)
{
    std::uint64_t v;
    if (replaying) {
        if (next_rec >= records.size() || records[next_rec].k != 'v') {
            std::printf("replay: the recorded choices do not match this run\n");
            precondition();
        }
        v = records[next_rec++].v;
    } else if (size) {
        static const unsigned lim[] = {3, 10, 20, 40, 140, 300};
        v = rnd() % lim[rnd() % 6];
    } else {
        v = some(w);
    }
    return v;
}
void fill(unsigned char * p, std::size_t n)
{
    if (rnd() % 3 == 0) {
        unsigned lim = unsigned(rnd() % 5) + 1;
        for (std::size_t i = 0; i < n; ++i) {
            p[i] = (unsigned char)(rnd() % lim);
        }
        return;
    }
    for (std::size_t i = 0; i < n; ++i) {
        p[i] = (unsigned char)some(8);
    }
}
} // namespace

extern "C" {
std::uint64_t vp_nondet_u64() { return value(64); }
std::uint64_t vp_nondet_size() { return value(64, true); }
std::uint32_t vp_nondet_u32() { return std::uint32_t(value(32)); }
std::uint16_t vp_nondet_u16() { return std::uint16_t(value(16)); }
std::uint8_t vp_nondet_u8() { return std::uint8_t(value(8)); }
void vp_havoc(void * p, std::uint64_t n)
{
    for (std::uint64_t i = 0; i < n;) {
        unsigned c = unsigned(n - i < 8 ? n - i : 8);
        std::uint64_t v = value(c * 8);
        std::memcpy(static_cast<char *>(p) + i, &v, c);
        i += c;
    }
}
void vp_assume(bool b)
{
    if (!b) {
        precondition();
    }
}
void vp_assert(bool b, const char * name)
{
    if (!b) {
        std::printf("VIOLATED assert %s\n", name);
        std::fflush(stdout);
        _exit(1);
    }
}
void vp_cover(const char *) {}
void vp_declare_cover(const char *) {}
void * vp_region(std::uint64_t n)
{
    rec * r = nullptr;
    if (replaying) {
        if (next_rec >= records.size() || records[next_rec].k != 'r' || records[next_rec].v != n) {
            std::printf("replay: the recorded choices do not match this run\n");
            precondition();
        }
        r = &records[next_rec++];
    }
    if (n > (1ull << 28)) {
        std::printf("replay: the witness needs a buffer of %llu bytes\n", (unsigned long long)n);
        precondition();
    }
    auto p = static_cast<unsigned char *>(std::malloc(n ? n : 1));
    if (r) {
        std::memset(p, int(r->bytes.empty() ? 0 : r->bytes[0]), n);
        for (std::size_t i = 1; i + 8 < r->bytes.size(); i += 9) {
            std::uint64_t o = 0;
            std::memcpy(&o, &r->bytes[i], 8);
            if (o < n) {
                p[o] = r->bytes[i + 8];
            }
        }
    } else {
        fill(p, n);
    }
    return n ? p : p + 1; // one past the end of a one byte block: no byte is accessible
}
static std::uint64_t ufn(std::uint32_t id, std::vector<std::uint64_t> a)
{
    auto & f = ufs[{id, int(a.size())}];
    auto it = f.t.find(a);
    if (it != f.t.end()) {
        return it->second;
    }
    if (replaying) {
        return f.other;
    }
    return f.t[a] = some(64);
}
std::uint32_t vp_swap32(std::uint32_t x) { return __builtin_bswap32(x); }
std::uint32_t vp_shl32(std::uint32_t x, std::uint32_t n) { return n < 32 ? x << n : 0; }
std::uint32_t vp_shr32(std::uint32_t x, std::uint32_t n) { return n < 32 ? x >> n : 0; }
std::uint64_t vp_uf1(std::uint32_t id, std::uint64_t a) { return ufn(id, {a}); }
std::uint64_t vp_uf2(std::uint32_t id, std::uint64_t a, std::uint64_t b) { return ufn(id, {a, b}); }
std::uint64_t vp_heap_live() { return std::uint64_t(live); }
bool vp_is_heap(const void *, std::uint64_t) { return true; }
std::uint64_t vp_object_size(const void *) { return ~0ull; }
void vp_throw_ok(int v) { throw_ok = v; }
void vp_throw_exit() { precondition(); }
void vp_invariant(bool (*)(void *), void *) {}
void vp_rebuild(void *, std::uint64_t, void (*)(void *), void *) {}
void vp_invariant_clear() {}
void vp_symbolic(const void * p, std::uint64_t n)
{
    rec * r = nullptr;
    if (replaying) {
        if (next_rec >= records.size() || records[next_rec].k != 'r' || records[next_rec].v != n) {
            precondition();
        }
        r = &records[next_rec++];
        auto q = static_cast<unsigned char *>(const_cast<void *>(p));
        std::memset(q, int(r->bytes.empty() ? 0 : r->bytes[0]), n);
        for (std::size_t i = 1; i + 8 < r->bytes.size(); i += 9) {
            std::uint64_t o = 0;
            std::memcpy(&o, &r->bytes[i], 8);
            if (o < n) {
                q[o] = r->bytes[i + 8];
            }
        }
    } else {
        fill(static_cast<unsigned char *>(const_cast<void *>(p)), n);
    }
}
int vp_is_verifier() { return 0; }
std::uint64_t vp_pick(std::uint64_t v, std::uint64_t max)
{
    if (v > max) {
        precondition();
    }
    return v;
}
void vp_print(const char * n, std::uint64_t v) { std::printf("%s = %llu\n", n, (unsigned long long)v); }
}

void * operator new(std::size_t n)
{
    if (n > (1ull << 24)) {
        throw std::bad_alloc{};
    }
    void * p = std::malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc{};
    }
    if (counting) {
        ++live;
    }
    return p;
}
void operator delete(void * p) noexcept
{
    if (p && counting) {
        --live;
    }
    std::free(p);
}
void operator delete(void * p, std::size_t) noexcept
{
    operator delete(p);
}
void * operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { operator delete(p); }

static void run_entry()
{
    live = 0;
    throw_ok = false;
    counting = true;
    try {
        VP_ENTRY();
    } catch (const std::bad_alloc &) {
        if (!throw_ok) {
            std::printf("VIOLATED: unexpected std::bad_alloc\n");
            std::fflush(stdout);
            _exit(1);
        }
    } catch (const std::length_error &) {
        if (!throw_ok) {
            std::printf("VIOLATED: unexpected std::length_error\n");
            std::fflush(stdout);
            _exit(1);
        }
    } catch (...) {
        std::printf("VIOLATED: unexpected exception\n");
        std::fflush(stdout);
        _exit(1);
    }
    counting = false;
}

static std::uint64_t hex8(const char * s)
{
    std::uint64_t v = 0;
    for (unsigned i = 0; s[0] && s[1] && i < 8 && s[0] > ' '; ++i, s += 2) {
        char b[3] = {s[0], s[1], 0};
        v |= std::uint64_t(std::strtoul(b, nullptr, 16)) << (8 * i);
    }
    return v;
}

int main(int argc, char ** argv)
{
    if (argc < 3) {
        return 2;
    }
    std::string mode = argv[1];
    if (mode == "replay") {
        FILE * f = std::fopen(argv[2], "r");
        if (!f) {
            return 2;
        }
        static char line[1 << 20];
        while (std::fgets(line, sizeof line, f)) {
            if (line[0] == 'v') {
                rec r;
                r.k = 'v';
                r.v = hex8(line + 2);
                records.push_back(r);
            } else if (line[0] == 'r') { // r size else off:byte ...
                rec r;
                r.k = 'r';
                char * p = line + 1;
                r.v = std::strtoull(p, &p, 10);
                r.bytes.push_back((unsigned char)std::strtoul(p, &p, 10));
                while (*p == ' ' && p[1] >= '0') {
                    std::uint64_t o = std::strtoull(p, &p, 10);
                    unsigned char b = (unsigned char)std::strtoul(p + 1, &p, 10);
                    r.bytes.insert(r.bytes.end(), (unsigned char *)&o, (unsigned char *)&o + 8);
                    r.bytes.push_back(b);
                }
                records.push_back(r);
            } else if (line[0] == 'u') { // u id n else | a b = v ...
                char * p = line + 1;
                std::uint32_t id = std::uint32_t(std::strtoul(p, &p, 10));
                int n = int(std::strtol(p, &p, 10));
                auto & u = ufs[{id, n}];
                u.other = std::strtoull(p, &p, 10);
                for (;;) {
                    while (*p == ' ') {
                        ++p;
                    }
                    if (*p < '0') {
                        break;
                    }
                    std::vector<std::uint64_t> a;
                    for (int i = 0; i < n; ++i) {
                        a.push_back(std::strtoull(p, &p, 10));
                    }
                    u.t[a] = std::strtoull(p, &p, 10);
                }
            } else if (line[0] == 's') { // seed of a random run
                replaying = false;
                rng = std::strtoull(line + 1, nullptr, 10);
                std::fclose(f);
                if (!setjmp(jump)) {
                    run_entry();
                    return 0;
                }
                return 77;
            }
        }
        std::fclose(f);
        replaying = true;
        run_entry();
        return 0;
    }
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    double secs = argc > 3 ? std::atof(argv[3]) : 2;
    auto t0 = std::chrono::steady_clock::now();
    unsigned long runs = 0;
    std::uint64_t cur = seed;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        // a batch per child; the parent learns the failing seed from a pipe
        int fd[2];
        if (pipe(fd)) {
            return 2;
        }
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            auto t1 = std::chrono::steady_clock::now();
            for (int i = 0; i < 2000; ++i) {
                cur = cur * 6364136223846793005ull + 1442695040888963407ull;
                rng = cur | 1;
                std::uint64_t start = rng;
                if (write(fd[1], &start, 8) != 8) {
                    _exit(2);
                }
                ufs.clear();
                if (!setjmp(jump)) {
                    run_entry();
                }
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > 1) {
                    break;
                }
            }
            _exit(0);
        }
        close(fd[1]);
        std::uint64_t last = 0, x;
        while (read(fd[0], &x, 8) == 8) {
            last = x;
            cur = x;
            ++runs;
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            std::printf("SEED %llu after %lu runs\n", (unsigned long long)last, runs);
            return 1;
        }
        cur += 0x12345;
    }
    std::printf("%lu runs\n", runs);
    return 0;
}
