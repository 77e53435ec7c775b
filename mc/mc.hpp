// A small stateless model checker.
//
// A harness registers scenarios.  A scenario is a deterministic function which
// asks `choose`/`deviate` whenever there is more than one way to go on; the
// explorer runs it again and again, depth first, until every sequence of
// answers has been taken (`deviate`: every sequence with at most `bound`
// answers different from the default one, iterating over nothing else).
// Scenarios are distributed to forked workers.  A worker writes the choices it
// is about to take to shared memory, so a crash (sanitizer report, signal) or
// a hang is attributed to an execution, which is replayed in a fresh process
// before it is reported.
#ifndef MC_HPP
#define MC_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include <stdexcept>

namespace mc
{
struct violation
{
    std::string key;
    std::string message;
};

struct prune
{
};

struct scenario
{
    std::string name;
    std::function<void()> run;
};

std::vector<scenario> & scenarios();

inline bool add(std::string name, std::function<void()> run)
{
    scenarios().push_back({std::move(name), std::move(run)});
    return true;
}

// Environment answers.
std::size_t choose(std::size_t count, const char * label = "");
std::size_t deviate(std::size_t count, const char * label = "");
// Sets the deviation bound of this scenario (the quick or thorough one).
void bound(int deviations);
int deviations_left();

// Accounting.
void step(std::uint64_t count = 1);      // a transition of the implementation
void state(std::uint64_t hash);          // a state reached
void outcome(std::uint64_t hash);        // an observed result
void case_done(std::uint64_t count = 1); // a model trace checked against it
// Explicit-state pruning: ends the execution if the state was expanded before
// with at least as many steps remaining.
void visit(std::uint64_t hash, int remaining);

bool tracing();
void note_line(std::string line);
template <typename F>
void note(F && f)
{
    if (tracing()) {
        note_line(f());
    }
}

bool thorough();
std::uint64_t seed();
const char * property();

[[noreturn]] inline void fail(std::string key, std::string message)
{
    throw violation{std::move(key), std::move(message)};
}

inline void require(bool ok, const char * key, const char * message)
{
    if (!ok) {
        fail(key, message);
    }
}
template <typename F>
inline void require(bool ok, const char * key, F && message)
    requires requires { std::string(message()); }
{
    if (!ok) {
        fail(key, message());
    }
}

// A violation which does not end the execution: used for findings which would
// otherwise hide what comes after them.
void report(std::string key, std::string message);

// Hashing.
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

inline std::uint64_t hash_bytes(const void * data,
                                std::size_t size,
                                std::uint64_t h = 0x1234567)
{
    auto p = static_cast<const unsigned char *>(data);
    h = mix(h, size);
    while (size >= 8) {
        std::uint64_t v;
        std::memcpy(&v, p, 8);
        h = mix(h, v);
        p += 8;
        size -= 8;
    }
    std::uint64_t v{};
    if (size) {
        std::memcpy(&v, p, size);
        h = mix(h, v + size);
    }
    return h;
}

inline std::string hex(const void * data, std::size_t size)
{
    auto p = static_cast<const unsigned char *>(data);
    std::string s;
    char b[4];
    auto shown = size > 96 ? 96 : size;
    for (std::size_t i = 0; i < shown; ++i) {
        std::snprintf(b, sizeof b, "%02x", p[i]);
        s += b;
    }
    if (shown != size) {
        s += "...(" + std::to_string(size) + " bytes)";
    }
    return s.empty() ? "(empty)" : s;
}

std::string format(const char * f, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc

#endif
