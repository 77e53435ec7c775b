#include "mc.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#ifndef MC_PROPERTY
#define MC_PROPERTY "C00"
#endif
#ifndef MC_LEVEL
#define MC_LEVEL "model_checking"
#endif

extern "C" const char * __asan_default_options()
{
    return "alloc_dealloc_mismatch=0:detect_leaks=0:max_allocation_size_mb=1536:"
           "quarantine_size_mb=8:malloc_context_size=4:allocator_may_return_null=0:"
           "detect_stack_use_after_return=0:handle_abort=1";
}
extern "C" const char * __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}
extern "C" const char * __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66";
}

namespace mc
{
namespace
{
using clock_type = std::chrono::steady_clock;
double now()
{
    return std::chrono::duration<double>(
               clock_type::now().time_since_epoch())
        .count();
}

// A change which makes the library allocate without end is to end the execution,
// not the machine. (The sanitizers have limits of their own.)
void limit_memory()
{
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
    return;
#endif
#endif
    struct rlimit l{std::size_t(3) << 30, std::size_t(3) << 30};
    setrlimit(RLIMIT_AS, &l);
#endif
}

constexpr std::size_t max_choices = 512;

struct slot
{
    std::atomic<int> scenario;
    std::atomic<int> active;
    std::atomic<double> started;
    std::atomic<std::uint32_t> count;
    std::uint16_t choices[max_choices];
};

struct shared
{
    std::atomic<int> next;
    std::atomic<int> stop;
    slot slots[64];
};

struct point
{
    std::uint32_t choice;
    std::uint32_t count;
    bool costs;
    const char * label;
};

struct finding
{
    std::string key, message, scenario;
    std::vector<int> choices;
};

// The current execution.
std::vector<point> points;
std::size_t prefix;     // points before this are replayed
std::size_t depth;
int used, limit = 1 << 30;
slot * current;
bool trace_on;
bool replaying;
std::vector<std::string> trace;
std::vector<finding> reported; // by report(), in this execution

// Totals of this process.
std::uint64_t executions, transitions, cases, choice_points, states_total,
    outcomes_total, pruned, max_depth;
std::unordered_set<std::uint64_t> state_set;
std::unordered_set<std::uint64_t> outcome_set;
std::unordered_map<std::uint64_t, int> expanded;

const char * tier_name()
{
    auto t = std::getenv("VERIF_TIER");
    return t && *t ? t : "quick";
}

std::size_t choose_impl(std::size_t count, bool costs, const char * label)
{
    if (count == 0) {
        std::fprintf(stderr, "mc: choose(0) at %s\n", label);
        std::_Exit(3);
    }
    if (costs && used >= limit) {
        count = 1;
    }
    if (count == 1) {
        return 0;
    }
    std::size_t choice = 0;
    if (depth < points.size()) {
        auto & p = points[depth];
        if (p.count == 0) { // replay from a file
            p.count = std::uint32_t(count);
            p.costs = costs;
            p.label = label;
        }
        if (p.count != count || p.choice >= count) {
            std::fprintf(stderr,
                         "mc: divergence at choice %zu (%s): %zu answers, "
                         "had %u\n",
                         depth, label, count, p.count);
            std::_Exit(3);
        }
        choice = p.choice;
    } else {
        if (depth >= max_choices) {
            std::fprintf(stderr, "mc: too many choices\n");
            std::_Exit(3);
        }
        points.push_back({0, std::uint32_t(count), costs, label});
    }
    if (current) {
        current->choices[depth] = std::uint16_t(choice);
        current->count.store(std::uint32_t(depth + 1),
                             std::memory_order_relaxed);
    }
    if (trace_on && *label) {
        trace.push_back(std::string("  choose ") + label + " = " +
                        std::to_string(choice) + " of " +
                        std::to_string(count));
    }
    ++depth;
    if (costs && choice) {
        ++used;
    }
    return choice;
}

// Runs one execution with the choices in `points`; true if it found something.
bool execute(const scenario & s, finding & f)
{
    depth = 0;
    used = 0;
    limit = 1 << 30;
    trace.clear();
    reported.clear();
    ++executions;
    bool failed = false;
    try {
        s.run();
    } catch (violation & v) {
        f.key = v.key;
        f.message = v.message;
        failed = true;
    } catch (prune &) {
        ++pruned;
    } catch (std::exception & e) {
        f.key = "unexpected-exception";
        f.message = std::string("unexpected exception: ") + e.what();
        failed = true;
    }
    if (depth < prefix) {
        std::fprintf(stderr, "mc: divergence: shorter execution (%s)\n",
                     s.name.c_str());
        std::_Exit(3);
    }
    choice_points += depth;
    max_depth = std::max<std::uint64_t>(max_depth, depth);
    f.scenario = s.name;
    f.choices.clear();
    for (std::size_t i = 0; i < std::min(depth, points.size()); ++i) {
        f.choices.push_back(int(points[i].choice));
    }
    return failed;
}

bool backtrack()
{
    points.resize(std::min(points.size(), depth));
    while (!points.empty()) {
        auto & p = points.back();
        if (p.choice + 1 < p.count) {
            ++p.choice;
            prefix = points.size();
            return true;
        }
        points.pop_back();
    }
    return false;
}

std::string escape(const std::string & s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += char(c);
        }
    }
    return r;
}

// Records of a worker to the parent: length-prefixed lines over a file.
void put(FILE * f, const finding & x)
{
    std::string c;
    for (auto v : x.choices) {
        c += std::to_string(v) + ",";
    }
    std::fprintf(f, "F\t%s\t%s\t%s\t%s\n", escape(x.key).c_str(),
                 escape(x.scenario).c_str(), c.c_str(),
                 escape(x.message).c_str());
    std::fflush(f);
}

void worker(shared * sh, int id, const std::string & log, double budget_end)
{
    current = &sh->slots[id];
    FILE * out = std::fopen(log.c_str(), "a");
    auto & list = scenarios();
    std::set<std::string> seen_keys;
    for (;;) {
        int index = sh->next.fetch_add(1);
        if (index >= int(list.size()) || sh->stop.load()) {
            break;
        }
        auto & s = list[std::size_t(index)];
        current->scenario.store(index);
        points.clear();
        prefix = 0;
        state_set.clear();
        outcome_set.clear();
        expanded.clear();
        bool complete = false;
        int found = 0;
        double t0 = now();
        for (;;) {
            current->count.store(0);
            current->started.store(now());
            current->active.store(1);
            finding f;
            bool failed = execute(s, f);
            auto soft = reported;
            if (failed) {
                // Replay before report.
                auto saved = points;
                auto saved_depth = depth;
                finding again;
                points.resize(std::min(points.size(), depth));
                prefix = 0;
                auto saved_expanded = expanded;
                expanded.clear();
                bool same = execute(s, again) && again.key == f.key;
                expanded = saved_expanded;
                points = saved;
                depth = saved_depth;
                if (!same) {
                    std::fprintf(stderr,
                                 "mc: violation did not replay: %s in %s\n",
                                 f.key.c_str(), s.name.c_str());
                    std::_Exit(3);
                }
                put(out, f);
                ++found;
            }
            for (auto & r : soft) {
                if (seen_keys.insert(r.key).second) {
                    put(out, r);
                }
            }
            current->active.store(0);
            if (found >= 3 || sh->stop.load()) {
                break;
            }
            if (now() > budget_end) {
                break;
            }
            if (!backtrack()) {
                complete = true;
                break;
            }
        }
        states_total += state_set.size();
        outcomes_total += outcome_set.size();
        std::fprintf(out, "S\t%d\t%d\t%.3f\n", index, int(complete), now() - t0);
        std::fflush(out);
    }
    std::fprintf(out, "T\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n",
                 (unsigned long long)executions,
                 (unsigned long long)transitions, (unsigned long long)cases,
                 (unsigned long long)choice_points,
                 (unsigned long long)states_total,
                 (unsigned long long)outcomes_total,
                 (unsigned long long)pruned, (unsigned long long)max_depth);
    std::fclose(out);
}

// Runs one execution in a fresh child.  0: clean, 1: violation, 2: crashed,
// 3: timed out, 4: internal error.
int run_alone(int index,
              const std::vector<int> & choices,
              double seconds,
              std::string & text)
{
    char name[] = "/tmp/mc-replay-XXXXXX";
    int fd = mkstemp(name);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        limit_memory();
        dup2(fd, 1);
        dup2(fd, 2);
        trace_on = true;
        replaying = true;
        points.clear();
        prefix = 0;
        for (auto c : choices) {
            points.push_back({std::uint32_t(c), 0, false, ""});
        }
        auto & s = scenarios()[std::size_t(index)];
        // Stream the trace, so that it is there if this crashes.
        finding f;
        bool failed = execute(s, f);
        for (auto & line : trace) {
            std::printf("%s\n", line.c_str());
        }
        if (failed) {
            std::printf("violation [%s]: %s\n", f.key.c_str(),
                        f.message.c_str());
        }
        for (auto & r : reported) {
            std::printf("violation [%s]: %s\n", r.key.c_str(),
                        r.message.c_str());
        }
        std::fflush(nullptr);
        std::_Exit(failed || !reported.empty() ? 1 : 0);
    }
    close(fd);
    double end = now() + seconds;
    int status = 0;
    int result = -1;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (now() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            result = 3;
            break;
        }
        usleep(2000);
    }
    std::ifstream in(name);
    std::stringstream ss;
    ss << in.rdbuf();
    text = ss.str();
    unlink(name);
    if (result < 0) {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            result = 0;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 1 &&
                   text.find("violation [") != std::string::npos) {
            result = 1;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 3 &&
                   text.find("mc: ") != std::string::npos) {
            result = 4;
        } else {
            result = 2;
        }
    }
    return result;
}

std::vector<std::string> split(const std::string & s, char d)
{
    std::vector<std::string> r;
    std::string t;
    for (char c : s) {
        if (c == d) {
            r.push_back(t);
            t.clear();
        } else {
            t += c;
        }
    }
    r.push_back(t);
    return r;
}

std::string first_crash_line(const std::string & text)
{
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.find("runtime error") != std::string::npos ||
            line.find("ERROR: ") != std::string::npos ||
            line.find("WARNING: ThreadSanitizer") != std::string::npos ||
            line.find("terminate called") != std::string::npos ||
            line.find("libc++abi") != std::string::npos) {
            return line;
        }
    }
    return "process ended abnormally";
}
} // namespace

std::vector<scenario> & scenarios()
{
    static std::vector<scenario> s;
    return s;
}
std::size_t choose(std::size_t count, const char * label)
{
    return choose_impl(count, false, label);
}
std::size_t deviate(std::size_t count, const char * label)
{
    return choose_impl(count, true, label);
}
void bound(int deviations)
{
    limit = deviations;
}
int deviations_left()
{
    return limit - used;
}
void step(std::uint64_t count)
{
    transitions += count;
}
void state(std::uint64_t hash)
{
    if (state_set.size() < 4000000) {
        state_set.insert(hash);
    }
}
void outcome(std::uint64_t hash)
{
    if (outcome_set.size() < 1000000) {
        outcome_set.insert(hash);
    }
}
void case_done(std::uint64_t count)
{
    cases += count;
}
void visit(std::uint64_t hash, int remaining)
{
    state(hash);
    if (replaying || depth < prefix) {
        return; // still on the path which was taken before
    }
    auto [it, fresh] = expanded.emplace(hash, remaining);
    if (!fresh) {
        if (it->second >= remaining) {
            throw prune{};
        }
        it->second = remaining;
    }
}
bool tracing()
{
    return trace_on;
}
void note_line(std::string line)
{
    if (replaying) {
        std::printf("%s\n", line.c_str());
        std::fflush(stdout);
    } else {
        trace.push_back(std::move(line));
    }
}
bool thorough()
{
    return std::string_view(tier_name()) == "thorough";
}
std::uint64_t seed()
{
    auto s = std::getenv("VERIF_SEED");
    return s ? std::strtoull(s, nullptr, 10) : 1;
}
const char * property()
{
    return MC_PROPERTY;
}
void report(std::string key, std::string message)
{
    finding f;
    f.key = std::move(key);
    f.message = std::move(message);
    f.scenario = current || replaying ? "" : "";
    if (current) {
        f.scenario = scenarios()[std::size_t(current->scenario.load())].name;
    }
    for (std::size_t i = 0; i < depth; ++i) {
        f.choices.push_back(int(points[i].choice));
    }
    for (auto & r : reported) {
        if (r.key == f.key) {
            return;
        }
    }
    reported.push_back(std::move(f));
}
std::string format(const char * f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    std::vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
} // namespace mc

using namespace mc;

namespace
{
int find_scenario(const std::string & name)
{
    for (std::size_t i = 0; i < scenarios().size(); ++i) {
        if (scenarios()[i].name == name) {
            return int(i);
        }
    }
    return -1;
}

int replay_file(const char * path)
{
    std::ifstream in(path);
    std::string line, name;
    std::vector<int> choices;
    while (std::getline(in, line)) {
        if (line.rfind("scenario: ", 0) == 0) {
            name = line.substr(10);
        } else if (line.rfind("choices: ", 0) == 0) {
            for (auto & t : split(line.substr(9), ',')) {
                if (!t.empty()) {
                    choices.push_back(std::atoi(t.c_str()));
                }
            }
        }
    }
    int index = find_scenario(name);
    if (index < 0) {
        std::printf("no such scenario: %s\n", name.c_str());
        return 2;
    }
    std::string text;
    int r = run_alone(index, choices, 120, text);
    std::printf("%s", text.c_str());
    std::printf("replay: %s\n",
                r == 0   ? "no violation"
                : r == 1 ? "violation"
                : r == 2 ? "crash"
                : r == 3 ? "hang"
                         : "internal error");
    return r ? 1 : 0;
}
} // namespace

int main(int argc, char ** argv)
{
    std::string out_dir = ".";
    std::string evidence, known_path;
    int jobs = 8;
    double budget = 1e9;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") {
            out_dir = next();
        } else if (a == "--evidence") {
            evidence = next();
        } else if (a == "--known") {
            known_path = next();
        } else if (a == "--jobs") {
            jobs = std::atoi(next());
        } else if (a == "--budget") {
            budget = std::atof(next());
        } else if (a == "--only") {
            only = next();
        } else if (a == "--replay") {
            return replay_file(next());
        } else if (a == "--list") {
            for (auto & s : scenarios()) {
                std::printf("%s\n", s.name.c_str());
            }
            return 0;
        }
    }
    double start = now();
    std::stable_sort(scenarios().begin(), scenarios().end(),
                     [](auto & a, auto & b) { return a.name < b.name; });
    if (!only.empty()) {
        auto & l = scenarios();
        l.erase(std::remove_if(l.begin(), l.end(),
                               [&](auto & s) {
                                   return s.name.find(only) ==
                                          std::string::npos;
                               }),
                l.end());
    }
    // Heavy scenarios (marked with a leading '!') first: better balance.
    std::stable_partition(scenarios().begin(), scenarios().end(),
                          [](auto & s) { return s.name[0] == '!'; });
    if (scenarios().empty()) {
        std::fprintf(stderr, "mc: no scenarios\n");
        return 2;
    }

    // Known findings of this property.
    std::map<std::string, std::string> known;
    {
        std::ifstream in(known_path);
        std::string line;
        std::string head = std::string("known: property=") + property() + " key=";
        while (std::getline(in, line)) {
            if (line.rfind(head, 0) == 0) {
                auto rest = line.substr(head.size());
                auto sp = rest.find(' ');
                known[rest.substr(0, sp)] =
                    sp == std::string::npos ? "" : rest.substr(sp + 1);
            }
        }
    }

    auto sh = static_cast<shared *>(mmap(nullptr, sizeof(shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto log_of = [&](int id) {
        return out_dir + "/worker" + std::to_string(id) + ".log";
    };
    for (int i = 0; i < 64; ++i) {
        unlink(log_of(i).c_str());
    }
    std::map<pid_t, int> alive;
    double budget_end = start + budget;
    std::fflush(nullptr);
    auto spawn = [&](int id) {
        sh->slots[id].active.store(0);
        pid_t pid = fork();
        if (!pid) {
            int fd = open((out_dir + "/worker" + std::to_string(id) + ".err").c_str(),
                          O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            limit_memory();
            worker(sh, id, log_of(id), budget_end);
            std::fflush(nullptr);
            std::_Exit(0);
        }
        alive[pid] = id;
    };
    jobs = std::min<int>(jobs, int(scenarios().size()));
    for (int i = 0; i < jobs; ++i) {
        spawn(i);
    }

    std::vector<finding> findings;
    std::vector<std::string> extra_text;
    bool internal_error = false;
    int crashes = 0;
    auto crashed = [&](int id, bool hang) {
        auto & sl = sh->slots[id];
        if (!sl.active.load()) {
            internal_error = true;
            std::fprintf(stderr, "mc: worker %d ended outside an execution\n", id);
            return;
        }
        std::vector<int> choices;
        for (std::uint32_t i = 0; i < sl.count.load(); ++i) {
            choices.push_back(sl.choices[i]);
        }
        int index = sl.scenario.load();
        std::string text;
        int r = run_alone(index, choices, hang ? 180 : 120, text);
        if (r == 2 || r == 3 || r == 1) {
            finding f;
            f.scenario = scenarios()[std::size_t(index)].name;
            f.choices = choices;
            f.key = r == 3 ? "hang" : r == 2 ? "crash" : "violation";
            f.message = r == 3   ? "the execution does not end"
                        : r == 2 ? first_crash_line(text)
                                 : "violation on replay of a crashed execution";
            // Text of the crash goes to the replay file.
            f.message += "\n" + text.substr(0, 6000);
            findings.push_back(f);
            if (++crashes >= 4) {
                sh->stop.store(1);
            }
        } else if (hang && r == 0) {
            // Slow, not hanging: count the scenario as not completed.
            std::fprintf(stderr, "mc: slow execution in %s\n",
                         scenarios()[std::size_t(index)].name.c_str());
            internal_error = true;
        } else {
            internal_error = true;
            std::fprintf(stderr, "mc: crash of %s did not replay (%d)\n%s\n",
                         scenarios()[std::size_t(index)].name.c_str(), r,
                         text.c_str());
            std::ifstream err(out_dir + "/worker" + std::to_string(id) + ".err");
            std::stringstream ss;
            ss << err.rdbuf();
            std::fprintf(stderr, "%s\n", ss.str().substr(0, 4000).c_str());
        }
    };
    while (!alive.empty()) {
        int status;
        pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid > 0 && alive.count(pid)) {
            int id = alive[pid];
            alive.erase(pid);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                continue;
            }
            if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
                internal_error = true;
                std::ifstream err(out_dir + "/worker" + std::to_string(id) +
                                  ".err");
                std::stringstream ss;
                ss << err.rdbuf();
                std::fprintf(stderr, "%s\n", ss.str().substr(0, 4000).c_str());
                continue;
            }
            crashed(id, false);
            if (!sh->stop.load()) {
                spawn(id);
            }
            continue;
        }
        for (auto & [p, id] : alive) {
            auto & sl = sh->slots[id];
            if (sl.active.load() && now() - sl.started.load() > 60) {
                kill(p, SIGKILL);
                int st;
                waitpid(p, &st, 0);
                int worker_id = id;
                alive.erase(p);
                crashed(worker_id, true);
                if (!sh->stop.load()) {
                    spawn(worker_id);
                }
                break;
            }
        }
        usleep(2000);
    }

    // Merge.
    std::uint64_t totals[8] = {};
    int complete = 0;
    std::vector<std::pair<double, int>> times;
    for (int i = 0; i < jobs; ++i) {
        std::ifstream in(log_of(i));
        std::string line;
        while (std::getline(in, line)) {
            auto t = split(line, '\t');
            if (t[0] == "F" && t.size() >= 5) {
                finding f;
                f.key = t[1];
                f.scenario = t[2];
                for (auto & c : split(t[3], ',')) {
                    if (!c.empty()) {
                        f.choices.push_back(std::atoi(c.c_str()));
                    }
                }
                f.message = t[4];
                findings.push_back(f);
            } else if (t[0] == "S") {
                complete += std::atoi(t[2].c_str());
                times.push_back({std::atof(t[3].c_str()), std::atoi(t[1].c_str())});
            } else if (t[0] == "T") {
                for (int k = 0; k < 8; ++k) {
                    auto v = std::strtoull(t[std::size_t(k) + 1].c_str(), nullptr, 10);
                    if (k == 7) {
                        totals[k] = std::max<std::uint64_t>(totals[k], v);
                    } else {
                        totals[k] += v;
                    }
                }
            }
        }
    }

    // Samples: the traces of a few executions of this run.
    std::vector<std::string> samples;
    if (findings.empty() || true) {
        auto & l = scenarios();
        std::set<std::size_t> picks{0, l.size() / 3, l.size() * 2 / 3, l.size() - 1};
        for (auto p : picks) {
            std::string text;
            run_alone(int(p), {}, 60, text);
            if (text.size() > 700) {
                text = text.substr(0, 700) + "...";
            }
            samples.push_back(l[p].name + "\n" + text);
        }
    }

    int violations = 0;
    std::set<std::string> known_seen;
    std::set<std::string> printed;
    for (auto & f : findings) {
        if (known.count(f.key)) {
            if (known_seen.insert(f.key).second) {
                std::printf("KNOWN-FINDING: property=%s %s\n", property(),
                            known[f.key].c_str());
            }
            continue;
        }
        ++violations;
        if (violations > 8) {
            continue;
        }
        auto path = out_dir + "/violation-" + std::to_string(violations) + ".replay";
        {
            std::ofstream o(path);
            o << "property: " << property() << "\nscenario: " << f.scenario
              << "\nchoices: ";
            for (auto c : f.choices) {
                o << c << ",";
            }
            o << "\nkey: " << f.key << "\nmessage: " << f.message << "\ntrace:\n";
            std::string text;
            int index = find_scenario(f.scenario);
            if (index >= 0) {
                run_alone(index, f.choices, 120, text);
            }
            o << text.substr(0, 20000) << "\n";
        }
        std::printf("VIOLATION property=%s replay=%s\n", property(), path.c_str());
        std::printf("  %s [%s] %s\n", f.scenario.c_str(), f.key.c_str(),
                    f.message.substr(0, 400).c_str());
    }
    for (auto & [key, text] : known) {
        if (!known_seen.count(key)) {
            std::printf("note: known finding %s was not observed\n", key.c_str());
        }
    }
    bool exhaustive = complete == int(scenarios().size());
    std::sort(times.rbegin(), times.rend());
    double wall = now() - start;
    std::printf("%s %s: %zu scenarios (%d complete), %llu executions, %llu "
                "traces checked, %llu transitions, %llu states, %llu distinct outcomes, "
                "max depth %llu, %llu pruned, %.1f s\n",
                property(), tier_name(), scenarios().size(), complete,
                (unsigned long long)totals[0], (unsigned long long)totals[2],
                (unsigned long long)totals[1], (unsigned long long)totals[4],
                (unsigned long long)totals[5], (unsigned long long)totals[7],
                (unsigned long long)totals[6], wall);
    for (std::size_t i = 0; i < std::min<std::size_t>(3, times.size()); ++i) {
        std::printf("  slowest: %s %.2f s\n",
                    scenarios()[std::size_t(times[i].second)].name.c_str(),
                    times[i].first);
    }
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        o << "{\"property\": \"" << property() << "\", \"tier\": \"" << tier_name()
          << "\", \"seed\": " << seed() << ", \"level\": \"" << MC_LEVEL
          << "\",\n \"coverage\": {";
        if (std::string_view(MC_LEVEL) == "model_checking") {
            o << "\"states\": " << totals[4] << ", \"transitions\": " << totals[1]
              << ", \"traces_validated_against_impl\": " << totals[2];
        } else {
            o << "\"evaluations\": " << totals[2]
              << ", \"distinct_nontrivial\": " << totals[4]
              << ", \"rule\": \"a case is one execution with one fault at one "
                 "point; distinct by the hash of scenario, fault point and "
                 "result; non-trivial when the fault was delivered\""
              << ", \"transitions\": " << totals[1];
        }
        o << ", \"executions\": " << totals[0]
          << ", \"distinct_outcomes\": " << totals[5]
          << ", \"choice_points\": " << totals[3]
          << ", \"max_choice_depth\": " << totals[7]
          << ", \"pruned_revisits\": " << totals[6]
          << ", \"scenarios\": " << scenarios().size()
          << ", \"scenarios_completed\": " << complete
          << ", \"exhaustive\": " << (exhaustive ? "true" : "false")
          << ",\n  \"samples\": [";
        bool first = true;
        for (auto & s : samples) {
            o << (first ? "" : ", ") << "\"" << escape(s) << "\"";
            first = false;
        }
        o << "]},\n \"wall_s\": " << wall << ", \"violations\": " << violations
          << "}\n";
    }
    if (violations) {
        return 1;
    }
    if (internal_error || (!exhaustive && budget > 1e8)) {
        std::printf("mc: internal error or incomplete exploration\n");
        return 2;
    }
    return 0;
}
