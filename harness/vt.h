// Common runtime of all harnesses: seeded cases, oracles, evidence, watchdog.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace vt {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashs(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { return mix(s++); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int64_t in(int64_t a, int64_t b) {  // inclusive
        return a + (int64_t)(next() % (uint64_t)(b - a + 1));
    }
    bool chance(double p) { return u() < p; }
    double logu(double a, double b) { return a * std::pow(b / a, u()); }
    template <class T> T pick(std::initializer_list<T> l) {
        auto it = l.begin();
        std::advance(it, (long)(next() % l.size()));
        return *it;
    }
    template <class V> auto& of(V& v) { return v[next() % v.size()]; }
    double normal() {
        double r = 0;
        for (int i = 0; i < 12; ++i) r += u();
        return r - 6.0;
    }
};

struct Violation {
    std::string key, section, inputs, detail;
    long index;
};

struct State {
    uint64_t seed{1};
    int shard{0}, nshards{1};
    std::string tier{"quick"}, out, scratch;
    double scale{1.0};
    std::string only_section;
    long only_case{-1};
    std::set<std::string> skip_sections;
    long resume_case{-1};
    std::string resume_section;
    bool resuming{false};
    long evaluations{0};
    std::set<uint64_t> distinct;
    std::map<std::string, long> obs;
    std::map<std::string, double> maxv;
    std::map<std::string, long> keycount;
    std::vector<Violation> violations;
    std::map<std::string, std::vector<std::string>> samples;
    std::mutex mtx;
    char* progress{nullptr};
    std::atomic<long> tick{0};
    std::atomic<int> limit{120};
    double budget{1e18};  // seconds after which no further cases are drawn
    std::chrono::steady_clock::time_point started{std::chrono::steady_clock::now()};
    bool verbose{false};
};
inline State& S() { static State s; return s; }

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Case {
    std::string section;
    long index;
    std::ostringstream desc;
    Rng& rng;
    bool nontriv{true};
    Case(std::string s, long i, Rng& r) : section(std::move(s)), index(i), rng(r) { desc.precision(17); }
    template <class T> Case& in(const char* name, const T& v) {
        desc << name << "=" << v << " ";
        return *this;
    }
    template <class V> Case& inv(const char* name, const V& v, size_t max = 24) {
        desc << name << "=[";
        size_t n = 0;
        for (auto& x : v) {
            if (n++ >= max) { desc << "..."; break; }
            desc << (n > 1 ? "," : "") << x;
        }
        desc << "] ";
        return *this;
    }
    void trivial() { nontriv = false; }
    void fail(const std::string& key, const std::string& detail) {
        std::lock_guard<std::mutex> g(S().mtx);
        long n = ++S().keycount[key];
        if (n <= 3) S().violations.push_back({key, section, desc.str(), detail, index});
        if (S().verbose) std::cerr << "FAIL " << key << " [" << section << ":" << index << "] " << detail << "\n   inputs: " << desc.str() << std::endl;
    }
};

inline void obs(const std::string& name, long n = 1) {
    std::lock_guard<std::mutex> g(S().mtx);
    S().obs[name] += n;
}
inline void maxv(const std::string& name, double v) {
    std::lock_guard<std::mutex> g(S().mtx);
    auto it = S().maxv.find(name);
    if (it == S().maxv.end()) S().maxv[name] = v;
    else if (v > it->second) it->second = v;
}

// message building:  MSG(a << b)
#define MSG(x) ([&]() { std::ostringstream _o; _o.precision(17); _o << x; return _o.str(); }())
#define CHECK(c, key, msg) do { if (!(c)) (C).fail(key, MSG(msg)); } while (0)
// NaN-safe closeness
inline bool near(double a, double b, double tol) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol;
}
inline bool nearr(double a, double b, double rel, double abs_ = 0.0) {
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
#define NEAR(a, b, tol, key, msg) do { double _a = (a), _b = (b); if (!vt::near(_a, _b, (tol))) (C).fail(key, MSG(msg << " got " << _a << " want " << _b << " diff " << _a - _b)); } while (0)
#define NEARR(a, b, rel, abs_, key, msg) do { double _a = (a), _b = (b); if (!vt::nearr(_a, _b, (rel), (abs_))) (C).fail(key, MSG(msg << " got " << _a << " want " << _b << " diff " << _a - _b)); } while (0)

inline void setprogress(const std::string& sec, long i) {
    if (S().progress) snprintf(S().progress, 250, "%s %ld\n", sec.c_str(), i);
    S().tick.fetch_add(1, std::memory_order_relaxed);
}

inline void write_report_locked() {
    State& s = S();
    std::ofstream f(s.out + ".json");
    f << "{\"evaluations\":" << s.evaluations << ",\"obs\":{";
    bool first = true;
    for (auto& p : s.obs) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
    f << "},\"max\":{";
    first = true;
    for (auto& p : s.maxv) {
        f << (first ? "" : ",") << jstr(p.first) << ":";
        if (std::isfinite(p.second)) f << p.second; else f << "1e999";
        first = false;
    }
    f << "},\"keys\":{";
    first = true;
    for (auto& p : s.keycount) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& p : s.samples)
        for (auto& t : p.second) { f << (first ? "" : ",") << jstr(p.first + ": " + t); first = false; }
    f << "],\"violations\":[";
    first = true;
    for (auto& v : s.violations) {
        f << (first ? "" : ",") << "{\"key\":" << jstr(v.key) << ",\"section\":" << jstr(v.section) << ",\"case\":" << v.index
          << ",\"inputs\":" << jstr(v.inputs) << ",\"detail\":" << jstr(v.detail) << "}";
        first = false;
    }
    f << "]}\n";
    f.close();
    std::ofstream h(s.out + ".hash", std::ios::binary);
    for (uint64_t x : s.distinct) h.write((const char*)&x, 8);
}

inline void write_report() {
    std::lock_guard<std::mutex> g(S().mtx);
    write_report_locked();
}
// on a crash or hang keep what was seen so far
inline void on_death() {
    if (!S().out.empty() && S().mtx.try_lock()) {
        write_report_locked();
        S().mtx.unlock();
    }
}

inline void init(int argc, char** argv) {
    State& s = S();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") s.shard = atoi(val().c_str());
        else if (a == "--nshards") s.nshards = atoi(val().c_str());
        else if (a == "--tier") s.tier = val();
        else if (a == "--scale") s.scale = atof(val().c_str());
        else if (a == "--out") s.out = val();
        else if (a == "--scratch") s.scratch = val();
        else if (a == "--limit") s.limit = atoi(val().c_str());
        else if (a == "--budget") s.budget = atof(val().c_str());
        else if (a == "--only") {
            std::string o = val();
            auto p = o.rfind(':');
            if (p == std::string::npos) s.only_section = o;
            else { s.only_section = o.substr(0, p); s.only_case = atol(o.c_str() + p + 1); }
        } else if (a == "--resume") {
            std::string o = val();
            auto p = o.rfind(':');
            s.resume_section = o.substr(0, p);
            s.resume_case = atol(o.c_str() + p + 1);
            s.resuming = true;
        } else if (a == "--verbose") s.verbose = true;
    }
    if (!s.out.empty()) {
        int fd = open((s.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 256) == 0)
            s.progress = (char*)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (s.progress == MAP_FAILED) s.progress = nullptr;
    } else s.verbose = true;
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
    __sanitizer_set_death_callback(on_death);
#endif
#endif
    // quiet library chatter
    if (!getenv("VT_COUT")) std::cout.setstate(std::ios::failbit);
    static volatile sig_atomic_t told_to_end = 0;
    signal(SIGTERM, [](int) { told_to_end = 1; });
    std::thread([]() {
        long last = -1; int idle = 0;
        for (;;) {
            std::this_thread::sleep_for(std::chrono::seconds(1));
            if (told_to_end) { on_death(); _exit(98); }
            long t = S().tick.load(std::memory_order_relaxed);
            if (t == last) ++idle; else { idle = 0; last = t; }
            if (idle > S().limit) {
                fprintf(stderr, "VT-HANG\n");
                on_death();
                _exit(97);
            }
        }
    }).detach();
}

// far less time is needed once something was found
inline bool over_budget() {
    double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - S().started).count();
    if (t > S().budget) return true;
    if (t < 0.4 * S().budget) return false;
    std::lock_guard<std::mutex> g(S().mtx);
    return !S().keycount.empty();
}

template <class F>
void section(const std::string& name, long count, F f) {
    State& s = S();
    if (!s.only_section.empty() && s.only_section != name) return;
    long total = std::max(1L, (long)std::llround(count * s.scale)), done = 0;
    if (s.resuming && s.resume_section != name) return;  // already done before the crash
    for (long i = 0; i < total; ++i) {
        if (s.only_case >= 0 ? i != s.only_case : (i % s.nshards) != s.shard) continue;
        if (s.resuming && i <= s.resume_case) continue;
        if (done >= 3 && over_budget()) { obs("sections cut short"); break; }
        ++done;
        setprogress(name, i);
        Rng rng(s.seed * 1000003ULL + hashs(name) + mix((uint64_t)i));
        Case c(name, i, rng);
        try {
            f(c, rng);
        } catch (const std::exception& e) {
            c.fail("exception:" + name, std::string("unexpected exception: ") + e.what());
        } catch (const char* e) {
            c.fail("exception:" + name, std::string("unexpected exception: ") + e);
        } catch (...) {
            c.fail("exception:" + name, "unexpected exception of unknown type");
        }
        ++s.evaluations;
        std::string d = c.desc.str();
        if (c.nontriv) s.distinct.insert(hashs(name + d));
        auto& smp = s.samples[name];
        if (smp.size() < 2 && s.shard == 0) smp.push_back(d.substr(0, 600));
        if (s.verbose && s.only_case >= 0) std::cerr << name << ":" << i << " " << d << std::endl;
    }
    s.resuming = false;
}

inline int finish() {
    write_report();
    if (S().verbose) {
        for (auto& p : S().obs) std::cerr << "obs " << p.first << " " << p.second << "\n";
        for (auto& p : S().maxv) std::cerr << "max " << p.first << " " << p.second << "\n";
        for (auto& p : S().keycount) std::cerr << "KEY " << p.first << " x" << p.second << "\n";
        std::cerr << "evaluations " << S().evaluations << " distinct " << S().distinct.size() << std::endl;
    }
    fflush(nullptr);
    _exit(0);
}

}  // namespace vt
using vt::Case;
using vt::Rng;
