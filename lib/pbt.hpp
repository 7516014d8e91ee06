// Small property-based-testing engine: choice-sequence generators, fork-per-case isolation,
// crash/hang detection, choice-sequence shrinking, replay files, evidence writer.
// Every case is a pure function of (code under test, VERIF_SEED, case index).
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>

namespace pbt {

struct Discard {};

constexpr size_t MAXCH = 1u << 17;

struct Slot {                       // lives in shared memory, so it survives a crash of the case
    volatile int state;             // 0 running, 1 passed, 2 failed, 3 discarded
    volatile int nontrivial;
    volatile uint32_t nchoices;
    uint64_t choices[MAXCH];
    char kind[256];
    char detail[1 << 16];
    char dump[1 << 16];
    uint32_t dumplen;
    char labels[1 << 13];
    uint32_t labellen;
    uint64_t hash;
    volatile uint64_t evals;        // sub-evaluations made inside the case
};

class Ctx {
public:
    Ctx(Slot* s, uint64_t seed, const std::vector<uint64_t>* replay) : s(s), replay(replay), st(seed) {}

    // uniform in [0,n)
    uint64_t draw(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay) v = pos < replay->size() ? (*replay)[pos] % n : 0;
        else v = next() % n;
        ++pos;
        if (s->nchoices >= MAXCH) throw Discard();
        s->choices[s->nchoices] = v;
        s->nchoices = s->nchoices + 1;
        return v;
    }
    int range(int lo, int hi) { return lo + (int) draw((uint64_t)(hi - lo + 1)); }    // inclusive
    bool boolean() { return draw(2) == 1; }
    bool chance(int num, int den) { return (int) draw(den) >= den - num; }            // 0 shrinks to false
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + draw(l.size())); }
    // skewed size in [0,max]: usually small, sometimes large
    int size(int max) {
        int k = (int) draw(8);
        int m = k < 4 ? std::min(max, 4) : k < 6 ? std::min(max, 16) : k < 7 ? std::min(max, 64) : max;
        return (int) draw(m + 1);
    }

    void label(const std::string& l) {
        if (s->labellen + l.size() + 2 < sizeof(s->labels)) {
            memcpy(s->labels + s->labellen, l.data(), l.size());
            s->labellen += l.size();
            s->labels[s->labellen++] = '\n';
        }
    }
    void nontrivial(bool b = true) { if (b) s->nontrivial = 1; }
    void evals(uint64_t n = 1) { s->evals = s->evals + n; }
    void note(const std::string& n) {
        for (char c : n) { s->hash = (s->hash ^ (unsigned char) c) * 1099511628211ull; }
        for (unsigned char ch : n) {
            if (s->dumplen + 8 > sizeof(s->dump)) break;
            if ((ch < 32 && ch != '\n' && ch != '\t') || ch == 127) s->dumplen += snprintf(s->dump + s->dumplen, 6, "\\x%02x", ch);
            else s->dump[s->dumplen++] = ch;
        }
        if (s->dumplen + 2 < sizeof(s->dump)) s->dump[s->dumplen++] = '\n';
        s->dump[s->dumplen] = 0;
    }
    [[noreturn]] void fail(const std::string& kind, const std::string& detail);
    void check(bool ok, const std::string& kind, const std::string& detail = "") { if (!ok) fail(kind, detail); }
    template<class F> void checkf(bool ok, const std::string& kind, F f) { if (!ok) fail(kind, f()); }
    void eq(const std::string& got, const std::string& want, const std::string& kind, const std::string& extra = "");
    [[noreturn]] void discard() { throw Discard(); }

    Slot* s;
private:
    uint64_t next() {
        uint64_t z = (st += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    const std::vector<uint64_t>* replay;
    size_t pos = 0;
    uint64_t st;
};

// runs f in a process of its own, so that what it does to global state ends with the case
void isolated(Ctx& c, const std::function<void()>& f);

std::string quote(const std::string& s, size_t max = 600);   // printable form

struct Directed { std::string name; std::string what; std::function<void(Ctx&)> fn; };

struct Check {
    std::string id;
    std::string rule;                          // how cases are made, what is non-trivial
    std::function<void(Ctx&)> prop;
    int quick_cases = 1000;
    int thorough_cases = 20000;
    std::vector<Directed> directed;            // explicit cases: regressions and known findings
    bool schedules = false;                    // failures may depend on the schedule: reproduce at least once of many
    int cpu_limit = 30;                        // CPU seconds of one case
    int wall_limit = 40;                       // seconds without an end: deadlock
    int workers = 8;
    bool need_labels = false;
    std::vector<std::string> required_labels;  // classes the generator has to reach (reported)
};

int run(const Check& c, int argc, char** argv);

} // namespace pbt
#endif
