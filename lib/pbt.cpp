#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <iostream>
#include <sstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define PBT_ASAN 1
#endif

namespace pbt {

std::string quote(const std::string& s, size_t max) {
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        if (i >= max) { r += "\"...(" + std::to_string(s.size()) + " bytes)"; return r; }
        unsigned char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void Ctx::fail(const std::string& kind, const std::string& detail) {
    snprintf(s->kind, sizeof s->kind, "%s", kind.c_str());
    size_t l = std::min(detail.size(), sizeof(s->detail) - 1);
    memcpy(s->detail, detail.data(), l);
    s->detail[l] = 0;
    s->state = 2;
    _exit(0);
}

void isolated(Ctx& c, const std::function<void()>& f) {
    pid_t k = fork();
    if (k == 0) { try { f(); } catch (Discard&) { _exit(77); } _exit(0); }
    int st = 0;
    if (k < 0 || waitpid(k, &st, 0) != k) { perror("fork"); abort(); }
    if (c.s->state == 2) _exit(0);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) throw Discard();
    if (st) _exit(WEXITSTATUS(st));
}

void Ctx::eq(const std::string& got, const std::string& want, const std::string& kind, const std::string& extra) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t from = i > 60 ? i - 60 : 0;
    fail(kind, extra + "\n  first difference at byte " + std::to_string(i)
        + "\n  got : ..." + quote(got.substr(from, 240)) + " (" + std::to_string(got.size()) + " bytes)"
        + "\n  want: ..." + quote(want.substr(from, 240)) + " (" + std::to_string(want.size()) + " bytes)"
        + "\n  full got : " + quote(got, 3000) + "\n  full want: " + quote(want, 3000));
}

namespace {

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

struct Outcome { int state; std::string kind, detail; };

template<class T> T* shared(size_t n = 1) {
    void* p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (T*) p;
}

std::string workdir;      // scratch directory of this run, removed at the end

std::string slurp(const std::string& f, size_t max = 20000) {
    std::ifstream in(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), {});
    if (s.size() > max) s = s.substr(0, max);
    return s;
}

// one case in a child of its own
Outcome runCase(const Check& chk, const std::function<void(Ctx&)>& fn, Slot* slot, const std::string& tag, uint64_t seed,
                const std::vector<uint64_t>* replay, int cpu, int wall) {
    slot->state = 0; slot->nontrivial = 0; slot->nchoices = 0; slot->kind[0] = slot->detail[0] = slot->dump[0] = 0;
    slot->dumplen = slot->labellen = 0; slot->hash = 1469598103934665603ull; slot->evals = 0;
    std::string dir = workdir + "/" + tag;
    std::string errf = workdir + "/" + tag + ".err";
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        fd = open("/dev/null", O_RDONLY);
        if (fd >= 0) { dup2(fd, 0); close(fd); }
        rlimit rl; rl.rlim_cur = 110u << 20; rl.rlim_max = 110u << 20; setrlimit(RLIMIT_STACK, &rl);      // deep documents
        rl.rlim_cur = cpu; rl.rlim_max = cpu + 5; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifndef PBT_ASAN
        rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
        itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &it, 0);
        signal(SIGPIPE, SIG_IGN);
        mkdir(dir.c_str(), 0700);
        if (chdir(dir.c_str())) _exit(3);
        Ctx c(slot, seed, replay);
        try { fn(c); slot->state = 1; }
        catch (Discard&) { slot->state = 3; }
        fflush(0);
        // leaving without destructors: threads the library may still own must not hide a finished case
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.state = slot->state;
    if (slot->state == 2) { o.kind = slot->kind; o.detail = slot->detail; return o; }
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        o.state = 2;
        if (sg == SIGXCPU || sg == SIGALRM) o.kind = "hang";
        else if (sg == SIGKILL && slot->state == 0) { o.kind = "killed"; }
        else o.kind = "crash";
        o.detail = std::string("case ended by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")\n" + slurp(errf, 6000);
    } else if (WEXITSTATUS(st) != 0) {
        o.state = 2; o.kind = "crash";
        o.detail = "case exited with status " + std::to_string(WEXITSTATUS(st)) + "\n" + slurp(errf, 6000);
    } else if (slot->state == 0) {
        o.state = 2; o.kind = "exit"; o.detail = "the code under test ended the process\n" + slurp(errf, 6000);
    }
    return o;
}

void cleandir(const std::string& tag) {
    // only ever a directory below our own scratch directory
    if (workdir.size() < 6) return;
    std::string cmd = "/bin/rm -rf -- '" + workdir + "/" + tag + "'";
    if (system(cmd.c_str())) {}
}

// shrink: delete chunks, zero, reduce values; the same kind of failure is required
void shrink(const Check& chk, Slot* slot, const std::string& tag, std::vector<uint64_t>& best, Outcome& o, std::string& dump, double budget) {
            double ts = now();
            auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
                if (now() - ts > budget) return false;
                for (int k = 0; k < (chk.schedules ? 5 : 1); ++k) {
                    Outcome p = runCase(chk, chk.prop, slot, tag, 0, &cand, o.kind == "hang" ? 6 : chk.cpu_limit, o.kind == "hang" ? 8 : chk.wall_limit);
                    cleandir(tag);
                    if (p.state == 2 && p.kind == o.kind) {
                        std::vector<uint64_t> used(slot->choices, slot->choices + slot->nchoices);
                        if (used.size() < cand.size() || (used.size() == cand.size() && !(cand < used))) best = used.size() <= cand.size() ? used : cand; else best = cand;
                        o = p; dump = slot->dump;
                        return true;
                    }
                }
                return false;
            };
            bool progress = true;
            while (progress && now() - ts < budget) {
                progress = false;
                for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
                    for (size_t i = 0; i + len <= best.size() && now() - ts < budget; ) {
                        std::vector<uint64_t> c2 = best;
                        c2.erase(c2.begin() + i, c2.begin() + i + len);
                        std::vector<uint64_t> before = best;
                        if (attempt(c2) && best.size() < before.size()) progress = true; else { if (best.size() > before.size()) best = before; i += len; }
                    }
                    if (len == 1) break;
                }
                for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2) {
                    for (size_t i = 0; i < best.size() && now() - ts < budget; i += len) {
                        std::vector<uint64_t> c2 = best; bool any = false;
                        for (size_t k = i; k < std::min(best.size(), i + len); ++k) if (c2[k]) { c2[k] = 0; any = true; }
                        if (any && attempt(c2)) progress = true;
                    }
                    if (len == 1) break;
                }
                for (size_t i = 0; i < best.size() && now() - ts < budget; ++i) {
                    uint64_t lo = 0;
                    while (i < best.size() && best[i] > lo && now() - ts < budget) {
                        std::vector<uint64_t> c2 = best;
                        c2[i] = lo + (best[i] - lo) / 2;
                        if (c2[i] == best[i]) break;
                        uint64_t old = best[i];
                        if (attempt(c2)) { progress = true; if (i < best.size() && best[i] >= old) break; }
                        else { if (c2[i] + 1 >= old) break; lo = c2[i] + 1; }
                    }
                }
            }
}

std::string jsonstr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

std::string replayText(const Check& chk, const std::string& caseName, const std::vector<uint64_t>& ch, const Outcome& o, const std::string& dump) {
    std::ostringstream r;
    r << "property " << chk.id << "\n";
    if (!caseName.empty()) r << "directed " << caseName << "\n";
    r << "choices";
    for (auto v : ch) r << ' ' << v;
    r << "\nkind " << o.kind << "\n\n--- case ---\n" << dump << "\n--- failure ---\n" << o.detail << "\n";
    return r.str();
}

struct Known { std::string key, text; };

std::vector<Known> knownFindings(const std::string& id, const std::string& root) {
    std::vector<Known> v;
    std::ifstream in(root + "/known_findings.txt");
    std::string l;
    while (std::getline(in, l)) {
        // finding: property=C01 key=<directed case> <text>
        std::string p = "finding: property=" + id + " key=";
        if (l.compare(0, p.size(), p)) continue;
        size_t e = l.find(' ', p.size());
        v.push_back({ l.substr(p.size(), e == std::string::npos ? e : e - p.size()), e == std::string::npos ? "" : l.substr(e + 1) });
    }
    return v;
}

} // namespace

int run(const Check& chk0, int argc, char** argv) {
    Check chk = chk0;
    double t0 = now();
    const char* rootenv = getenv("VERIF_ROOT");
    std::string root = rootenv ? rootenv : "/verif";
    uint64_t seed = 1;
    if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, 0, 10);
    std::string tier = "quick";
    if (const char* e = getenv("VERIF_TIER")) if (!strcmp(e, "thorough")) tier = "thorough";
    std::string replayFile, only;
    int cases = -1; bool triage = false, noevidence = false, keepgoing = false, verbose = false, dumpSamples = false;
    double maxwall = 0; int cpuOverride = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) replayFile = argv[++i];
        else if (a == "--cases" && i + 1 < argc) cases = atoi(argv[++i]);
        else if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10);
        else if (a == "--tier" && i + 1 < argc) tier = argv[++i];
        else if (a == "--wall" && i + 1 < argc) maxwall = atof(argv[++i]);
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--no-evidence") noevidence = true;
        else if (a == "--keep-going") keepgoing = true;
        else if (a == "--triage") triage = keepgoing = noevidence = true;
        else if (a == "--samples") dumpSamples = true;
        else if (a == "-v") verbose = true;
        else if (a == "--cpu" && i + 1 < argc) cpuOverride = atoi(argv[++i]);
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (cpuOverride) { chk.cpu_limit = cpuOverride; }
    if (cases < 0) cases = tier == "thorough" ? chk.thorough_cases : chk.quick_cases;
    if (const char* e = getenv("VERIF_CASES")) cases = atoi(e);
    if (maxwall == 0) maxwall = tier == "thorough" ? 6000 : 420;

    // scratch directory: memory-backed if possible
    {
        std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = base + "/verif-" + chk.id + "-XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); return 3; }
        workdir = b.data();
    }
    struct Cleanup { ~Cleanup() { if (workdir.size() > 6) { std::string c = "/bin/rm -rf -- '" + workdir + "'"; if (system(c.c_str())) {} } } } cleanup;

    Slot* main_slot = shared<Slot>();

    auto findDirected = [&](const std::string& n) -> const Directed* { for (auto& d : chk.directed) if (d.name == n) return &d; return nullptr; };

    if (!replayFile.empty()) {
        std::ifstream in(replayFile);
        std::string l, dname; std::vector<uint64_t> ch;
        while (std::getline(in, l)) {
            if (!l.compare(0, 9, "directed ")) dname = l.substr(9);
            if (!l.compare(0, 7, "choices")) { std::istringstream is(l.substr(7)); uint64_t v; while (is >> v) ch.push_back(v); break; }
        }
        const Directed* d = dname.empty() ? nullptr : findDirected(dname);
        Outcome o = runCase(chk, d ? d->fn : chk.prop, main_slot, "r", 0, &ch, chk.cpu_limit, chk.wall_limit);
        printf("%s\n", main_slot->dump);
        if (o.state == 2) { printf("REPRODUCED %s: %s\n", o.kind.c_str(), o.detail.c_str()); return 1; }
        printf("replay: no failure\n");
        return 0;
    }

    int violations = 0;
    std::string replaydir = root + "/replays";
    mkdir(replaydir.c_str(), 0755);
    auto report = [&](const std::string& name, const std::vector<uint64_t>& ch, const Outcome& o, const std::string& dump) {
        std::string text = replayText(chk, name, ch, o, dump);
        char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long) fnv(text));
        std::string path = replaydir + "/" + chk.id + "-" + b + ".txt";
        std::ofstream(path) << text;
        printf("%s\n", text.substr(0, 6000).c_str());
        printf("VIOLATION property=%s replay=%s\n", chk.id.c_str(), path.c_str());
        fflush(stdout);
        ++violations;
    };

    uint64_t evaluations = 0, subevals = 0, discarded = 0, unreproduced = 0, over = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> skipped;
    uint64_t known_seen = 0;

    // ---- directed cases: regressions of fixed defects, known findings, boundary examples
    auto known = knownFindings(chk.id, root);
    for (auto& d : chk.directed) {
        if (!only.empty() && only != d.name) continue;
        std::vector<uint64_t> none;
        Outcome o = runCase(chk, d.fn, main_slot, "d", 0, &none, chk.cpu_limit, chk.wall_limit);
        cleandir("d");
        ++evaluations;
        labels["directed"]++;
        const Known* k = nullptr;
        for (auto& kk : known) if (kk.key == d.name) k = &kk;
        if (o.state != 2) { if (k && verbose) fprintf(stderr, "known finding %s no longer fails\n", d.name.c_str()); continue; }
        if (k) {
            ++known_seen;
            printf("KNOWN-FINDING: property=%s %s: %s\n", chk.id.c_str(), d.name.c_str(), k->text.c_str());
            if (verbose) printf("   %s: %s\n", o.kind.c_str(), o.detail.c_str());
            continue;
        }
        int again = 0, tries = chk.schedules ? 30 : 3;
        std::string dump = main_slot->dump;
        for (int i = 0; i < tries; ++i) {
            if (runCase(chk, d.fn, main_slot, "d", 0, &none, chk.cpu_limit, chk.wall_limit).state == 2) ++again;
            cleandir("d");
            if (chk.schedules && again) break;
        }
        if (again == tries || (chk.schedules && again)) { report(d.name, none, o, d.what + "\n" + dump); if (!keepgoing) break; }
        else ++unreproduced;
    }

    // ---- generated cases
    if (chk.prop && (violations == 0 || keepgoing) && only.empty()) {
        struct Shared { std::atomic<int> stop; };
        Shared* sh = shared<Shared>();
        int W = chk.workers;
        std::vector<pid_t> pids;
        fflush(0);
        for (int w = 0; w < W; ++w) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                Slot* slot = shared<Slot>();
                std::string tag = "w" + std::to_string(w);
                std::ofstream out(workdir + "/" + tag + ".out", std::ios::binary);
                std::map<std::string, uint64_t> lab;
                uint64_t ev = 0, sub = 0, disc = 0; int nsamp = 0;
                std::vector<uint64_t> hashes;
                for (int i = w; i < cases; i += W) {
                    if (sh->stop.load() && !keepgoing) break;
                    if (now() - t0 > maxwall) { out << "OVER 1\n"; break; }
                    Outcome o = runCase(chk, chk.prop, slot, tag, mix(mix(seed, fnv(chk.id)), i), nullptr, chk.cpu_limit, chk.wall_limit);
                    if (access((workdir + "/" + tag).c_str(), F_OK) == 0 && rmdir((workdir + "/" + tag).c_str()) != 0) cleandir(tag);
                    ++ev; sub += slot->evals;
                    if (o.state == 3) ++disc;
                    std::istringstream is(std::string(slot->labels, slot->labellen));
                    std::string l; std::set<std::string> seen;
                    while (std::getline(is, l)) if (seen.insert(l).second) lab[l]++;
                    if (o.state == 1 && slot->nontrivial) {
                        hashes.push_back(slot->hash);
                        if (nsamp < (dumpSamples ? 20 : 1) && i >= W * 3) { out << "SAMPLE " << slot->dumplen << "\n"; out.write(slot->dump, slot->dumplen); out << "\n"; ++nsamp; }
                    }
                    if (o.state == 2) {
                        if (triage) {
                            std::vector<uint64_t> b(slot->choices, slot->choices + slot->nchoices);
                            std::string dump = slot->dump; Outcome q = o;
                            shrink(chk, slot, tag, b, q, dump, 25);
                            out << "TRIAGE " << q.kind << "\n" << dump << "\n" << q.detail.substr(0, 1500) << "\nENDTRIAGE\n"; out.flush();
                            continue;
                        }
                        out << "FAIL " << i << " " << slot->nchoices;
                        for (uint32_t k = 0; k < slot->nchoices; ++k) out << ' ' << slot->choices[k];
                        out << "\n"; out.flush();
                        if (!keepgoing) { sh->stop = 1; break; }
                    }
                }
                out << "COUNT " << ev << ' ' << sub << ' ' << disc << "\n";
                for (auto& kv : lab) out << "LABEL " << kv.second << ' ' << kv.first << "\n";
                out << "HASHES " << hashes.size(); for (auto h : hashes) out << ' ' << h; out << "\n";
                out.close();
                _exit(0);
            }
            pids.push_back(p);
        }
        for (auto p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }

        std::vector<std::pair<int, std::vector<uint64_t>>> fails;
        for (int w = 0; w < W; ++w) {
            std::ifstream in(workdir + "/w" + std::to_string(w) + ".out", std::ios::binary);
            std::string l;
            while (std::getline(in, l)) {
                std::istringstream is(l); std::string k; is >> k;
                if (k == "TRIAGE") { printf("=== %s\n", l.c_str()); while (std::getline(in, l) && l != "ENDTRIAGE") printf("%s\n", l.c_str()); continue; }
                if (k == "COUNT") { uint64_t a, b, d; is >> a >> b >> d; evaluations += a; subevals += b; discarded += d; }
                else if (k == "OVER") ++over;
                else if (k == "LABEL") { uint64_t n; is >> n; std::string rest; std::getline(is, rest); labels[rest.substr(1)] += n; }
                else if (k == "HASHES") { size_t n; is >> n; uint64_t h; while (is >> h) distinct.insert(h); }
                else if (k == "SAMPLE") { size_t n; is >> n; std::string s(n, 0); in.read(&s[0], n); in.get(); if (samples.size() < (dumpSamples ? 200 : 8)) samples.push_back(s); }
                else if (k == "FAIL") { int i; size_t n; is >> i >> n; std::vector<uint64_t> ch; uint64_t v; while (is >> v) ch.push_back(v); fails.push_back({ i, ch }); }
            }
        }
        std::sort(fails.begin(), fails.end(), [](const std::pair<int, std::vector<uint64_t>>& a, const std::pair<int, std::vector<uint64_t>>& b) { return a.first < b.first; });

        std::set<std::string> kindsDone;
        for (auto& f : fails) {
            if (violations && !keepgoing) break;
            std::vector<uint64_t> best = f.second;
            int tries = chk.schedules ? 30 : 3, again = 0;
            Outcome o; std::string dump;
            for (int i = 0; i < tries; ++i) {
                Outcome p = runCase(chk, chk.prop, main_slot, "s", 0, &best, chk.cpu_limit, chk.wall_limit);
                cleandir("s");
                if (p.state == 2) { ++again; o = p; dump = main_slot->dump; if (chk.schedules) break; }
                else if (!chk.schedules) break;
            }
            if (!(again == tries || (chk.schedules && again))) { ++unreproduced; fprintf(stderr, "case %d failed once but did not reproduce: inconclusive\n", f.first); continue; }
            if (!kindsDone.insert(o.kind).second) continue;
            shrink(chk, main_slot, "s", best, o, dump, tier == "thorough" ? 180 : 60);
            report("", best, o, dump);
        }
    }

    // ---- evidence
    double wall = now() - t0;
    if (!noevidence) {
        std::string dir = root + "/evidence";
        mkdir(dir.c_str(), 0755);
        std::ofstream ev(dir + "/" + chk.id + ".json");
        ev << "{\n \"property\": " << jsonstr(chk.id) << ",\n \"tier\": " << jsonstr(tier) << ",\n \"seed\": " << seed
           << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations
           << ",\n  \"distinct_nontrivial\": " << distinct.size()
           << ",\n  \"rule\": " << jsonstr(chk.rule)
           << ",\n  \"checks_inside_cases\": " << subevals
           << ",\n  \"discarded\": " << discarded
           << ",\n  \"failed_once_not_reproduced\": " << unreproduced
           << ",\n  \"known_findings_seen\": " << known_seen
           << ",\n  \"stopped_by_wall_limit\": " << (over ? "true" : "false")
           << ",\n  \"classes\": {";
        bool first = true;
        for (auto& kv : labels) { ev << (first ? "" : ",") << "\n   " << jsonstr(kv.first) << ": " << kv.second; first = false; }
        ev << "\n  },\n  \"samples\": [";
        first = true;
        for (auto& s : samples) { ev << (first ? "" : ",") << "\n   " << jsonstr(s.substr(0, 1500)); first = false; }
        if (samples.empty()) ev << "\n   " << jsonstr("directed cases only");
        ev << "\n  ]\n },\n \"assumptions\": [\"each case ran in a process of its own built from the current /repo sources\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s: %llu cases (%llu inner checks), %zu distinct non-trivial, %llu discarded, %llu unreproduced, %d violation(s), %.1f s\n", chk.id.c_str(),
           (unsigned long long) evaluations, (unsigned long long) subevals, distinct.size(), (unsigned long long) discarded, (unsigned long long) unreproduced, violations, wall);
    if (verbose) for (auto& kv : labels) printf("   %8llu %s\n", (unsigned long long) kv.second, kv.first.c_str());
    if (dumpSamples) for (auto& s : samples) printf("--- sample\n%s\n", s.c_str());
    fflush(stdout);
    return violations ? 1 : 0;
}

} // namespace pbt
