// developer aid: one line per generated case with the hash of its srcML, to compare two trees
#include "api.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace pbt; using namespace api;
int main(int argc, char** argv) {
    quietXml();
    int from = atoi(argv[1]), to = atoi(argv[2]); bool show = argc > 3;
    Slot* sl = (Slot*) mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = from; i < to; ++i) {
        fflush(stdout);
        memset(sl, 0, 64); sl->nchoices = 0; sl->labellen = 0; sl->dumplen = 0;
        pid_t p = fork();
        if (!p) {
            rlimit r{3, 3}; setrlimit(RLIMIT_CPU, &r); rlimit z{0,0}; setrlimit(RLIMIT_CORE, &z);
            try {
            Ctx c(sl, 7777 + i * 1000003ull, nullptr);
            std::string lang = gen::language(c); Opts o; o.src_encoding = "UTF-8"; if (c.boolean()) o.options |= SRCML_OPTION_POSITION; if (c.boolean()) o.options |= SRCML_OPTION_CPP;
            std::string src = gen::source(c, lang, 1);
            std::string d = document(src, lang, o);
            printf("%d %s\n", i, sha1(d).c_str());
            if (show) printf("%s\n%s\n%s\n", lang.c_str(), src.c_str(), d.c_str());
            } catch (Discard&) {}
            fflush(stdout); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (st) { printf("%d died %d\n", i, st); }
    }
}
