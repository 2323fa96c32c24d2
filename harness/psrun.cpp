// Fork server around the real interpreter. The sources of /repo/src are compiled with
// -Dmain=psc_main and linked with this file; every request runs psc_main() in a fresh
// child with its own stdin/stdout/stderr, working directory, budgets and limits, so that
// one execution can neither influence the next one nor anything outside the scratch
// directory (the server drops its privileges before the first request).
//
// A request with flag 8 is a batch: one child runs psc_main() once per item (each with its own
// program, standard input and data files) and records how each of them ended. A batch is only
// used to find items that end in a disorderly way: such an item is run again on its own.
//
// usage: psrun SCRATCH_DIR      (requests on fd 0, responses on fd 1)
#undef main
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(PSC_VERIF) && __has_include("psc/verif.h")
#include "pch.h"
#include "psc/verif.h"
#define HAVE_BUDGET 1
#endif

int psc_main(int argc, char **argv) __attribute__((weak));
int psc_main(int argc, const char **argv) __attribute__((weak));

static int callMain(int argc, char **argv) {
    int (*m)(int, char **) = psc_main;
    if (m) return m(argc, argv);
    int (*c)(int, const char **) = psc_main;
    return c(argc, const_cast<const char **>(argv));
}

// Set by main() and not reset by it; weak, so that a tree that keeps them elsewhere still links
extern std::string psfilename __attribute__((weak));
extern bool REPLMode __attribute__((weak)), pedantic __attribute__((weak));

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
    return "exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_abort=0:symbolize=0:quarantine_size_mb=2:thread_local_quarantine_size_kb=64:"
           "malloc_context_size=3:max_allocation_size_mb=512:check_printf=0";
}
extern "C" const char *__ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=77";
}
#endif

// rand() is an environment answer: the request may script it
static std::vector<int> randScript;
static size_t randPos = 0;
static unsigned long long randState = 88172645463325252ULL;
extern "C" int rand(void) noexcept {
    if (randPos < randScript.size()) return randScript[randPos++];
    randState = randState * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int) ((randState >> 33) & 0x7fffffff);
}

namespace {

void die(const char *what) {
    fprintf(stderr, "psrun: %s: %s\n", what, strerror(errno));
    _exit(3);
}

void readAll(int fd, char *buf, size_t n) {
    while (n > 0) {
        ssize_t r = read(fd, buf, n);
        if (r == 0) _exit(0);
        if (r < 0) { if (errno == EINTR) continue; die("read"); }
        buf += r; n -= r;
    }
}

void writeAll(int fd, const char *buf, size_t n) {
    while (n > 0) {
        ssize_t r = write(fd, buf, n);
        if (r < 0) { if (errno == EINTR) continue; die("write"); }
        buf += r; n -= r;
    }
}

struct In {
    std::string b; size_t p = 0;
    uint32_t u32() { if (p + 4 > b.size()) { errno = EPROTO; die("request"); } uint32_t v; memcpy(&v, b.data() + p, 4); p += 4; return v; }
    std::string str() { uint32_t n = u32(); if (p + n > b.size()) { errno = EPROTO; die("request"); } std::string s = b.substr(p, n); p += n; return s; }
};

void put32(std::string &o, uint32_t v) { o.append((const char*) &v, 4); }
void putStr(std::string &o, const std::string &s) { put32(o, s.size()); o += s; }

void rmTree(int dfd) {
    // removes everything below the directory dfd refers to; never follows symbolic links
    int d2 = openat(dfd, ".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (d2 < 0) return;
    DIR *d = fdopendir(d2);
    if (!d) { close(d2); return; }
    std::vector<std::string> names;
    while (dirent *e = readdir(d)) {
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    }
    for (auto &n : names) {
        if (unlinkat(dirfd(d), n.c_str(), 0) == 0) continue;
        int sub = openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
        if (sub < 0) {
            fchmodat(dirfd(d), n.c_str(), 0700, 0);
            sub = openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
        }
        if (sub >= 0) { fchmod(sub, 0700); rmTree(sub); close(sub); }
        unlinkat(dirfd(d), n.c_str(), AT_REMOVEDIR);
    }
    closedir(d);
}

std::string slurp(int fd, size_t cap) {
    std::string s;
    struct stat st;
    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        size_t n = std::min<size_t>(st.st_size, cap);
        s.resize(n);
        ssize_t r = n ? pread(fd, s.data(), n, 0) : 0;
        s.resize(r > 0 ? r : 0);
    }
    return s;
}

void writeFile(int dfd, const char *name, const std::string &data, mode_t mode) {
    int fd = openat(dfd, name, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC | O_NOFOLLOW, 0600);
    if (fd < 0) die("create file");
    writeAll(fd, data.data(), data.size());
    fchmod(fd, mode);
    close(fd);
}

int memfd(const char *name) {
    int fd = memfd_create(name, MFD_CLOEXEC);
    if (fd < 0) die("memfd");
    return fd;
}

// One run of the interpreter inside the batch child. fd 0, 1, 2 are memory files.
[[maybe_unused]] void putFd(int fd, const std::string &s) {
    if (ftruncate(fd, 0)) _exit(102);
    lseek(fd, 0, SEEK_SET);
    if (!s.empty()) { writeAll(fd, s.data(), s.size()); lseek(fd, 0, SEEK_SET); }
}

void runBatch(In &in, int resFd, int progFd, int dirFd, uint32_t steps, uint32_t depth, uint32_t cells, uint32_t maxString) {
    uint32_t n = in.u32();
    std::string *fname = &psfilename;
    bool *replFlag = &REPLMode, *pedFlag = &pedantic;
    const bool alone = !fname || !replFlag || !pedFlag;   // a process for every item then
    for (uint32_t i = 0; i < n; i++) {
        uint32_t mode = in.u32();   // 1: pedantic, 2: REPL, 4: has files
        std::string prog = in.str(), input = in.str();
        rmTree(dirFd);
        if (mode & 4) {
            uint32_t nf = in.u32();
            for (uint32_t j = 0; j < nf; j++) {
                std::string name = in.str(), data = in.str();
                writeFile(dirFd, name.c_str(), data, 0644);
            }
        }
        putFd(progFd, prog);
        putFd(0, input);
        if (alone) {
            pid_t pid = fork();
            if (pid < 0) _exit(103);
            if (pid) {
                int st = 0;
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
                if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(104); }
                if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
                continue;
            }
        }
        rewind(stdin);
        std::cin.clear();
        if (fname) *fname = "<stdin>";
        if (replFlag) *replFlag = true;
        if (pedFlag) *pedFlag = false;
        randPos = 0;
#ifdef HAVE_BUDGET
        PSC::Verif::steps = steps; PSC::Verif::depth = depth; PSC::Verif::cells = cells; PSC::Verif::maxString = maxString;
#endif
        char a0[] = "PseudoEngine2", a1[] = "-p", a2[] = "../p";
        std::vector<char*> av{a0};
        if (mode & 1) av.push_back(a1);
        if (!(mode & 2)) av.push_back(a2);
        int argc = av.size();
        av.push_back(nullptr);
        uint32_t code = callMain(argc, av.data());
        std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
        std::cout.clear(); std::cerr.clear();
        std::string rec;
        put32(rec, code);
        putStr(rec, slurp(2, 600));
        writeAll(resFd, rec.data(), rec.size());
        putFd(1, ""); putFd(2, "");
        if (alone) _exit(0);
    }
    _exit(0);
}

int waitChild(pid_t pid, int timeoutMs, bool &timedOut) {
    timedOut = false;
    int status;
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    int pfd = syscall(SYS_pidfd_open, pid, 0);
    if (pfd >= 0) {
        struct pollfd p = {pfd, POLLIN, 0};
        int left = timeoutMs;
        while (true) {
            int r = poll(&p, 1, left);
            if (r > 0) break;
            if (r < 0 && errno == EINTR) {
                clock_gettime(CLOCK_MONOTONIC, &t);
                left = timeoutMs - (int) ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000);
                if (left > 0) continue;
            }
            timedOut = true;
            kill(pid, SIGKILL);
            break;
        }
        close(pfd);
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        return status;
    }
    while (true) { // no pidfd: poll
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) return status;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000 > timeoutMs) {
            timedOut = true;
            kill(pid, SIGKILL);
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
            return status;
        }
        usleep(200);
    }
}

}

int main(int argc, char **argv) {
    if (argc != 2) { fprintf(stderr, "usage: psrun SCRATCH\n"); return 2; }
    std::string scratch = argv[1];
    mkdir(scratch.c_str(), 0755);
    std::string work = scratch + "/d";
    mkdir(work.c_str(), 0700);
    if (geteuid() == 0) {
        const uid_t nobody = 65534;
        if (chown(scratch.c_str(), nobody, nobody) || chown(work.c_str(), nobody, nobody)) die("chown");
        if (setgroups(0, nullptr)) die("setgroups");
        if (setresgid(nobody, nobody, nobody) || setresuid(nobody, nobody, nobody)) die("setuid");
    }
    int sfd = open(scratch.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    int dfd = open(work.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (sfd < 0 || dfd < 0) die("open scratch");
    // the request/response channel must not be reachable from the interpreter
    int reqFd = fcntl(0, F_DUPFD_CLOEXEC, 200), respFd = fcntl(1, F_DUPFD_CLOEXEC, 200);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0); dup2(nul, 1);
    setenv("INPUTRC", "/dev/null", 1);
    setenv("TERM", "dumb", 1);
    setenv("HOME", work.c_str(), 1);
    setenv("TZ", "UTC", 1);
    setenv("COLUMNS", "30000", 1); setenv("LINES", "50", 1);   // no horizontal scrolling
    signal(SIGXFSZ, SIG_IGN);
    signal(SIGPIPE, SIG_IGN);
    umask(022);

    int fin = memfd("in"), fout = memfd("out"), ferr = memfd("err"), fres = memfd("res");

    In in;
    while (true) {
        uint32_t len;
        readAll(reqFd, (char*) &len, 4);
        in.b.resize(len); in.p = 0;
        readAll(reqFd, in.b.data(), len);

        uint32_t flags = in.u32(); // 1: wipe the directory first, 2: list files afterwards, 4: stdin is empty pipe
        uint32_t timeoutMs = in.u32();
        uint32_t steps = in.u32(), depth = in.u32(), cells = in.u32(), maxString = in.u32();
        uint32_t fsize = in.u32(); // 0: no limit
        uint32_t outCap = in.u32();
        std::vector<std::string> args(in.u32());
        for (auto &a : args) a = in.str();
        std::string prog = in.str(), input = in.str();
        randScript.assign(in.u32(), 0);
        for (auto &r : randScript) r = (int) in.u32();
        randPos = 0;
        if (flags & 1) { fchmod(dfd, 0700); rmTree(dfd); }
        uint32_t nf = in.u32();
        for (uint32_t i = 0; i < nf; i++) {
            uint32_t type = in.u32(), mode = in.u32();
            std::string name = in.str(), data = in.str();
            if (type == 'f') writeFile(dfd, name.c_str(), data, mode);
            else if (type == 'd') { mkdirat(dfd, name.c_str(), 0700); fchmodat(dfd, name.c_str(), mode, 0); }
            else if (type == 'l') { unlinkat(dfd, name.c_str(), 0); if (symlinkat(data.c_str(), dfd, name.c_str())) die("symlink"); }
            else if (type == 'p') { unlinkat(dfd, name.c_str(), 0); if (mkfifoat(dfd, name.c_str(), mode)) die("fifo"); }
            else if (type == 'u') unlinkat(dfd, name.c_str(), 0);
            else if (type == 'w') fchmod(dfd, mode);
        }
        writeFile(sfd, "p", prog, 0644);
        int progFd = flags & 8 ? openat(sfd, "p", O_RDWR | O_CLOEXEC) : -1;
        if (flags & 8 && progFd < 0) die("program");

        if (ftruncate(fin, 0) || ftruncate(fout, 0) || ftruncate(ferr, 0) || ftruncate(fres, 0)) die("ftruncate");
        lseek(fin, 0, SEEK_SET); lseek(fres, 0, SEEK_SET); lseek(fout, 0, SEEK_SET); lseek(ferr, 0, SEEK_SET);
        if (!input.empty()) { writeAll(fin, input.data(), input.size()); lseek(fin, 0, SEEK_SET); }

        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            dup2(fin, 0); dup2(fout, 1); dup2(ferr, 2);
            if (fchdir(dfd)) _exit(101);
            if (!(flags & 8)) { close(dfd); close(fres); }
            close(sfd); close(reqFd); close(respFd); close(fin); close(fout); close(ferr); close(nul);
            struct rlimit rl;
            if (fsize) { rl.rlim_cur = rl.rlim_max = fsize; setrlimit(RLIMIT_FSIZE, &rl); }
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = timeoutMs / 1000 + 2; setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 400; setrlimit(RLIMIT_NOFILE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
            rl.rlim_cur = rl.rlim_max = 1UL << 30; setrlimit(RLIMIT_AS, &rl);
#endif
#ifdef HAVE_BUDGET
            if (steps) PSC::Verif::steps = steps;
            if (depth) PSC::Verif::depth = depth;
            if (cells) PSC::Verif::cells = cells;
            if (maxString) PSC::Verif::maxString = maxString;
#else
            (void) steps; (void) depth; (void) cells; (void) maxString;
#endif
            if (flags & 8) runBatch(in, fres, progFd, dfd, steps, depth, cells, maxString);
            std::vector<char*> av;
            static char name[] = "PseudoEngine2";
            av.push_back(name);
            for (auto &a : args) av.push_back(a.data());
            av.push_back(nullptr);
            exit(callMain((int) args.size() + 1, av.data()));
        }
        bool timedOut;
        int status = waitChild(pid, timeoutMs, timedOut);
        if (progFd >= 0) close(progFd);

        std::string out;
        uint32_t kind, code;
        if (timedOut) { kind = 2; code = 0; }
        else if (WIFEXITED(status)) { kind = 0; code = WEXITSTATUS(status); }
        else { kind = 1; code = WTERMSIG(status); }
        put32(out, kind); put32(out, code);
        putStr(out, slurp(flags & 8 ? fres : fout, outCap));
        putStr(out, slurp(ferr, 1 << 20));
        if (flags & 2) {
            std::vector<std::string> names;
            int d2 = openat(dfd, ".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
            DIR *d = d2 >= 0 ? fdopendir(d2) : nullptr;
            if (d) {
                while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
                closedir(d);
            }
            std::sort(names.begin(), names.end());
            put32(out, names.size());
            for (auto &n : names) {
                putStr(out, n);
                struct stat st;
                if (fstatat(dfd, n.c_str(), &st, AT_SYMLINK_NOFOLLOW) || !S_ISREG(st.st_mode)) { put32(out, S_ISDIR(st.st_mode) ? 'd' : 'o'); putStr(out, ""); continue; }
                int fd = openat(dfd, n.c_str(), O_RDONLY | O_NOFOLLOW | O_CLOEXEC);
                bool restore = false;
                if (fd < 0 && errno == EACCES) { restore = true; fchmodat(dfd, n.c_str(), 0600, 0); fd = openat(dfd, n.c_str(), O_RDONLY | O_NOFOLLOW | O_CLOEXEC); }
                put32(out, 'f');
                putStr(out, fd >= 0 ? slurp(fd, 1 << 20) : "");
                if (fd >= 0) { if (restore) fchmod(fd, st.st_mode & 07777); close(fd); }
            }
        } else put32(out, 0);
        uint32_t n = out.size();
        writeAll(respFd, (const char*) &n, 4);
        writeAll(respFd, out.data(), out.size());
    }
}
