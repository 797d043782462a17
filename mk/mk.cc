// mk.cc - builds of the shipped dictionary (data/Makefile.am) under a tracer
// that counts the file operations of every process of the build and lets the
// n-th one fail, kills a process there, kills all of them, or interrupts them.
#include "exec.h"
#include "world.h"
#include "source.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace std;

Stats* S;
int seamDebug;

struct HarnessError { string m; };
static string root, genBin, dataDir;        // scratch directory; the compiler; the lists as shipped

static string slurp(const string& f, bool* ok = nullptr) { string s; int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC); if (ok) *ok = fd >= 0; if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void spit(const string& f, const string& s) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (fd < 0) throw HarnessError{"cannot write " + f};
    size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) { close(fd); throw HarnessError{"cannot write " + f}; } o += n; }
    close(fd);
}
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const string& d) { if (d.size() > root.size() && d.compare(0, root.size(), root) == 0) nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }
static void atEnd() { if (!root.empty() && root.find("/scratch-") != string::npos) nftw(root.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }
static void tick() { timespec t = {0, 12000000}; nanosleep(&t, nullptr); }      // longer than a time stamp is coarse

// ------------------------------------------------------------------ the tracer
enum { OPEN, READ, WRITE, CLOSE, META, EXEC, FORK, PIPE, NCLS };
static const char* const CLS[] = {"open", "read", "write", "close", "meta", "exec", "fork", "pipe"};
struct Fault { string prog; int cls = 0; uint64_t nth = 0; int err = 0; string act; bool sticky = false; long part = -1; bool fired = false; uint32_t fr = 0; };
enum St { READY, PARKED, VFORK, DEAD };
struct Pr {
    string id, prog; pid_t parent = 0; St st = READY; bool in = false, wantEntry = false; int cls = -1, errOut = 0, sig = 0; bool killAfter = false;
    uint64_t cnt[NCLS] = {}, h = 7; int kids = 0; pid_t vkid = 0; set<pid_t> living, zombies; user_regs_struct r;
};
struct MakeRun { int status = -1; bool hung = false; map<string, string> ends; map<string, uint64_t> hashes; map<string, map<int, uint64_t>> cnt; uint64_t events = 0, switches = 0, order = 5; string log; };

static string peekStr(pid_t p, unsigned long a) {
    char b[512]; size_t n = 0;
    while (n < sizeof b - 1) {
        size_t want = min<size_t>(sizeof b - 1 - n, 4096 - ((a + n) & 4095));
        iovec l = {b + n, want}, r = {(void*) (a + n), want};
        ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0); if (k <= 0) break;
        for (ssize_t i = 0; i < k; ++i) if (!b[n + i]) return string(b, n + i);
        n += k;
    }
    return string(b, n);
}
static bool inScope(const string& p) { return p.compare(0, root.size() + 3, root + "/b/") == 0 || p.compare(0, root.size() + 5, root + "/src/") == 0; }
static string fdName(pid_t p, long fd) { char l[64], b[512]; snprintf(l, sizeof l, "/proc/%d/fd/%ld", (int) p, fd); ssize_t n = readlink(l, b, sizeof b); return n > 0 ? string(b, n) : string(); }
// relative names: every process of a build runs in the build directory
static bool nameInScope(pid_t p, unsigned long a) { string s = peekStr(p, a); return !s.empty() && (s[0] != '/' || inScope(s)); }
static bool fdInScope(pid_t p, long fd) { return inScope(fdName(p, fd)); }
static bool isPipe(pid_t p, long fd) { return fdName(p, fd).compare(0, 5, "pipe:") == 0; }
static int classify(pid_t p, const user_regs_struct& r) {
    switch (r.orig_rax) {
    case SYS_open: case SYS_creat: return nameInScope(p, r.rdi) ? OPEN : -1;
    case SYS_openat: return nameInScope(p, r.rsi) ? OPEN : -1;
    case SYS_read: case SYS_pread64: case SYS_readv: return fdInScope(p, r.rdi) ? READ : isPipe(p, r.rdi) ? PIPE : -1;
    case SYS_write: case SYS_pwrite64: case SYS_writev: return fdInScope(p, r.rdi) ? WRITE : isPipe(p, r.rdi) ? PIPE : -1;
    case SYS_copy_file_range: return WRITE;
    case SYS_close: return fdInScope(p, r.rdi) ? CLOSE : -1;
    case SYS_rename: case SYS_unlink: case SYS_link: case SYS_mkdir: case SYS_truncate: return nameInScope(p, r.rdi) ? META : -1;
    case SYS_renameat: case SYS_renameat2: case SYS_unlinkat: case SYS_linkat: case SYS_mkdirat: return nameInScope(p, r.rsi) ? META : -1;
    case SYS_execve: return EXEC;
    case SYS_fork: case SYS_vfork: case SYS_clone3: return FORK;
    case SYS_clone: return r.rdi & 0x10000 /* CLONE_THREAD */ ? -1 : FORK;
    }
    return -1;
}
static bool pipeReady(pid_t p, long fd, bool wr) {
    char l[64]; snprintf(l, sizeof l, "/proc/%d/fd/%ld", (int) p, fd);
    int f = open(l, (wr ? O_WRONLY : O_RDONLY) | O_NONBLOCK | O_CLOEXEC); if (f < 0) return true;
    pollfd q = {f, (short) (wr ? POLLOUT : POLLIN), 0}; int n = poll(&q, 1, 0); close(f); return n > 0;
}
static bool signalled(pid_t p, bool blockedToo) {
    char l[64]; snprintf(l, sizeof l, "/proc/%d/status", (int) p); string s = slurp(l); unsigned long long v[3] = {}; const char* k[] = {"\nSigPnd:", "\nShdPnd:", "\nSigBlk:"};
    for (int i = 0; i < 3; ++i) { size_t a = s.find(k[i]); if (a != string::npos) v[i] = strtoull(s.c_str() + a + 8, nullptr, 16); }
    return ((v[0] | v[1]) & (blockedToo ? ~0ull : ~v[2])) != 0;
}
// Would the system call a process is about to make come back at once?
static bool returnsAtOnce(pid_t p, Pr& q) {
    const auto& r = q.r; if (q.errOut) return true;
    switch (r.orig_rax) {
    case SYS_read: case SYS_readv: return !isPipe(p, r.rdi) || pipeReady(p, r.rdi, false) || signalled(p, false);
    case SYS_write: case SYS_writev: return !isPipe(p, r.rdi) || pipeReady(p, r.rdi, true) || signalled(p, false);
    case SYS_wait4: if (r.rdx & 1) return true; if (q.living.empty() && q.zombies.empty()) return true; if (signalled(p, false)) return true;
        return (long) (int) r.rdi > 0 ? q.zombies.count((int) r.rdi) || !q.living.count((int) r.rdi) : !q.zombies.empty();
    case SYS_waitid: return (r.r10 & 1) || !q.zombies.empty() || q.living.empty() || signalled(p, false);
    case SYS_rt_sigsuspend: case SYS_pause: return signalled(p, true);
    case SYS_pselect6: case SYS_select: {
        if (r.r8 || signalled(p, true)) return true;
        unsigned long m[16] = {}; iovec a = {m, sizeof m}, b = {(void*) r.rsi, (min<unsigned long>(r.rdi, 1024) + 63) / 64 * 8}; if (!r.rsi || process_vm_readv(p, &a, 1, &b, 1, 0) < 0) return false;
        for (unsigned i = 0; i < r.rdi && i < 1024; ++i) if (m[i / 64] >> (i % 64) & 1) if (!isPipe(p, i) || pipeReady(p, i, false)) return true;
        return false;
    }
    }
    return true;
}

static volatile sig_atomic_t late;
static void onAlarm(int) { late = 1; }

// Runs make with all its processes traced; one of them runs at a time, and at
// each file operation, pipe operation, fork and exec the seed says which goes on.
static MakeRun runMake(const vector<string>& args, vector<Fault>& fs, uint64_t seed, bool trace) {
    MakeRun R; map<pid_t, Pr> ps; Rng rng(seed); vector<pid_t> order; bool full = false; int fullErr = 0;
    pid_t first = fork(); if (first < 0) throw HarnessError{"fork failed"};
    if (first == 0) {
        setpgid(0, 0);
        if (chdir((root + "/b/data").c_str())) _exit(125);
        int fd = open((root + "/log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0); dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); if (nul > 2) close(nul);
        vector<char*> av{(char*) "make"}; for (auto& a : args) av.push_back((char*) a.c_str()); av.push_back(nullptr);
        char* env[] = {(char*) "PATH=/usr/local/bin:/usr/bin:/bin", (char*) "LC_ALL=C", nullptr};
        rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        for (int s = 1; s < 32; ++s) signal(s, SIG_DFL);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0) _exit(126);
        raise(SIGSTOP);
        execvpe("make", av.data(), env); _exit(127);
    }
    setpgid(first, first);
    struct Watch { Watch() { late = 0; alarm(40); } ~Watch() { alarm(0); } } watch;
    auto waitFor = [&](pid_t p, int& st) { for (;;) { pid_t w = waitpid(p, &st, __WALL); if (w == p) return true; if (errno != EINTR || late) return false; } };
    int st; if (!waitFor(first, st) || !WIFSTOPPED(st)) throw HarnessError{"cannot trace (permission?)"};
    if (ptrace(PTRACE_SETOPTIONS, first, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL) < 0) { kill(first, SIGKILL); waitpid(first, &st, __WALL); throw HarnessError{"cannot trace"}; }
    ps[first].id = "0"; ps[first].prog = "start"; order.push_back(first);
    auto note = [&](Pr& q, uint64_t v) { q.h = comb(q.h, v); ++R.events; };
    auto file = [&](Pr& q) { string l = q.id + ":" + q.prog; R.hashes[l] = q.h; for (int c = 0; c < NCLS; ++c) if (q.cnt[c]) { auto& m = R.cnt[q.prog][c]; m = max(m, q.cnt[c]); } };
    auto gone = [&](pid_t p, int st) {
        Pr& q = ps[p]; if (q.st == DEAD) return; q.st = DEAD; file(q);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) R.hung = true;
        R.ends[q.id + ":" + q.prog] = WIFEXITED(st) ? "exit " + to_string(WEXITSTATUS(st)) : "signal " + to_string(WTERMSIG(st));
        if (p == first) R.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (ps.count(q.parent)) { Pr& f = ps[q.parent]; f.living.erase(p); f.zombies.insert(p); }
    };
    auto slay = [&](pid_t p) { int st; if (ps[p].st == DEAD) return; kill(p, SIGKILL); for (;;) { if (waitpid(p, &st, __WALL) != p) { if (errno == EINTR) continue; return; } if (WIFEXITED(st) || WIFSIGNALED(st)) break; } gone(p, st); };
    auto slayAll = [&] { for (pid_t p : order) if (ps[p].st != DEAD) kill(p, SIGKILL); for (pid_t p : order) if (ps[p].st != DEAD) slay(p); };
    auto wakeVfork = [&](pid_t kid) {                  // the child has left the parent's memory
        pid_t f = ps[kid].parent; if (!ps.count(f) || ps[f].st != VFORK || ps[f].vkid != kid) return; int st;
        if (!waitFor(f, st)) throw HarnessError{"parent does not come back from vfork"};
        if (WIFSTOPPED(st)) { ps[f].st = READY; ps[f].vkid = 0; if (WSTOPSIG(st) == (SIGTRAP | 0x80)) ps[f].in = false; else if (!(st >> 16)) ps[f].sig = WSTOPSIG(st); } else gone(f, st);
    };
    pid_t cur = first;
    try { for (;;) {
        // who goes on
        vector<pid_t> can; for (pid_t p : order) { Pr& q = ps[p]; if (q.st == READY || (q.st == PARKED && returnsAtOnce(p, q))) can.push_back(p); }
        if (can.empty()) { bool any = false; for (auto& e : ps) if (e.second.st != DEAD) any = true; if (!any) break; R.hung = true; slayAll(); break; }
        pid_t p = can[0]; if (can.size() > 1) { p = can[rng.below(can.size())]; if (find(can.begin(), can.end(), cur) != can.end() && rng.chance(50)) p = cur; }
        if (p != cur) { ++R.switches; R.order = comb(R.order, hash64(ps[p].id)); } cur = p;
        // until its next interesting operation
        for (bool go = true; go;) {
            Pr& q = ps[p];
            if (q.st == PARKED) { q.st = READY; q.wantEntry = false; }
            if (q.wantEntry) {                             // at the entry of an operation that counts: do it now
                q.wantEntry = false; bool dead = false, all = false; uint64_t k = q.cnt[q.cls]++; int c = q.cls;
                if (full && c == WRITE) q.errOut = fullErr;
                for (auto& f : fs) {
                    if (f.cls != c || f.prog != q.prog) continue;
                    if (!(f.fired ? f.sticky && f.act.empty() : k == f.nth)) continue;
                    bool now = !f.fired;
                    if (now && f.part > 0 && c == WRITE && q.r.orig_rax == SYS_write && q.r.rdx > (unsigned long) f.part) {
                        q.r.rdx = f.part; ptrace(PTRACE_SETREGS, p, 0, &q.r);
                        if (f.act == "kill") { q.killAfter = true; f.fired = true; } else { f.nth = k + 1; f.part = -1; }
                        S->n["fault:short-write"]++; if (trace) R.log += "   " + q.id + ":" + q.prog + " write " + to_string(k) + ": only a part\n";
                        break;
                    }
                    f.fired = true;
                    if (now) { S->n["fault:" + string(CLS[c]) + "-" + (f.act.empty() ? "error" : f.act)]++; if (trace) R.log += "   " + q.id + ":" + q.prog + " " + CLS[c] + " " + to_string(k) + ": " + (f.act.empty() ? strerror(f.err) : f.act) + "\n"; }
                    if (f.act.empty()) { q.errOut = f.err; if (f.sticky && c == WRITE) { full = true; fullErr = f.err; } }
                    else if (f.act == "kill") dead = true; else if (f.act == "killall") all = true;
                    else if (f.act == "int" || f.act == "term") kill(-first, f.act == "int" ? SIGINT : SIGTERM);
                    break;
                }
                if (all) { note(q, 4097); slayAll(); break; }
                if (dead) { note(q, 4096); slay(p); wakeVfork(p); break; }
                if (q.errOut) { q.r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &q.r); }
            }
            int sig = q.sig; q.sig = 0;
            if (ptrace(PTRACE_SYSCALL, p, 0, sig) < 0 && errno != ESRCH) throw HarnessError{"cannot go on"};
            if (!waitFor(p, st)) throw HarnessError{q.prog + " does not come back from system call " + to_string(q.r.orig_rax)};
            if (WIFEXITED(st) || WIFSIGNALED(st)) { gone(p, st); wakeVfork(p); break; }
            int s = WSTOPSIG(st), ev = st >> 16;
            if (s == SIGTRAP && ev == PTRACE_EVENT_EXEC) {
                char f[64]; snprintf(f, sizeof f, "/proc/%d/comm", (int) p); string n = slurp(f); while (!n.empty() && n.back() == '\n') n.pop_back();
                file(q); R.ends[q.id + ":" + q.prog] = "exec " + n; for (auto& c : q.cnt) c = 0; q.prog = n; q.h = 7; q.cls = -1; wakeVfork(p); continue;
            }
            if (s == SIGTRAP && (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE)) {
                unsigned long kid = 0; ptrace(PTRACE_GETEVENTMSG, p, 0, &kid); int ks; if (!waitFor(kid, ks)) throw HarnessError{"child does not start"};
                Pr& c = ps[kid]; Pr& q2 = ps[p]; c.parent = p; c.id = q2.id + "." + to_string(q2.kids++); c.prog = q2.prog + "+"; order.push_back(kid); q2.living.insert(kid);
                if (ev == PTRACE_EVENT_VFORK) { q2.st = VFORK; q2.vkid = kid; ptrace(PTRACE_SYSCALL, p, 0, 0); break; }
                continue;
            }
            if (s != (SIGTRAP | 0x80)) { if (!ev && s != SIGSTOP) q.sig = s; note(q, 5000 + s); continue; }
            ptrace(PTRACE_GETREGS, p, 0, &q.r);
            if (!q.in) {
                q.in = true; q.errOut = 0; q.killAfter = false; q.cls = classify(p, q.r);
                if (q.cls == PIPE && q.r.orig_rax == SYS_write && q.r.rdx > 4096) { q.r.rdx = 4096; ptrace(PTRACE_SETREGS, p, 0, &q.r); }   // does not block half way
                if (q.cls >= 0) { q.wantEntry = true; go = false; }
                if (!returnsAtOnce(p, q)) { if (q.wantEntry) { q.wantEntry = false; ++q.cnt[q.cls]; } q.st = PARKED; go = false; }
            } else {
                q.in = false; long ret = (long) q.r.rax;
                if (q.errOut) { q.r.rax = ret = -q.errOut; ptrace(PTRACE_SETREGS, p, 0, &q.r); }
                if (q.cls >= 0) note(q, q.cls * 1000003ull + q.errOut * 131 + (ret < 0 ? 1 : ret == 0 ? 2 : (q.cls == READ || q.cls == WRITE) && ret < (long) q.r.rdx ? 3 : 4));
                if ((q.r.orig_rax == SYS_wait4) && ret > 0) q.zombies.erase((pid_t) ret);
                if (q.r.orig_rax == SYS_waitid) q.zombies.clear();
                if (q.killAfter) { slay(p); wakeVfork(p); break; }
            }
        }
    } } catch (...) { slayAll(); throw; }
    return R;
}

// ------------------------------------------------------------------ the build tree
static vector<string> lists;                  // names of the lists, as shipped
static map<string, string> shipped;
static string buildFile() {
    return "NULL =\nSHELL = /bin/sh\nsrcdir = ../../src/data\nabs_srcdir = " + root + "/src/data\ntop_srcdir = ../../src\nbuilddir = .\nabs_builddir = " + root + "/b/data\ntop_builddir = ..\nVPATH = ../../src/data\n"
           "MKDIR_P = mkdir -p\nAWK = awk\nSED = sed\nall: all-data\ninclude ../../src/data/Makefile.am\nall-data: $(pkgdata_DATA)\n.PHONY: all all-data\n";
}
static string makefileAm() {
    string t = slurp(dataDir + "/Makefile.am"), r;      // configure's substitutions
    static const char* V[] = {"top_builddir", "top_srcdir", "srcdir", "builddir", "SHELL", "MKDIR_P", "AWK", "SED"};
    r = t; for (auto v : V) { string a = string("@") + v + "@", b = string("$(") + v + ")"; size_t i; while ((i = r.find(a)) != string::npos) r.replace(i, a.size(), b); }
    // automake's conditionals: as if every one held
    if (r.compare(0, 3, "if ") == 0 || r.find("\nif ") != string::npos) {
        string q; vector<int> st; size_t i = 0;
        while (i < r.size()) {
            size_t j = r.find('\n', i); if (j == string::npos) j = r.size(); string l = r.substr(i, j - i); i = j + 1;
            if (l.compare(0, 3, "if ") == 0) { st.push_back(l.find('!') == string::npos); continue; }
            if (!st.empty() && l.compare(0, 4, "else") == 0) { st.back() = !st.back(); continue; }
            if (!st.empty() && l.compare(0, 5, "endif") == 0) { st.pop_back(); continue; }
            if (find(st.begin(), st.end(), 0) == st.end()) q += l + "\n";
        }
        r = q;
    }
    return r;
}
static void freshTree(const map<string, string>& ls) {
    wipe(root + "/src"); wipe(root + "/b");
    for (auto d : {"/src", "/src/data", "/b", "/b/data", "/b/dict"}) mkdir((root + d).c_str(), 0755);
    spit(root + "/src/data/Makefile.am", makefileAm());
    for (auto& e : ls) spit(root + "/src/data/" + e.first, e.second);
    DIR* d = opendir((dataDir + "/../top").c_str()); while (dirent* e = d ? readdir(d) : nullptr) if (e->d_name[0] != '.') spit(root + "/src/" + e->d_name, slurp(dataDir + "/../top/" + e->d_name)); if (d) closedir(d);
    spit(root + "/b/data/Makefile", buildFile());
    if (symlink(genBin.c_str(), (root + "/b/dict/gen-lookup-dict").c_str())) throw HarnessError{"symlink"};
}
// what the dictionary of these lists is: their lines, sorted, each once
static string modelText(const map<string, string>& ls) {
    set<string> l; for (auto& e : ls) { size_t i = 0; while (i < e.second.size()) { size_t j = e.second.find('\n', i); if (j == string::npos) j = e.second.size(); l.insert(e.second.substr(i, j - i)); i = j + 1; } }
    string t; for (auto& x : l) t += x + "\n"; return t;
}
static const string& wanted(const map<string, string>& ls) {      // empty: the lists are not well-formed
    static map<uint64_t, string> memo; string t = modelText(ls); uint64_t k = hash64(t); auto it = memo.find(k); if (it != memo.end()) return it->second;
    if (memo.size() > 2000) memo.clear();
    if (!parseSource(t).wellFormed) return memo[k] = string();
    string in = root + "/ref.tsv", out = root + "/ref.dic"; spit(in, t); unlink(out.c_str());
    pid_t p = fork(); if (p == 0) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); execl(genBin.c_str(), "gen-lookup-dict", in.c_str(), out.c_str(), (char*) nullptr); _exit(127); }
    int st; waitpid(p, &st, 0); S->n["reference-runs"]++;
    return memo[k] = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? slurp(out) : "<gen-lookup-dict rejects well-formed lists>";
}

static map<string, map<int, uint64_t>> typical;          // operations of each program in an undisturbed build

static Fault parseFault(const string& s) {
    Fault f; size_t i = 0; unsigned pg = 0, e12 = 0;
    while (i < s.size()) {
        size_t j = s.find(',', i); if (j == string::npos) j = s.size(); string w = s.substr(i, j - i); i = j + 1;
        size_t e = w.find('='); string k = w.substr(0, e), v = e == string::npos ? "" : w.substr(e + 1);
        if (k == "pg") pg = atoi(v.c_str()); else if (k == "e") e12 = atoi(v.c_str());
        else if (k == "fr") f.fr = atoi(v.c_str()); else if (k == "act") f.act = v; else if (k == "part") f.part = atol(v.c_str()); else if (k == "sticky") f.sticky = true;
    }
    // which program and kind of operation: the ones a build has, those of make itself less often
    vector<pair<string, int>> v; for (auto& p : typical) for (auto& c : p.second) if (p.first != "start") for (int n = p.first.compare(0, 4, "make") ? 4 : 1; n--;) v.emplace_back(p.first, c.first);
    if (v.empty()) throw HarnessError{"a build does nothing"};
    auto& x = v[(uint64_t) pg * v.size() / 1000000]; f.prog = x.first; f.cls = x.second; uint64_t c = typical[f.prog][f.cls]; f.nth = (uint64_t) f.fr * c / 1000000;
    static const vector<int> ERR[NCLS] = {{EACCES, EMFILE, EIO, ENOSPC}, {EIO}, {ENOSPC, EIO, EDQUOT}, {EIO}, {EIO, EACCES, ENOSPC}, {ENOMEM, EACCES}, {EAGAIN, ENOMEM}, {}};
    if (f.act.empty()) { if (ERR[f.cls].empty()) f.act = "kill"; else f.err = ERR[f.cls][e12 % ERR[f.cls].size()]; }
    return f;
}

RunOut execPlan(const Plan& plan, bool wantTrace) {
    RunOut out; uint64_t dig = 99, sig = 7; bool nontrivial = false; auto bad = [&](const string& m) { if (!out.violated) { out.violated = true; out.msg = m; } };
    try {
        map<string, string> ls = shipped; freshTree(ls); tick(); int nth = 0;
        for (auto& o : plan.ops) {
            if (out.violated) break;
            if (o.name == "list") {
                string n = lists[o.num("i") % lists.size()]; string& t = ls[n];
                if (o.find("e")) { string add; for (auto& e : o.all("e")) add += e + "\n"; if (!t.empty() && t.back() != '\n') t += '\n'; size_t at = 0; long k = o.num("at", 0); while (k-- > 0 && t.find('\n', at) != string::npos) at = t.find('\n', at) + 1; t.insert(at, add); }
                if (auto b = o.find("bulk")) { if (!t.empty() && t.back() != '\n') t += '\n'; for (auto& e : bulkEntries(*b)) t += e.first + "\t" + e.second + "\n"; }
                if (o.find("drop")) { size_t k = o.num("drop"), a = 0; while (k-- > 0 && t.find('\n', a) != string::npos) a = t.find('\n', a) + 1; if (a >= t.size()) a = 0; size_t z = t.find('\n', a); if (z != string::npos) t.erase(a, z - a + 1); }
                if (o.find("twice")) { const string& u = ls[lists[o.num("twice") % lists.size()]]; t += u.substr(0, u.find('\n') + 1); }
                if (o.find("cut")) while (!t.empty() && t.back() == '\n') t.pop_back();
                if (o.find("repair")) for (auto& e : ls) if (wanted({e}).empty() && !e.second.empty()) { e.second = shipped[e.first]; spit(root + "/src/data/" + e.first, e.second); }
                if (o.find("clear")) t.clear();
                tick(); spit(root + "/src/data/" + n, t); tick();
                if (wantTrace) out.trace += "edit " + n + ": " + to_string(t.size()) + " bytes\n";
                S->n["op:edit"]++;
            } else if (o.name == "lose") {
                unlink((root + "/b/data/" + o.str("f")).c_str()); S->n["op:remove-product"]++; if (wantTrace) out.trace += "remove " + o.str("f") + "\n";
            } else if (o.name == "make") {
                vector<Fault> fs; for (auto& f : o.all("f")) { fs.push_back(parseFault(f)); }
                vector<string> args{"-s"}; if (o.num("k")) args.push_back("-k"); if (o.num("j") > 1) args.push_back("-j" + to_string(o.num("j")));
                if (wantTrace) { out.trace += "make"; for (auto& a : args) out.trace += " " + a; out.trace += "\n"; }
                MakeRun r = runMake(args, fs, o.num("sched", 1), wantTrace); ++nth; S->n["context-switches"] += r.switches; S->n["op:make"]++; S->n["processes"] += r.ends.size(); out.steps += r.events;
                bool fired = false; for (auto& f : fs) if (f.fired) fired = true;
                bool have; string got = slurp(root + "/b/data/except.dic", &have); const string& want = wanted(ls);
                if (wantTrace) { out.trace += r.log; for (auto& e : r.ends) out.trace += "   " + e.first + ": " + e.second + "\n"; out.trace += "   make: status " + to_string(r.status) + ", except.dic " + (have ? to_string(got.size()) + " bytes" : string("missing")) + (got == want ? " (complete)" : "") + "\n"; if (r.status && !fired) out.trace += slurp(root + "/log").substr(0, 500); }
                { for (auto& e : r.hashes) dig = comb(dig, comb(hash64(e.first), e.second)); for (auto& e : r.ends) dig = comb(dig, hash64(e.first + e.second)); dig = comb(dig, r.status); }
                dig = comb(dig, hash64(got)); dig = comb(dig, r.order);
                sig = comb(sig, r.order); for (auto& e : r.hashes) sig = comb(sig, comb(hash64(e.first), e.second)); for (auto& f : fs) if (f.fired) { sig = comb(sig, f.cls * 64 + f.nth); sig = comb(sig, hash64(f.prog + f.act) + f.err + f.part); }
                if (fired) nontrivial = true;
                string what = "make run " + to_string(nth);
                if (r.hung) bad(what + ": no progress");
                if (r.status == 127 || r.status == 126 || r.status == 125) throw HarnessError{"cannot run make"};
                if (want.empty()) { S->n["probe:malformed-list"]++; if (r.status == 0) bad(what + " succeeds although a list is malformed"); }
                else if (r.status == 0 && got != want) bad(what + (fired ? " succeeds in spite of a failure" : " succeeds") + ", but except.dic " + (!have ? "is missing" : "is not the dictionary of the lists (" + to_string(got.size()) + " bytes instead of " + to_string(want.size()) + ")"));
                else if (r.status != 0 && !fired) bad(what + " fails (" + to_string(r.status) + ") although nothing goes wrong: " + slurp(root + "/log").substr(0, 300));
                if (r.status != 0 && fired) S->n["probe:build-failed"]++; if (r.status == 0 && fired) S->n["probe:build-survived"]++;
                tick();
            } else throw HarnessError{"unknown operation " + o.name};
        }
    } catch (const HarnessError& e) { out.harnessError = true; out.msg = e.m; }
    if (out.violated && out.msg.find("no progress") != string::npos) dig = hash64(out.msg);
    out.digest = comb(dig, out.violated); if (nontrivial) S->sigs.insert(sig);
    return out;
}

void execInit() {
    S = new Stats; struct sigaction sa = {}; sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, nullptr); char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); string dir(b, n); dir = dir.substr(0, dir.rfind('/'));
    genBin = dir + "/gen-lookup-dict"; dataDir = dir + "/data";
    const char* tmp = getenv("SIM_TMP"); string t = (tmp ? string(tmp) : dir.substr(0, dir.rfind('/'))) + "/scratch-XXXXXX"; vector<char> v(t.begin(), t.end()); v.push_back(0);
    if (!mkdtemp(v.data())) { dprintf(2, "no scratch directory\n"); _exit(3); }
    root = v.data(); atexit(atEnd);
    DIR* d = opendir(dataDir.c_str()); while (dirent* e = d ? readdir(d) : nullptr) { string f = e->d_name; if (f.size() > 4 && f.substr(f.size() - 4) == ".tsv") lists.push_back(f); } if (d) closedir(d);
    sort(lists.begin(), lists.end()); for (auto& f : lists) shipped[f] = slurp(dataDir + "/" + f);
    try { vector<Fault> none; freshTree(shipped); MakeRun r = runMake({"-s"}, none, 1, false); typical = r.cnt; } catch (const HarnessError& e) { dprintf(2, "%s\n", e.m.c_str()); _exit(3); }
}
