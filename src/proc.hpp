// Runs a program with arguments: no shell, output captured, time limit, optional resource limits.
#pragma once
#include "core.hpp"
#include <fcntl.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace vh {
struct ProcOut { int code = -1; int sig = 0; bool timeout = false; std::string out; bool ok() const { return !timeout && sig == 0 && code == 0; } std::string str() const { return timeout ? "no end" : sig ? fmt("signal %d", sig) : fmt("exit %d", code); } };
struct ProcOpt { std::string cwd; long fsize = -1; double killAfter = -1; int uid = -1; double limit = 60; bool core = false; std::map<std::string, std::string> env; std::function<void()> during; };

inline ProcOut runProc(const std::vector<std::string>& argv, const ProcOpt& o = ProcOpt()) {
  ProcOut r; std::string log = scratch() + "/proc.log";
  std::vector<char*> av; for (auto& a : argv) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr);
  int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
    if (!o.cwd.empty() && chdir(o.cwd.c_str()) != 0) _exit(126);
    struct rlimit c { 0, 0 }; setrlimit(RLIMIT_CORE, &c);
    for (auto& e : o.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    if (o.fsize >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l { (rlim_t)o.fsize, (rlim_t)o.fsize }; setrlimit(RLIMIT_FSIZE, &l); close(1); close(2); int d = open("/dev/null", O_WRONLY); (void)d; dup2(d, 1); dup2(d, 2); }
    if (o.uid >= 0) { if (setgid(o.uid) || setuid(o.uid)) _exit(125); }
    alarm(0); execv(av[0], av.data()); _exit(127);
  }
  if (fd >= 0) close(fd);
  if (p < 0) { r.code = 128; return r; }
  struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); int st = 0; bool killed = false;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break;
    if (w < 0) break;
    clock_gettime(CLOCK_MONOTONIC, &t); double d = (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9;
    if (o.during) o.during();
    if (o.killAfter >= 0 && !killed && d >= o.killAfter) { kill(-p, SIGKILL); kill(p, SIGKILL); killed = true; }
    if (d > o.limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); r.timeout = true; break; }
    struct timespec z { 0, d < 0.02 ? 50000 : 500000 }; nanosleep(&z, nullptr);
  }
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
  readFile(log, r.out); return r;
}
inline std::string binDir() { const char* b = getenv("VH_BIN"); return b ? b : "/verif/build/fast"; }
inline std::set<std::string> listDir(const std::string& d) { std::set<std::string> s; if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") s.insert(n); } closedir(p); } return s; }
inline bool exists(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
} // namespace vh
