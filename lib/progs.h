// Compiling and running generated programs from within a harness.
#pragma once
#include "pbt.h"
#include <spawn.h>
#include <dirent.h>
#include <sys/stat.h>
extern char** environ;

namespace progs {

inline std::string env(char const* n, char const* d = "") { char const* v = getenv(n); return v ? v : d; }

struct TempDir
{
  std::string path;
  TempDir()
  {
    std::string t = env("TMPDIR", "/tmp") + "/vp-XXXXXX";
    if (!mkdtemp(t.data()))
      throw pbt::Failure{"harness", "mkdtemp"};
    path = t;
  }
  static void remove_tree(std::string const& p)
  {
    if (DIR* d = opendir(p.c_str()))
    {
      while (dirent* e = readdir(d))
      {
        std::string n = e->d_name;
        if (n == "." || n == "..")
          continue;
        std::string f = p + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
          remove_tree(f);
        else
          unlink(f.c_str());
      }
      closedir(d);
    }
    rmdir(p.c_str());
  }
  ~TempDir() { if (!getenv("VP_KEEP_TMP")) remove_tree(path); else fprintf(stderr, "kept %s\n", path.c_str()); }
  TempDir(TempDir const&) = delete;
};

inline void write_file(std::string const& path, std::string const& text)
{
  std::ofstream f(path, std::ios::binary);
  f << text;
}
inline std::string read_file(std::string const& path)
{
  std::ifstream f(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)), {});
}

struct Result
{
  int status = -1; // As of waitpid.
  bool timed_out = false;
  std::string out, err;
  bool ok() const { return !timed_out && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
  std::string describe() const
  {
    if (timed_out) return "timeout";
    if (WIFSIGNALED(status)) return "signal " + std::to_string(WTERMSIG(status));
    return "exit status " + std::to_string(WEXITSTATUS(status));
  }
};

// Run argv with stdout and stderr captured. extra_env: NAME=value, or NAME to remove it.
inline Result run(std::vector<std::string> const& argv, std::string const& dir = "", double timeout = 60,
                  std::vector<std::string> const& extra_env = {}, bool search = true)
{
  std::vector<std::string> e;
  for (char** p = environ; *p; ++p)
  {
    std::string s = *p, n = s.substr(0, s.find('='));
    bool drop = false;
    for (auto& x : extra_env)
      drop = drop || x.substr(0, x.find('=')) == n;
    if (!drop)
      e.push_back(s);
  }
  for (auto& x : extra_env)
    if (x.find('=') != std::string::npos)
      e.push_back(x);
  std::vector<char*> av, ev;
  for (auto& a : argv) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  for (auto& a : e) ev.push_back(const_cast<char*>(a.c_str()));
  ev.push_back(nullptr);
  int of = memfd_create("out", 0), ef = memfd_create("err", 0);
  Result r;
  pid_t pid = fork();
  if (pid == 0)
  {
    alarm(0);
    setpgid(0, 0);
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    int nf = open("/dev/null", O_RDONLY);
    dup2(nf, 0);
    dup2(of, 1);
    dup2(ef, 2);
    if (!dir.empty() && chdir(dir.c_str()))
      _exit(126);
    if (search) execvpe(av[0], av.data(), ev.data());
    else execve(av[0], av.data(), ev.data());
    _exit(127);
  }
  double end = pbt::now() + timeout;
  int pfd = (int)syscall(434, pid, 0);
  pollfd p{pfd, POLLIN, 0};
  int pr;
  do
  {
    int ms = (int)((end - pbt::now()) * 1000);
    pr = poll(&p, 1, ms < 0 ? 0 : ms);
  } while (pr < 0 && errno == EINTR);
  if (pr == 0)
    r.timed_out = true;
  if (pfd >= 0)
    close(pfd);
  kill(-pid, SIGKILL);
  if (pr == 0)
    kill(pid, SIGKILL);
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR)
    ;
  auto slurp = [](int fd) {
    std::string s;
    off_t n = lseek(fd, 0, SEEK_END);
    if (n > (1 << 22)) n = 1 << 22;
    s.resize(n);
    if (n && pread(fd, s.data(), n, 0) < 0) s.clear();
    close(fd);
    return s;
  };
  r.out = slurp(of);
  r.err = slurp(ef);
  return r;
}

// The flags for code that uses libcwd.
inline std::vector<std::string> flags(bool debug = true)
{
  std::string verif = env("VP_VERIF", "/verif"), repo = env("VP_REPO", "/repo"), gen = env("VP_GEN");
  std::vector<std::string> v{"-std=c++20", "-w", "-I" + verif + "/shim", "-I" + gen, "-I" + gen + "/libcwd", "-I" + repo + "/include", "-I" + repo};
  if (debug)
    v.push_back("-DCWDEBUG");
  return v;
}
inline std::vector<std::string> link_flags()
{
  std::string lib = env("VP_LIBDIR");
  return {"-L" + lib, "-lcwd", "-Wl,-rpath," + lib, "-ldl", "-lpthread"};
}
inline std::vector<std::string> cat(std::initializer_list<std::vector<std::string>> l)
{
  std::vector<std::string> r;
  for (auto& x : l) r.insert(r.end(), x.begin(), x.end());
  return r;
}

} // namespace progs
