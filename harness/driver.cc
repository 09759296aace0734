// Monitor driver: a fork server around the real command-line entry point of
// scram (compiled from /repo/src/scram.cc with main renamed) and around the
// in-process probe.  One job per input line, fields separated by \x1f:
//   id  timeout_ms  cwd  stdout-file  stderr-file  tool  arg...
// tool is "scram" (one CLI run), "scramp" (one CLI run in a perturbed heap, the
// first argument is the seed), "hist" (several CLI runs in one process,
// separated by the argument "--then"; each run's stdout is appended) or
// "faulty" (one CLI run or, with the third argument "serialize", one in-process
// load and serialisation to a file, with output faults: the first argument
// limits the size of written files, the second replaces stdout by a path, by a
// pipe nobody reads ("pipe") or by nothing ("closed"); stderr is unaffected) or
// "probe" (see probe.cc).  One line is printed per job:
//   id  exit-code  signal  timed-out
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

extern "C" int scram_cli_main(int argc, char** argv);
int probe_main(const std::vector<std::string>& args);

// xmlCleanupParser in the renamed main would invalidate the warmed schema.
extern "C" void driver_xml_cleanup() {}

namespace {

int RunCli(const std::vector<std::string>& args) {
  std::vector<std::string> copy = args;
  std::vector<char*> argv;
  std::string name = "scram";
  argv.push_back(&name[0]);
  for (std::string& s : copy) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  return scram_cli_main(static_cast<int>(argv.size()) - 1, argv.data());
}

int RunHist(const std::vector<std::string>& args) {
  std::vector<std::string> cur;
  int n = 0;
  auto flush = [&] {
    int code = RunCli(cur);
    std::cerr.flush();
    std::fprintf(stderr, "\n@@HIST %d %d\n", n++, code);
    std::fflush(stderr);
    std::fflush(stdout);
    cur.clear();
  };
  for (const std::string& a : args) {
    if (a == "--then") flush();
    else cur.push_back(a);
  }
  flush();
  return 0;
}

/// Gives the process another heap layout: the addresses (and their order) that
/// the following allocations get depend on the seed.
void Perturb(unsigned seed) {
  unsigned x = seed * 2654435761u + 12345u;
  auto next = [&x] { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; };
  std::vector<void*> blocks;
  for (int i = 0; i < 6000; ++i) blocks.push_back(std::malloc(16 + 16 * (next() % 40)));
  for (int i = static_cast<int>(blocks.size()) - 1; i > 0; --i) std::swap(blocks[i], blocks[next() % (i + 1)]);
  std::size_t keep = next() % blocks.size();
  for (std::size_t i = keep; i < blocks.size(); ++i) std::free(blocks[i]);
  static std::vector<void*> kept;
  kept.assign(blocks.begin(), blocks.begin() + keep);
}

[[noreturn]] void Faulty(const std::vector<std::string>& f, int errfd) {
  if (chdir(f[2].c_str())) _exit(97);
  std::vector<std::string> args(f.begin() + 6, f.end());
  std::string limit = args.at(0), dest = args.at(1);
  args.erase(args.begin(), args.begin() + 2);
  int in = open("/dev/null", O_RDONLY);
  dup2(in, 0);
  dup2(errfd, 2);
  signal(SIGPIPE, SIG_IGN);
  if (dest == "closed") {
    close(1);
  } else if (dest == "pipe") {
    int p[2];
    if (pipe(p)) _exit(98);
    close(p[0]);
    dup2(p[1], 1);
  } else {
    int out = open(dest.empty() ? f[3].c_str() : dest.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (out < 0) _exit(98);
    dup2(out, 1);
  }
  for (int fd = 3; fd < 64; ++fd) close(fd);
  if (!limit.empty()) {
    signal(SIGXFSZ, SIG_IGN);
    rlim_t n = std::strtoull(limit.c_str(), nullptr, 10);
    struct rlimit fs = {n, n};
    setrlimit(RLIMIT_FSIZE, &fs);
  }
  int code;
  if (!args.empty() && args[0] == "serialize") code = probe_main(args);
  else code = RunCli(args);
  std::exit(code);
}

[[noreturn]] void Child(const std::vector<std::string>& f) {
  if (chdir(f[2].c_str())) _exit(97);
  int in = open("/dev/null", O_RDONLY);
  int out = open(f[3].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int err = open(f[4].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (in < 0 || out < 0 || err < 0) _exit(98);
  dup2(in, 0);
  dup2(out, 1);
  dup2(err, 2);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  struct rlimit fs = {256u << 20, 256u << 20};
  setrlimit(RLIMIT_FSIZE, &fs);
  signal(SIGPIPE, SIG_DFL);
  std::vector<std::string> args(f.begin() + 6, f.end());
  int code = 99;
  if (f[5] == "scram") code = RunCli(args);
  else if (f[5] == "scramp") {
    Perturb(static_cast<unsigned>(std::strtoul(args.at(0).c_str(), nullptr, 10)));
    args.erase(args.begin());
    code = RunCli(args);
  } else if (f[5] == "hist") code = RunHist(args);
  else if (f[5] == "probe") code = probe_main(args);
  std::exit(code);
}

}  // namespace

int main(int argc, char** argv) {
  // Warm the lazily parsed schemas: argv[1] is a small project file.
  if (argc > 1) {
    int saved_out = dup(1), saved_err = dup(2);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    int code = RunCli({"--validate", "--project", argv[1]});
    std::fflush(stdout);
    std::cout.flush();
    dup2(saved_out, 1);
    dup2(saved_err, 2);
    std::printf("ready %d\n", code);
  } else {
    std::printf("ready 0\n");
  }
  std::fflush(stdout);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f;
    std::size_t pos = 0;
    for (;;) {
      std::size_t next = line.find('\x1f', pos);
      f.push_back(line.substr(pos, next == std::string::npos ? next : next - pos));
      if (next == std::string::npos) break;
      pos = next + 1;
    }
    if (f.size() < 6) {
      std::printf("error malformed job\n");
      std::fflush(stdout);
      continue;
    }
    for (std::string& s : f)  // \x1e stands for a newline inside an argument.
      for (char& c : s) if (c == '\x1e') c = '\n';
    long timeout = std::atol(f[1].c_str());
    std::fflush(nullptr);
    bool faulty = f[5] == "faulty";
    int errpipe[2] = {-1, -1};
    if (faulty) {
      if (pipe(errpipe)) return 1;
      fcntl(errpipe[1], F_SETPIPE_SZ, 1 << 20);
    }
    pid_t pid = fork();
    if (pid == 0) {
      if (faulty) Faulty(f, errpipe[1]);
      Child(f);
    }
    if (faulty) close(errpipe[1]);
    int status = 0;
    bool timed_out = false;
    auto start = std::chrono::steady_clock::now();
    long nap = 200;
    for (;;) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
                    std::chrono::steady_clock::now() - start).count();
      if (ms > timeout) {
        timed_out = true;
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        break;
      }
      usleep(nap);
      if (nap < 5000) nap += nap / 4;
    }
    if (faulty) {
      if (FILE* e = std::fopen(f[4].c_str(), "w")) {
        char buf[65536];
        for (ssize_t n; (n = read(errpipe[0], buf, sizeof buf)) > 0;) std::fwrite(buf, 1, n, e);
        std::fclose(e);
      }
      close(errpipe[0]);
    }
    int code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;
    int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
    std::printf("%s %d %d %d\n", f[0].c_str(), code, sig, timed_out ? 1 : 0);
    std::fflush(stdout);
  }
  return 0;
}
