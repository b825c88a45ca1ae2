// Fork server: every line on standard input describes one simulated run; each
// run happens in a fresh child process, the result is printed as one JSON line.
#include "rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <utility>
#include <vector>

extern char g_rep_name[4][64], g_gate[2][96], g_input[96];
#ifdef SIM_API
int api_main(const char* ops);
#else
int minimc_main(int, char**);
#endif

namespace {
std::string arg_file = "in.xml", ops, tag;

void program(void*) {
  using namespace sim;
  sh->fds_start = fds_open();
  heap_reset_peak();
  sh->heap_start = heap_now();
#ifdef SIM_API
  static char list[8192]; // at the same address in all runs
  snprintf(list, sizeof list, "%s", ops.c_str());
  int rc = api_main(list);
#else
  static char a0[] = "runminimc";
  static char a1[512];
  snprintf(a1, sizeof a1, "%s", arg_file.c_str());
  static char* av[] = {a0, a1, nullptr};
  int rc = minimc_main(2, av);
#endif
  sh->heap_end = heap_now();
  sh->heap_work = sh->heap_mark ? heap_peak() - sh->heap_mark : 0;
  sh->heap_peak = heap_peak() > sh->heap_before ? heap_peak() : sh->heap_before;
  sh->fds_end = fds_open();
  sim::sh->rc = rc;
  sim::sh->main_returned = 1;
  exit(rc);
}

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Spec { std::string dir; std::vector<std::pair<std::string, std::string>> kv; };

void apply(const Spec& s, std::string& out_mode, std::string& replay, long& nofile) {
  using namespace sim;
  int nrep = 0;
  for (auto& [k, v] : s.kv) {
    auto u = [&] { return strtoull(v.c_str(), nullptr, 0); };
    auto i = [&] { return strtol(v.c_str(), nullptr, 0); };
    if (k == "seed") cfg.seed = u();
    else if (k == "strategy") cfg.strategy = (int)i();
    else if (k == "p") cfg.p = atof(v.c_str());
    else if (k == "quantum") cfg.quantum = u();
    else if (k == "depth") cfg.depth = (int)i();
    else if (k == "estlen") cfg.estlen = u();
    else if (k == "stall_victim") cfg.stall_victim = (int)i();
    else if (k == "stall_at") cfg.stall_at = u();
    else if (k == "stall_for") cfg.stall_for = u();
    else if (k == "stall_late") cfg.stall_late = i() != 0;
    else if (k == "tick") cfg.tick = u();
    else if (k == "budget") cfg.budget = u();
    else if (k == "kill_step") cfg.kill_step = u();
    else if (k == "thread_fail_mask") cfg.thread_fail_mask = u();
    else if (k == "thread_fail_errno") cfg.thread_fail_errno = (int)i();
    else if (k == "malloc_fail") cfg.malloc_fail = i();
    else if (k == "malloc_own") cfg.malloc_own = i();
    else if (k == "malloc_fail_len") cfg.malloc_fail_len = i();
    else if (k == "layout") cfg.layout = (int)i();
    else if (k == "layout_seed") cfg.layout_seed = u();
    else if (k == "garbage") cfg.garbage = (int)i();
    else if (k == "clock_seed") cfg.clock_seed = u();
    else if (k == "entropy_seed") cfg.entropy_seed = u();
    else if (k == "id_seed") cfg.id_seed = u();
    else if (k == "clock_base") cfg.clock_base = u();
    else if (k == "races") cfg.races = i() != 0;
    else if (k == "mem") cfg.mem = i() != 0;
    else if (k == "max_run") cfg.max_run = u();
    else if (k == "arg") {
      arg_file = v;
      snprintf(g_input, 96, "%s", v.substr(v.rfind('/') + 1).c_str()); // npos + 1 is 0
    }
    else if (k == "ops") ops = v;
    else if (k == "out") out_mode = v;
    else if (k == "tag") tag = "." + v;
    else if (k == "replay") replay = v;
    else if (k == "nofile") nofile = i();
    else if (k == "fault") { // op:action:arg
      long a = 0, b = 0, c = 0;
      sscanf(v.c_str(), "%ld:%ld:%ld", &a, &b, &c);
      if (sh->nfault < kMaxIoFault) sh->fault[sh->nfault++] = IoFault{a, (int)b, c, 0};
    }
    else if (k == "gate") for (int q = 0; q < 2; q++) snprintf(g_gate[q], 96, "%s.%s", v.c_str(), q ? "in" : "out");
    else if (k == "repname") { if (nrep < 4) snprintf(g_rep_name[nrep++], 64, "%s", v.c_str()); }
    else if (k.rfind("env.", 0) == 0) setenv(k.c_str() + 4, v.c_str(), 1);
  }
}

[[noreturn]] void child(const Spec& s) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rlimit z{0, 0};
  setrlimit(RLIMIT_CORE, &z);
  if (chdir(s.dir.c_str())) _exit(98);
  std::string out_mode = "file", replay;
  long nofile = 0;
  clearenv();
  setenv("PATH", "/usr/bin:/bin", 1);
  setenv("LC_ALL", "C", 1);
  apply(s, out_mode, replay, nofile);
  using namespace sim;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) _exit(97);
    static std::vector<TraceEnt> t;
    unsigned long long st; int tid, fr;
    while (fscanf(f, "%llu %d %d", &st, &tid, &fr) == 3) t.push_back({st, tid, fr});
    fclose(f);
    cfg.replay = t.data(); cfg.nreplay = (int)t.size();
    cfg.strategy = S_REPLAY;
  }
  int in = open("/dev/null", O_RDONLY);
  dup2(in, 0);
  int e = open(("stderr" + tag).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int o;
  if (out_mode == "full") o = open("/dev/full", O_WRONLY);
  else if (out_mode == "closed") o = open("/dev/null", O_RDONLY);
  else o = open(("stdout" + tag).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(o, 1); dup2(e, 2);
  for (int fd = 3; fd < 64; fd++) close(fd);
  if (nofile) { rlimit l{(rlim_t)nofile, (rlim_t)nofile}; setrlimit(RLIMIT_NOFILE, &l); }
  arena_set_policy(cfg.layout, cfg.layout_seed, cfg.garbage);
  run(program, nullptr);
  _exit(96);
}

void jstr(const char* s) {
  putchar('"');
  for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((unsigned char)*s >= 32) putchar(*s); }
  putchar('"');
}
} // namespace

int main(int argc, char** argv) {
  using namespace sim;
  // library addresses are made the same in every run where that is permitted
  if (!getenv("MMC_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("MMC_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  (void)argc;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sh = (Shared*)mmap((void*)0x158000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 99; }
  static char* line = nullptr; static size_t cap = 0;
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  while (getline(&line, &cap, stdin) > 0) {
    Spec s;
    double timeout = 60;
    bool want_trace = false, want_io = false, want_own = false;
    std::string tracefile;
    for (char* t = strtok(line, " \t\n"); t; t = strtok(nullptr, " \t\n")) {
      char* q = strchr(t, '=');
      if (!q) continue;
      std::string k(t, q), v(q + 1);
      if (k == "dir") s.dir = v;
      else if (k == "timeout") timeout = atof(v.c_str());
      else if (k == "tracefile") tracefile = v;
      else if (k == "want_io") want_io = true;
      else if (k == "want_own") want_own = true;
      else s.kv.emplace_back(k, v);
    }
    memset(sh, 0, offsetof(Shared, io));
    sh->nio = sh->nio_total = sh->ntrace = sh->trace_overflow = sh->nrace = sh->nrace_total = sh->nfault = 0;
    memset(sh->race, 0, sizeof sh->race);
    memset(sh->fault, 0, sizeof sh->fault);
    sh->note[0] = 0; sh->main_returned = 0;
    sh->foreign = 0; sh->foreign_name[0] = 0; sh->ntouched = 0; sh->heap_peak = sh->heap_start = sh->heap_end = sh->heap_before = sh->heap_mark = sh->heap_work = sh->fds_start = sh->fds_end = 0;
    sh->released = sh->polls = 0; sh->nmisuse = 0; sh->mallocs_own = 0; memset(sh->rel_steps, 0, sizeof sh->rel_steps); memset(sh->misuse, 0, sizeof sh->misuse);
    double t0 = now();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) child(s);
    int st = 0;
    bool timed_out = false;
    // the step budget ends a run that goes on for ever; this ends one that takes no steps any more
    int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
    uint64_t seen = 0;
    double since = now();
    for (;;) {
      if (pfd >= 0) {
        pollfd pf{pfd, POLLIN, 0};
        poll(&pf, 1, 500);
      } else usleep(200);
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid || (r < 0 && errno != EINTR)) break;
      double n = now();
      uint64_t at = __atomic_load_n(&sh->steps, __ATOMIC_RELAXED);
      if (at != seen) seen = at, since = n;
      if (n - since > timeout || n - t0 > 12 * timeout) {
        kill(pid, SIGKILL); timed_out = true;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
        break;
      }
    }
    if (pfd >= 0) close(pfd);
    double w = now() - t0;
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    printf("{\"sig\":%d,\"code\":%d,\"status\":%d,\"wall\":%.6f,\"timeout\":%d,\"main_returned\":%d", sig, code, sh->status, w, (int)timed_out, (int)sh->main_returned);
#define U(f) printf(",\"" #f "\":%llu", (unsigned long long)sh->f);
    U(steps) U(switches) U(threads) U(mallocs) U(mallocs_own) U(mallocs_at_multi) U(multi_steps) U(conflicts) U(maxlive) U(vclock_ns) U(sync_ops)
    U(clock_reads) U(entropy_reads) U(id_reads) U(fired_malloc) U(fired_thread) U(fired_stall) U(fired_clock) U(fired_late) U(create_calls) U(killed_at)
    U(nio_total) U(ntrace) U(trace_overflow) U(nrace_total) U(foreign) U(heap_peak) U(heap_start) U(heap_end) U(heap_work) U(heap_mark) U(fds_start) U(fds_end) U(released) U(polls) U(nmisuse)
    printf(",\"hash\":\"%016llx\",\"interleave\":\"%016llx\",\"note\":", (unsigned long long)sh->hash, (unsigned long long)sh->interleave);
    jstr(sh->note);
    printf(",\"foreign_name\":");
    jstr(sh->foreign_name);
    printf(",\"touched\":[");
    for (int i = 0; i < sh->ntouched && i < 16; i++) { if (i) printf(","); jstr(sh->touched[i]); }
    printf("],\"faults\":[");
    for (int i = 0; i < sh->nfault; i++) printf("%s%d", i ? "," : "", sh->fault[i].fired);
    printf("],\"thr_steps\":[");
    for (int i = 0; i < (int)sh->threads && i < kMaxThr; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->thr_steps[i]);
    printf("],\"rel_steps\":[");
    for (int i = 0; sh->released && i < (int)sh->threads && i < kMaxThr; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->rel_steps[i]);
    printf("],\"misuse\":[");
    for (int i = 0; i < sh->nmisuse && i < 4; i++) {
      Misuse& m = sh->misuse[i];
      printf("%s[%d,%d,%d,\"0x%llx\",%llu,\"0x%llx\",%llu]", i ? "," : "", m.kind, m.write, m.tid, (unsigned long long)m.addr, (unsigned long long)m.len, (unsigned long long)m.pc, (unsigned long long)m.step);
    }
    printf("],\"races\":[");
    for (int i = 0; i < sh->nrace; i++) {
      RaceRep& r = sh->race[i];
      printf("%s[\"0x%llx\",\"0x%llx\",\"0x%llx\",%d,%d,%d,%d,%llu]", i ? "," : "", (unsigned long long)r.addr, (unsigned long long)r.pc1, (unsigned long long)r.pc2, r.t1, r.t2, r.w1, r.w2, (unsigned long long)r.step);
    }
    printf("]");
    if (want_io) {
      printf(",\"io\":[");
      for (int i = 0; i < sh->nio; i++) printf("%s[%d,\"%c\",%d,%d,%llu]", i ? "," : "", sh->io[i].op, sh->io[i].role, sh->io[i].req, sh->io[i].ret, (unsigned long long)sh->io[i].step);
      printf("]");
    }
    if (want_own) { // for each place that asks for memory, up to 24 of its requests, spread over the run; nothing here uses the heap
      static struct { uint64_t pc, n, at[24]; } places[1000];
      int np = 0;
      uint64_t n = sh->mallocs_own < kMaxOwn ? sh->mallocs_own : kMaxOwn;
      for (uint64_t i = 0; i < n; i++) {
        int k = 0;
        while (k < np && places[k].pc != sh->own_pc[i]) k++;
        if (k == np) {
          if (np == 1000) continue;
          places[np].pc = sh->own_pc[i];
          places[np++].n = 0;
        }
        auto& e = places[k];
        if (e.n < 24) e.at[e.n] = i;
        else e.at[8 + (i * 2654435761u >> 7) % 16] = i;
        e.n++;
      }
      printf(",\"own\":[");
      for (int k = 0; k < np; k++) {
        printf("%s[", k ? "," : "");
        for (uint64_t j = 0; j < places[k].n && j < 24; j++) printf("%s%llu", j ? "," : "", (unsigned long long)places[k].at[j]);
        printf("]");
      }
      printf("]");
    }
    if (!tracefile.empty()) {
      FILE* f = fopen(tracefile.c_str(), "w");
      if (f) {
        for (int i = 0; i < sh->ntrace; i++) fprintf(f, "%llu %d %d\n", (unsigned long long)sh->trace[i].step, sh->trace[i].tid, sh->trace[i].forced);
        fclose(f);
      }
    }
    (void)want_trace;
    printf("}\n");
    fflush(stdout);
  }
  return 0;
}
