// One process forks one child per simulated run; requests and replies are lines.
#pragma once
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <streambuf>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

namespace server {
inline std::string esc(const char *s, std::size_t n)
{
  std::string o;
  for (std::size_t i = 0; i < n; ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

// Request: seed replay log psw psync palloc races fine maxsteps active ntrace i v ... | workload tokens
template<typename F> int serve(int argc, char **argv, F workload)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("RT_NOASLR")) {
      setenv("RT_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  (void)argc;
  std::ios::sync_with_stdio(false);
  rt::res = static_cast<rt::Result *>(mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // Runs have to begin alike: this process allocates nothing between requests,
  // a copy of it handles each one.
  static char buf[1 << 20];
  std::size_t have = 0;
  while (true) {
    char *nl = static_cast<char *>(memchr(buf, '\n', have));
    if (!nl) {
      if (have == sizeof buf) _exit(3);
      const ssize_t k = read(0, buf + have, sizeof buf - have);
      if (k <= 0) return 0;
      have += static_cast<std::size_t>(k);
      continue;
    }
    const std::size_t len = static_cast<std::size_t>(nl - buf);
    const pid_t handler = fork();
    if (handler != 0) {
      int st = 0;
      waitpid(handler, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return 4;
      memmove(buf, nl + 1, have - len - 1);
      have -= len + 1;
      continue;
    }
    struct Text : std::streambuf {
      Text(char *p, std::size_t n) { setg(p, p, p + n); }
    } text(buf, len);
    std::istream in(&text);
    rt::Setup s;
    s.trace.reserve(1 << 16);       // whether replaying or not, the heap looks the same
    s.active.reserve(4096);
    int replay, keep, races, fine;
    long ntr;
    in >> s.seed >> replay >> keep >> s.p_switch >> s.p_sync >> s.p_alloc >> races >> fine >> s.max_steps >> s.active >> ntr;
    s.replay = replay; s.keep_log = keep; s.races = races; s.fine = fine;
    if (s.active == "-") s.active.clear();
    for (long k = 0; k < ntr; ++k) {
      uint32_t i, v;
      in >> i >> v;
      s.trace.emplace_back(i, v);
    }
    std::size_t hdr = offsetof(rt::Result, choices);
    memset(static_cast<void *>(rt::res), 0, hdr);
    rt::res->loglen = 0;
    pid_t pid = fork();
    if (pid == 0) {
      alarm(40);
      int nul = -1;
      (void)nul;
      workload(s, in);
      rt::harness_error("workload returned");
    }
    int st = 0;
    waitpid(pid, &st, 0);
    rt::Result *r = rt::res;
    std::string klass = r->klass, msg = r->msg;
    int status = r->status;
    if (WIFSIGNALED(st) || status == 0) {
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      status = 2;
      if (sig == SIGALRM) { klass = "hang"; msg = "the run did not end within 40 s of real time"; }
      else { klass = "crash"; msg = std::string("the process died: ") + (sig ? strsignal(sig) : "exit"); }
    }
    std::string o;
    char b[200];
    snprintf(b, sizeof b, "{\"status\":%d,\"digest\":\"%016lx%016lx\",\"sched\":\"%016lx%016lx\",\"steps\":%ld,\"switches\":%ld,\"accesses\":%ld,\"allocs\":%ld,",
      status, r->dig[0], r->dig[1], r->sched[0], r->sched[1], r->steps, r->switches, r->accesses, r->allocs);
    o += b;
    o += "\"class\":\"" + esc(klass.c_str(), klass.size()) + "\",\"msg\":\"" + esc(msg.c_str(), msg.size()) + "\",\"faults\":{";
    for (int i = 0; i < r->nfaults; ++i) { snprintf(b, sizeof b, "%s\"%s\":%ld", i ? "," : "", r->faults[i].name, r->faults[i].n); o += b; }
    o += "},\"probes\":{";
    for (int i = 0; i < r->nprobes; ++i) { snprintf(b, sizeof b, "%s\"%s\":%ld", i ? "," : "", r->probes[i].name, r->probes[i].n); o += b; }
    o += "},\"choices\":{";
    for (int i = 0; i < r->nchoices; ++i) { snprintf(b, sizeof b, "%s\"%u\":%u", i ? "," : "", r->choices[i].i, r->choices[i].v); o += b; }
    o += "},\"log\":\"" + (keep ? esc(r->log, static_cast<std::size_t>(r->loglen)) : std::string()) + "\"}\n";
    for (std::size_t i = 0; i < o.size();) {
      const ssize_t k = write(1, o.data() + i, o.size() - i);
      if (k <= 0) _exit(5);
      i += static_cast<std::size_t>(k);
    }
    _exit(0);
  }
  return 0;
}
}// namespace server
