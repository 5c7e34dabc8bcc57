// ptr: runs a command and numbers its file operations; the K-th one can be
// made to fail, or the whole process killed just before or after it.
//   ptr -l LOG -m SUBSTR [-x SUBSTR]... -o OPS -n K|K+ -a ACTION -- cmd args
// OPS: write,fsync,rename,create,openr,read,mkdir,unlink,chmod,truncate   ACTION: none, EIO, ENOSPC, EACCES, killpre, killpost, term
// (term: SIGTERM, the operation itself waits until the rest of the program has had time to notice)
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4096
static struct { pid_t tid; int insys; int fresh; long inj; int post; int k; } T[MAXT];
static pid_t held; static struct timespec until;
static int later(void) { struct timespec n; clock_gettime(CLOCK_MONOTONIC, &n); return n.tv_sec > until.tv_sec || (n.tv_sec == until.tv_sec && n.tv_nsec >= until.tv_nsec); }
static int nt;
static int slot(pid_t t) {
  for (int i = 0; i < nt; i++) if (T[i].tid == t) return i;
  if (nt >= MAXT) exit(3);
  memset(&T[nt], 0, sizeof T[nt]);
  T[nt].tid = t; T[nt].fresh = 1;
  return nt++;
}
static void readstr(pid_t t, unsigned long a, char *b, size_t n) {
  size_t i = 0;
  while (i + 1 < n) {
    size_t want = 64; if (want > n - 1 - i) want = n - 1 - i;
    struct iovec l = { b + i, want }, r = { (void *)(a + i), want };
    ssize_t g = process_vm_readv(t, &l, 1, &r, 1, 0);
    if (g <= 0) { // cross-page: single bytes
      l.iov_len = r.iov_len = 1; g = process_vm_readv(t, &l, 1, &r, 1, 0);
      if (g <= 0) break;
    }
    for (ssize_t j = 0; j < g; j++) if (!b[i + j]) return;
    i += g;
  }
  b[i] = 0;
}
static void fdpath(pid_t t, long fd, char *b, size_t n) {
  char p[64]; snprintf(p, sizeof p, "/proc/%d/fd/%ld", t, fd);
  ssize_t g = readlink(p, b, n - 1); b[g < 0 ? 0 : g] = 0;
}
int main(int argc, char **argv) {
  const char *log = 0, *match = 0, *ex[16], *ops = "", *act = "none"; int nex = 0; long K = 0; int plus = 0; int i;
  for (i = 1; i < argc && strcmp(argv[i], "--"); i += 2) {
    char *v = argv[i + 1];
    switch (argv[i][1]) {
    case 'l': log = v; break; case 'm': match = v; break; case 'x': ex[nex++] = v; break; case 'o': ops = v; break;
    case 'a': act = v; break; case 'n': K = atol(v); plus = v[strlen(v) - 1] == '+'; break;
    default: return 3;
    }
  }
  char **cmd = argv + i + 1;
  FILE *lf = fopen(log, "w"); if (!lf) return 3;
  setvbuf(lf, 0, _IOLBF, 0);
  fcntl(fileno(lf), F_SETFD, FD_CLOEXEC);
  int err = !strcmp(act, "EIO") ? EIO : !strcmp(act, "ENOSPC") ? ENOSPC : !strcmp(act, "EACCES") ? EACCES : 0;
  pid_t c = fork();
  if (!c) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); execv(cmd[0], cmd); _exit(127); }
  int st; waitpid(c, &st, 0);
  ptrace(PTRACE_SETOPTIONS, c, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL);
  T[slot(c)].fresh = 0;
  ptrace(PTRACE_SYSCALL, c, 0, 0);
  long n = 0; int code = 3;
  for (;;) {
    pid_t t;
    if (held) { // one thread waits, the others go on
      t = waitpid(-1, &st, __WALL | WNOHANG);
      if (t == 0) {
        if (later()) { pid_t h = held; held = 0; ptrace(PTRACE_SYSCALL, h, 0, 0); }
        else usleep(500);
        continue;
      }
    } else t = waitpid(-1, &st, __WALL);
    if (t < 0) break;
    int s = slot(t);
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (t == c) { code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (WIFSIGNALED(st)) fprintf(lf, "KILLED %d\n", WTERMSIG(st)); break; }
      T[s] = T[--nt]; continue;
    }
    int sig = WSTOPSIG(st), deliver = 0;
    if (sig == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, t, 0, &r)) continue;
      if (!T[s].insys) {
        T[s].insys = 1; T[s].inj = 0; T[s].post = 0;
        const char *op = 0; char p[4200] = "", q[4200] = "";
        switch (r.orig_rax) {
        case SYS_write: case SYS_pwrite64: case SYS_writev: op = "write"; fdpath(t, r.rdi, p, sizeof p); break;
        case SYS_read: case SYS_pread64: op = "read"; fdpath(t, r.rdi, p, sizeof p); break;
        case SYS_fsync: case SYS_fdatasync: op = "fsync"; fdpath(t, r.rdi, p, sizeof p); break;
        case SYS_ftruncate: op = "truncate"; fdpath(t, r.rdi, p, sizeof p); break;
        case SYS_fchmod: op = "chmod"; fdpath(t, r.rdi, p, sizeof p); break;
        case SYS_fchmodat: op = "chmod"; readstr(t, r.rsi, p, sizeof p); break;
        case SYS_rename: op = "rename"; readstr(t, r.rdi, p, sizeof p); readstr(t, r.rsi, q, sizeof q); break;
        case SYS_renameat: case SYS_renameat2: op = "rename"; readstr(t, r.rsi, p, sizeof p); readstr(t, r.r10, q, sizeof q); break;
        case SYS_linkat: op = "rename"; readstr(t, r.rsi, p, sizeof p); readstr(t, r.r10, q, sizeof q); break;
        case SYS_openat: op = (r.rdx & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) ? "create" : "openr"; readstr(t, r.rsi, p, sizeof p); break;
        case SYS_mkdirat: op = "mkdir"; readstr(t, r.rsi, p, sizeof p); break;
        case SYS_unlinkat: op = "unlink"; readstr(t, r.rsi, p, sizeof p); break;
        case SYS_unlink: op = "unlink"; readstr(t, r.rdi, p, sizeof p); break;
        }
        if (op && strstr(ops, op) && (strstr(p, match) || strstr(q, match))) {
          int skip = 0;
          for (int j = 0; j < nex; j++) if (strstr(q[0] ? q : p, ex[j])) skip = 1;
          if (!skip) {
            n++;
            int hit = K && (n == K || (plus && n > K));
            if (hit && !strcmp(act, "killpre")) { fprintf(lf, "%ld %s %s %s INJECTED killpre\n", n, op, p, q); kill(c, SIGKILL); }
            else if (hit && !strcmp(act, "term")) {
              fprintf(lf, "%ld %s %s %s INJECTED term\n", n, op, p, q);
              kill(c, SIGTERM);
              if (!held) { held = t; clock_gettime(CLOCK_MONOTONIC, &until); until.tv_nsec += 80000000; if (until.tv_nsec >= 1000000000) { until.tv_sec++; until.tv_nsec -= 1000000000; } continue; }
            } else if (hit && !strcmp(act, "killpost")) { T[s].post = 1; fprintf(lf, "%ld %s %s %s INJECTED killpost\n", n, op, p, q); }
            else if (hit && err) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, t, 0, &r); T[s].inj = err; fprintf(lf, "%ld %s %s %s INJECTED %s\n", n, op, p, q, act); }
            else fprintf(lf, "%ld %s %s %s\n", n, op, p, q);
          }
        }
      } else {
        T[s].insys = 0;
        if (T[s].inj) { r.rax = -T[s].inj; ptrace(PTRACE_SETREGS, t, 0, &r); T[s].inj = 0; }
        if (T[s].post) kill(c, SIGKILL);
      }
    } else if (sig == SIGTRAP && (st >> 16)) { // clone/exec event
    } else if (sig == SIGSTOP && T[s].fresh) {
      T[s].fresh = 0;
    } else deliver = sig;
    ptrace(PTRACE_SYSCALL, t, 0, deliver);
  }
  fclose(lf);
  return code;
}
