/* A controlled scheduler for compiler processes: every system call is a scheduling point.
 *   ptsched trace EXE SRC                    print the numbers of the system calls made
 *   ptsched fault N:ERRNO[,N:ERRNO..] EXE SRC  the N-th system calls (counted from 1) fail with ERRNO, without being made
 *   ptsched kill N EXE SRC                   SIGKILL before the N-th system call
 *   ptsched sched I J EXE SRCA SRCB          A runs up to its I-th call, B up to its J-th, then A to its end, then B
 * The children get stdout and stderr in files "errA", "errB" given by the environment variable PT_ERR (prefix).
 * Last line printed: "A <status> [B <status>]", status = exit code, or -signal.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

typedef struct {
    pid_t pid;
    int calls, done, status, in_call;
} Proc;

static const char* exe;

static void launch(Proc* p, const char* src, const char* tag) {
    memset(p, 0, sizeof *p);
    p->pid = fork();
    if (p->pid < 0) exit(9);
    if (p->pid == 0) {
        char err[4096];
        const char* pre = getenv("PT_ERR");
        snprintf(err, sizeof err, "%s%s", pre ? pre : "err", tag);
        int e = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(e, 1);
        dup2(e, 2);
        close(e);
        char* av[] = {(char*)"umlcc", (char*)src, NULL};
        char* ev[] = {NULL};
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(77);
        execve(exe, av, ev);
        _exit(78);
    }
    int st;
    waitpid(p->pid, &st, 0);
    if (!WIFSTOPPED(st)) {
        fprintf(stderr, "no tracing\n");
        exit(8);
    }
    ptrace(PTRACE_SETOPTIONS, p->pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
}

/* run to the next system call entry (0), or to the end (1) */
static int step(Proc* p) {
    int sig = 0;
    while (!p->done) {
        if (ptrace(PTRACE_SYSCALL, p->pid, 0, sig)) return 1;
        int st;
        if (waitpid(p->pid, &st, 0) < 0) return 1;
        sig = 0;
        if (WIFEXITED(st)) {
            p->done = 1;
            p->status = WEXITSTATUS(st);
        } else if (WIFSIGNALED(st)) {
            p->done = 1;
            p->status = -WTERMSIG(st);
        } else if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {
            p->in_call = !p->in_call;
            if (p->in_call) {
                p->calls++;
                return 0;
            }
        } else {
            sig = WSTOPSIG(st);
        }
    }
    return 1;
}

static void finish(Proc* p) {
    while (!step(p)) {
    }
}

static void report(Proc* a, Proc* b) {
    printf("A %d", a->status);
    if (b) printf(" B %d", b->status);
    printf("\n");
}

/* calls that work on files, other than messages */
static int is_file_call(struct user_regs_struct* r) {
    static const int nrs[] = {0, 1, 2, 3, 4, 5, 6, 8, 17, 18, 19, 20, 21, 74, 75, 77, 82, 86, 87, 257, 262, 263, 264, 316, 332};
    if ((r->orig_rax == 1 || r->orig_rax == 20 || r->orig_rax == 5 || r->orig_rax == 262) && r->rdi <= 2) return 0;
    for (unsigned i = 0; i < sizeof nrs / sizeof nrs[0]; i++)
        if ((int)r->orig_rax == nrs[i]) return 1;
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 4) return 9;
    if (!strcmp(argv[1], "trace")) {
        exe = argv[2];
        Proc p;
        launch(&p, argv[3], "A");
        while (!step(&p)) {
            struct user_regs_struct r;
            ptrace(PTRACE_GETREGS, p.pid, 0, &r);
            printf("%lld ", (long long)r.orig_rax);
        }
        printf("\n");
        report(&p, NULL);
    } else if (!strcmp(argv[1], "fault")) {
        exe = argv[3];
        Proc p;
        launch(&p, argv[4], "A");
        while (!step(&p)) {
            char* s = argv[2];
            while (*s) {
                int n = (int)strtol(s, &s, 10);
                int e = (int)strtol(s + 1, &s, 10);
                if (*s == ',') s++;
                if (n != p.calls) continue;
                struct user_regs_struct r;
                ptrace(PTRACE_GETREGS, p.pid, 0, &r);
                if (!is_file_call(&r)) break;
                r.orig_rax = (unsigned long long)-1;
                ptrace(PTRACE_SETREGS, p.pid, 0, &r);
                int st;
                ptrace(PTRACE_SYSCALL, p.pid, 0, 0);
                waitpid(p.pid, &st, 0);
                if (!WIFSTOPPED(st)) {
                    p.done = 1;
                    p.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
                    break;
                }
                p.in_call = 0;
                ptrace(PTRACE_GETREGS, p.pid, 0, &r);
                r.rax = (unsigned long long)(long long)-e;
                ptrace(PTRACE_SETREGS, p.pid, 0, &r);
                break;
            }
        }
        report(&p, NULL);
    } else if (!strcmp(argv[1], "kill")) {
        exe = argv[3];
        int n = atoi(argv[2]);
        Proc p;
        launch(&p, argv[4], "A");
        while (!step(&p)) {
            if (p.calls == n) {
                kill(p.pid, SIGKILL);
                int st;
                waitpid(p.pid, &st, 0);
                p.done = 1;
                p.status = -9;
                break;
            }
        }
        report(&p, NULL);
    } else if (!strcmp(argv[1], "sched") && argc == 7) {
        exe = argv[4];
        int i = atoi(argv[2]), j = atoi(argv[3]);
        Proc a, b;
        launch(&a, argv[5], "A");
        while (a.calls < i && !step(&a)) {
        }
        launch(&b, argv[6], "B");
        while (b.calls < j && !step(&b)) {
        }
        finish(&a);
        finish(&b);
        report(&a, &b);
    } else {
        return 9;
    }
    return 0;
}
