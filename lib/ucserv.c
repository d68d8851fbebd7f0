/* Runs the compiler's own main() on many sources, each in a forked child.
 * usage: ucserv IN OUT DIR TIMEOUT_S KEEP_ASM RLIMIT_MB GROUP
 * IN : repeated u32 len, bytes
 * OUT: per case i32 kind (0 exit, 1 signal, 2 timeout, 3 not run: two before it timed out), i32 code, u32 errlen, i32 asmlen (-1: no output file),
 *      u64 asmhash, u32 left (files in DIR other than the source and the output), u32 pad, err bytes[errlen],
 *      asm bytes (when KEEP_ASM and asmlen >= 0)
 * With GROUP > 1 a child compiles up to GROUP sources one after the other (exit() returns to the loop); a source on which
 * the child dies, hangs or gives neither an output nor a diagnosis is compiled again in a child of its own, and that counts.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int umlcc_main(int argc, char** argv);

static void die(const char* s) {
    perror(s);
    _exit(9);
}

static size_t slurp(const char* p, char* buf, size_t cap, long* total) {
    int fd = open(p, O_RDONLY);
    if (fd < 0) {
        *total = -1;
        return 0;
    }
    size_t n = 0;
    while (n < cap) {
        ssize_t r = read(fd, buf + n, cap - n);
        if (r <= 0) break;
        n += (size_t)r;
    }
    struct stat st;
    fstat(fd, &st);
    *total = st.st_size;
    close(fd);
    return n;
}


static sigjmp_buf back;
static int in_group, exit_code;
void __real_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code) {
    if (in_group) {
        exit_code = code & 255;
        siglongjmp(back, 1);
    }
    __real_exit(code);
}

static uint8_t* in;
static size_t pos, insz;
static int keep;
static long rl_mb;
static FILE* out;
static char asmb[1 << 22];
static char errb[4096];

typedef struct {
    int32_t kind, code;
    uint32_t errlen;
    int32_t asmlen;
    uint64_t hash;
    uint32_t left, done;
} Hd;

static uint32_t put_source(size_t at) {
    uint32_t len;
    memcpy(&len, in + at, 4);
    int f = open("u.c", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f < 0) die("src");
    size_t w = 0;
    while (w < len) {
        ssize_t r = write(f, in + at + 4 + w, len - w);
        if (r <= 0) die("write");
        w += (size_t)r;
    }
    close(f);
    unlink("u.s");
    return len;
}

static void limits(void) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (rl_mb) {
        rl.rlim_cur = rl.rlim_max = (rlim_t)rl_mb << 20;
        setrlimit(RLIMIT_AS, &rl);
    }
    rl.rlim_cur = rl.rlim_max = (rlim_t)256 << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
}

static void redirect(void) {
    int e = open("err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 2);
    dup2(e, 1);
    close(e);
}

static int compile(void) {
    char a0[] = "umlcc", a1[] = "u.c";
    char* av[] = {a0, a1, NULL};
    return umlcc_main(2, av);
}

/* collect what the compiler left in the directory */
static size_t collect(Hd* h) {
    long elen, alen;
    size_t en = slurp("err", errb, sizeof errb, &elen);
    size_t an = slurp("u.s", asmb, sizeof asmb, &alen);
    uint64_t v = 1469598103934665603ULL;
    for (size_t i = 0; i < an; i++) v = (v ^ (uint8_t)asmb[i]) * 1099511628211ULL;
    uint32_t left = 0;
    DIR* d = opendir(".");
    struct dirent* de;
    while ((de = readdir(d))) {
        const char* n = de->d_name;
        if (strcmp(n, ".") && strcmp(n, "..") && strcmp(n, "u.c") && strcmp(n, "u.s") && strcmp(n, "err")) left++;
    }
    closedir(d);
    h->errlen = (uint32_t)en;
    h->asmlen = (int32_t)alen;
    h->hash = v;
    h->left = left;
    return an;
}

static void emit(Hd* h, const char* err, size_t an) {
    uint32_t tl[2] = {h->left, 0};
    fwrite(h, 4, 4, out);
    fwrite(&h->hash, 8, 1, out);
    fwrite(tl, 4, 2, out);
    fwrite(err, 1, h->errlen, out);
    if (keep && h->asmlen >= 0) fwrite(asmb, 1, an, out);
}

/* wait for the child; progress restarts the clock */
static int await(pid_t pid, int tmo, sigset_t* chld, volatile uint32_t* progress, int* code) {
    int wst = 0;
    uint32_t seen = progress ? *progress : 0;
    struct timespec dl = {tmo, 0};
    for (;;) {
        if (waitpid(pid, &wst, WNOHANG) == pid) break;
        int s = sigtimedwait(chld, NULL, &dl);
        if (s < 0 && errno == EAGAIN) {
            if (progress && *progress != seen) {
                seen = *progress;
                continue;
            }
            kill(pid, SIGKILL);
            waitpid(pid, &wst, 0);
            *code = 0;
            return 2;
        }
    }
    *code = WIFEXITED(wst) ? WEXITSTATUS(wst) : WTERMSIG(wst);
    return WIFEXITED(wst) ? 0 : 1;
}

static int has_error(const char* s, size_t n) {
    return memmem(s, n, "error", 5) != NULL;
}

#define MAXG 1024
typedef struct {
    uint32_t done;
    Hd h[MAXG];
    char err[MAXG][1024];
} Shared;

int main(int argc, char** argv) {
    if (argc != 8) return 9;
    int tmo = atoi(argv[4]);
    keep = atoi(argv[5]);
    rl_mb = atol(argv[6]);
    int group = atoi(argv[7]);
    if (group > MAXG) group = MAXG;
    int fd = open(argv[1], O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) die("in");
    insz = (size_t)st.st_size;
    in = mmap(NULL, insz + 1, PROT_READ, MAP_PRIVATE, fd, 0);
    out = fopen(argv[2], "wb");
    if (!out) die("out");
    if (chdir(argv[3])) die("chdir");
    Shared* sh = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sigset_t chld;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, NULL);
    int hangs = 0;
    while (pos + 4 <= insz) {
        int singles = 1;
        if (hangs >= 2) {
            uint32_t len;
            memcpy(&len, in + pos, 4);
            pos += 4 + len;
            Hd h = {0};
            h.kind = 3;
            h.asmlen = -1;
            emit(&h, errb, 0);
            continue;
        }
        if (group > 1) {
            sh->done = 0;
            fflush(out);
            pid_t pid = fork();
            if (pid < 0) die("fork");
            if (pid == 0) {
                sigprocmask(SIG_UNBLOCK, &chld, NULL);
                limits();
                volatile size_t at = pos;
                while (sh->done < (uint32_t)group && at + 4 <= insz) {
                    size_t len = put_source(at);
                    redirect();
                    in_group = 1;
                    if (sigsetjmp(back, 0) == 0) exit_code = compile() & 255;
                    in_group = 0;
                    Hd* h = &sh->h[sh->done];
                    collect(h);
                    h->kind = 0;
                    h->code = exit_code;
                    if (h->errlen > 1024) h->errlen = 1024;
                    memcpy(sh->err[sh->done], errb, h->errlen);
                    at += 4 + len;
                    sh->done++;
                }
                _exit(0);
            }
            int code = 0;
            int kind = await(pid, tmo, &chld, &sh->done, &code);
            uint32_t i;
            for (i = 0; i < sh->done; i++) {
                Hd* h = &sh->h[i];
                int ok = h->code == 0 && h->asmlen >= 0, diag = h->code == 1 && h->asmlen < 0 && has_error(sh->err[i], h->errlen);
                if (!(ok || diag) || h->left) break;
                uint32_t len;
                memcpy(&len, in + pos, 4);
                pos += 4 + len;
                emit(h, sh->err[i], 0);
            }
            singles = i < sh->done || kind != 0 || code != 0;
        }
        while (singles-- > 0 && pos + 4 <= insz) {
            size_t len = put_source(pos);
            pos += 4 + len;
            fflush(out);
            pid_t pid = fork();
            if (pid < 0) die("fork");
            if (pid == 0) {
                sigprocmask(SIG_UNBLOCK, &chld, NULL);
                redirect();
                limits();
                exit(compile());
            }
            Hd h = {0};
            int code = 0;
            h.kind = await(pid, tmo, &chld, NULL, &code);
            h.code = code;
            hangs += h.kind == 2;
            size_t an = collect(&h);
            emit(&h, errb, an);
        }
    }
    fclose(out);
    return 0;
}
