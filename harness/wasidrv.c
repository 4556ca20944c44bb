/*
 * wasidrv: one WASI "process", driven call by call.
 *
 * Reads commands (one per line) from stdin and answers each with one JSON
 * line.  It contains no expectations: the answers are judged by the TLA+
 * specification.
 *
 * usage: wasidrv MODULE.wasm UID DIR
 *
 * The module imports the WASI functions and exports a wrapper for each.
 * After start-up the process changes to DIR, drops to UID and bounds the
 * size of the files it can make.  The calls made here can only reach what
 * that user can reach.
 *
 *   A HEX...          arguments             V HEX...        environment
 *   P HEX             pre-open "HOST::GUEST"
 *   H FD KIND         host descriptor as FD: pr pw (pipe), pq (pw with room for
 *                     one page), ss (socket pair),
 *                     sl (listening socket), ro rw (file "hostfile"), nul
 *   I                 create the instance
 *   C NAME ARG... [; ADDR HEX]...
 *                     fill memory, write the segments, call, report
 *   O FD w HEX | r N | c | s HOW | n        peer of FD: write, read, close,
 *                     shutdown, new connection
 *   L K FD ...        the same while the next call is in progress, after it
 *                     has been interrupted K times (and only the interrupts
 *                     if nothing follows)
 *   T DIR             contents of a directory tree
 *   E                 end
 */
#define _GNU_SOURCE
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <inttypes.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <toywasm/toywasm_config.h>

#include <toywasm/cconv.h>
#include <toywasm/exec_context.h>
#include <toywasm/fileio.h>
#include <toywasm/instance.h>
#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/report.h>
#include <toywasm/restart.h>
#include <toywasm/type.h>
#include <toywasm/wasi.h>

#define MEMSZ 65536
#define FILL 0xee
#define MAXW 4096

static struct mem_context mctx;
static struct module *mod;
static struct instance *inst;
static struct wasi_instance *wasi;
static struct import_object *imp;
static uint8_t shadow[MEMSZ];
static char *strs[2][64];
static int nstrs[2];
static int peer[64];
static char lname[64][64];
static atomic_uint intr;
static atomic_uint done;
static char *late[8];
static int nlate;
struct answer {
        ssize_t r;
        int e;
        uint8_t *b;
};
static struct answer lateans;

static void
die(const char *msg)
{
        fprintf(stderr, "wasidrv: %s (%s)\n", msg, strerror(errno));
        _exit(3);
}

static uint8_t *
unhex(const char *s, size_t *lp)
{
        if (!strcmp(s, "-")) {
                s = "";
        }
        size_t l = strlen(s) / 2;
        uint8_t *p = malloc(l + 1);
        size_t i;
        for (i = 0; i < l; i++) {
                unsigned int v;
                if (sscanf(s + 2 * i, "%2x", &v) != 1) {
                        die("bad hex");
                }
                p[i] = (uint8_t)v;
        }
        p[l] = 0;
        *lp = l;
        return p;
}

static void
prbytes(const uint8_t *p, size_t n)
{
        size_t i;
        printf("[");
        for (i = 0; i < n; i++) {
                printf("%s%u", i ? "," : "", p[i]);
        }
        printf("]");
}

static const clockid_t clockids[4] = {
        CLOCK_REALTIME,
        CLOCK_MONOTONIC,
        CLOCK_PROCESS_CPUTIME_ID,
        CLOCK_THREAD_CPUTIME_ID,
};

static void
clocks(struct timespec *ts)
{
        int i;
        for (i = 0; i < 4; i++) {
                clock_gettime(clockids[i], &ts[i]);
        }
}

static void
prclocks(const char *name, const struct timespec *ts)
{
        int i;
        printf(",\"%s\":[", name);
        for (i = 0; i < 4; i++) {
                printf("%s%" PRIu64, i ? "," : "",
                       (uint64_t)ts[i].tv_sec * 1000000000 +
                               (uint64_t)ts[i].tv_nsec);
        }
        printf("]");
}

static int
run(struct exec_context *ctx, int ret)
{
        while (IS_RESTARTABLE(ret)) {
                intr = 0;
                ret = instance_execute_handle_restart_once(ctx, ret);
        }
        return ret;
}

static void
cmd_inst(const char *path)
{
        uint8_t *p;
        size_t sz;
        int ret = map_file(path, (void **)&p, &sz); /* kept to the end */
        if (ret != 0) {
                die("map_file");
        }
        struct load_context lctx;
        load_context_init(&lctx, &mctx);
        ret = module_create(&mod, p, p + sz, &lctx);
        if (ret != 0) {
                die(report_getmessage(&lctx.report));
        }
        load_context_clear(&lctx);
        ret = import_object_create_for_wasi(&mctx, wasi, &imp);
        if (ret != 0) {
                die("import_object_create_for_wasi");
        }
        struct report report;
        report_init(&report);
        ret = instance_create_no_init(&mctx, mod, &inst, imp, &report);
        if (ret != 0) {
                die(report_getmessage(&report));
        }
        report_clear(&report);
        struct exec_context ctx;
        exec_context_init(&ctx, inst, &mctx);
        ret = run(&ctx, instance_execute_init(&ctx));
        if (ret != 0) {
                die("init");
        }
        exec_context_clear(&ctx);
        wasi_instance_set_memory(wasi, cconv_memory(inst));
        printf("{}\n");
}

static uint8_t *
memptr(void)
{
        void *p;
        int ret = memory_instance_getptr2(cconv_memory(inst), 0, 0, MEMSZ, &p,
                                          NULL);
        if (ret != 0) {
                die("memory");
        }
        return p;
}

static struct answer
do_peer(char **w)
{
        uint32_t fd = (uint32_t)atoi(w[1]);
        size_t l;
        ssize_t r = 0;
        int e = 0;
        uint8_t *b = NULL;
        switch (w[2][0]) {
        case 'w':
                b = unhex(w[3], &l);
                r = send(peer[fd], b, l, MSG_NOSIGNAL);
                if (r == -1 && errno == ENOTSOCK) {
                        r = write(peer[fd], b, l);
                }
                e = r == -1 ? errno : 0;
                free(b);
                b = NULL;
                break;
        case 'r':
                l = strtoul(w[3], NULL, 0);
                b = malloc(l + 1);
                r = read(peer[fd], b, l);
                e = r == -1 ? errno : 0;
                break;
        case 'c':
                close(peer[fd]);
                peer[fd] = -1;
                break;
        case 's':
                e = shutdown(peer[fd], atoi(w[3])) ? errno : 0;
                break;
        case 'n': {
                struct sockaddr_un un;
                memset(&un, 0, sizeof(un));
                un.sun_family = AF_UNIX;
                strcpy(un.sun_path, lname[fd]);
                int s = socket(AF_UNIX, SOCK_STREAM, 0);
                if (connect(s, (void *)&un, sizeof(un))) {
                        die("connect");
                }
                fcntl(s, F_SETFL, O_NONBLOCK);
                /* the peer of a descriptor that does not exist yet */
                peer[atoi(w[3])] = s;
                break;
        }
        default:
                die("bad peer command");
        }
        struct answer a = {.r = r, .e = e, .b = b};
        return a;
}

static void
pranswer(struct answer *a)
{
        printf("{\"n\":%ld,\"e\":%d,\"b\":", (long)a->r, a->e);
        prbytes(a->b, a->r > 0 && a->b != NULL ? (size_t)a->r : 0);
        printf("}");
        free(a->b);
}

static void
cmd_peer(char **w)
{
        struct answer a = do_peer(w);
        pranswer(&a);
        printf("\n");
}

static void *
later(void *arg)
{
        int k;
        for (k = atoi(late[1]); k > 0 && !done; k--) {
                usleep(2000);
                intr = 1;
                while (intr && !done) {
                        usleep(500);
                }
        }
        if (nlate > 3) {
                usleep(4000);
                lateans = do_peer(late + 1);
        }
        return NULL;
}

static void
cmd_call(char **w, int n)
{
        struct name name = {.nbytes = (uint32_t)strlen(w[1]), .data = w[1]};
        uint32_t fidx;
        if (module_find_export(mod, &name, EXTERNTYPE_FUNC, &fidx)) {
                die("no such function");
        }
        const struct functype *ft = module_functype(mod, fidx);
        struct val args[16], vals[4];
        memset(args, 0, sizeof(args));
        memset(vals, 0, sizeof(vals));
        int i;
        for (i = 0; i < (int)ft->parameter.ntypes; i++) {
                uint64_t v = strtoull(w[2 + i], NULL, 0);
                if (ft->parameter.types[i] == TYPE_i32) {
                        args[i].u.i32 = (uint32_t)v;
                } else {
                        args[i].u.i64 = v;
                }
        }
        uint8_t *m = memptr();
        memset(m, FILL, MEMSZ);
        for (i = 2 + (int)ft->parameter.ntypes; i + 2 < n; i += 3) {
                size_t l;
                uint8_t *b = unhex(w[i + 2], &l);
                size_t a = strtoul(w[i + 1], NULL, 0);
                if (w[i][0] != ';' || a + l > MEMSZ) {
                        die("bad segment");
                }
                memcpy(m + a, b, l);
                free(b);
        }
        memcpy(shadow, m, MEMSZ);
        struct timespec lo[4], hi[4];
        struct exec_context ctx;
        exec_context_init(&ctx, inst, &mctx);
        ctx.intrp = &intr;
        pthread_t lt;
        done = 0;
        if (nlate > 0 && pthread_create(&lt, NULL, later, NULL)) {
                die("pthread_create");
        }
        clocks(lo);
        int ret = exec_push_vals(&ctx, &ft->parameter, args);
        if (ret == 0) {
                ret = run(&ctx,
                          instance_execute_func(&ctx, fidx, &ft->parameter,
                                                &ft->result));
        }
        clocks(hi);
        done = 1;
        if (nlate > 0) {
                pthread_join(lt, NULL);
        }
        intr = 0;
        int r = -1, t = -1;
        long xc = 0;
        if (ret == 0) {
                exec_pop_vals(&ctx, &ft->result, vals);
                r = ft->result.ntypes == 0 ? 0 : (int)vals[0].u.i32;
        } else if (ret == ETOYWASMTRAP) {
                t = (int)ctx.trap.trapid;
                if (t == TRAP_VOLUNTARY_EXIT) {
                        xc = (long)wasi_instance_exit_code(wasi);
                }
        } else {
                r = -2;
                t = ret;
        }
        exec_context_clear(&ctx);
        m = memptr();
        struct timespec res[4];
        for (i = 0; i < 4; i++) {
                clock_getres(clockids[i], &res[i]);
        }
        printf("{\"r\":%d,\"t\":%d,\"x\":%ld", r, t, xc);
        prclocks("lo", lo);
        prclocks("hi", hi);
        prclocks("res", res);
        printf(",\"g\":[");
        uint32_t a = 0;
        bool first = true;
        while (a < MEMSZ) {
                if (m[a] == shadow[a]) {
                        a++;
                        continue;
                }
                uint32_t e = a + 1;
                while (e < MEMSZ && m[e] != shadow[e]) {
                        e++;
                }
                printf("%s[%u,", first ? "" : ",", a);
                prbytes(m + a, e - a);
                printf("]");
                first = false;
                a = e;
        }
        printf("]");
        if (nlate > 3) {
                printf(",\"late\":");
                pranswer(&lateans);
        }
        while (nlate > 0) {
                free(late[--nlate]);
        }
        printf("}\n");
}

static void
cmd_hostfd(char **w, int n)
{
        uint32_t fd = (uint32_t)atoi(w[1]);
        const char *k = w[2];
        int p[2] = {-1, -1};
        if (!strcmp(k, "pr") || !strcmp(k, "pw") || !strcmp(k, "pq")) {
                if (pipe(p)) {
                        die("pipe");
                }
                if (!strcmp(k, "pq") &&
                    fcntl(p[1], F_SETPIPE_SZ, 4096) != 4096) {
                        die("F_SETPIPE_SZ");
                }
                if (strcmp(k, "pr")) {
                        int t = p[0];
                        p[0] = p[1];
                        p[1] = t;
                }
        } else if (!strcmp(k, "ss")) {
                if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) {
                        die("socketpair");
                }
        } else if (!strcmp(k, "sl")) {
                struct sockaddr_un un;
                memset(&un, 0, sizeof(un));
                un.sun_family = AF_UNIX;
                snprintf(lname[fd], sizeof(lname[fd]), "../sock%u", fd);
                strcpy(un.sun_path, lname[fd]);
                p[0] = socket(AF_UNIX, SOCK_STREAM, 0);
                if (bind(p[0], (void *)&un, sizeof(un)) || listen(p[0], 8)) {
                        die("listen");
                }
        } else if (!strcmp(k, "ro")) {
                p[0] = open(w[3], O_RDONLY);
        } else if (!strcmp(k, "rw")) {
                p[0] = open(w[3], O_RDWR);
        } else if (!strcmp(k, "ap")) {
                p[0] = open(w[3], O_RDWR | O_APPEND);
        } else if (!strcmp(k, "nul")) {
                p[0] = open("/dev/null", O_RDWR);
        } else {
                die("bad kind");
        }
        if (p[0] == -1) {
                die("hostfd");
        }
        int ret = wasi_instance_add_hostfd(wasi, fd, p[0]);
        /* the instance has a descriptor of its own */
        close(p[0]);
        peer[fd] = p[1];
        if (p[1] != -1) {
                fcntl(p[1], F_SETFL, fcntl(p[1], F_GETFL, 0) | O_NONBLOCK);
        }
        printf("{\"r\":%d}\n", ret);
}

static void
tree(int dfd, const char *path, bool *first)
{
        DIR *d = fdopendir(dfd);
        struct dirent *de;
        if (d == NULL) {
                die("fdopendir");
        }
        while ((de = readdir(d)) != NULL) {
                if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) {
                        continue;
                }
                struct stat st;
                if (fstatat(dfd, de->d_name, &st, AT_SYMLINK_NOFOLLOW)) {
                        die("fstatat");
                }
                char sub[8192];
                snprintf(sub, sizeof(sub), "%s%s%s", path, *path ? "/" : "",
                         de->d_name);
                printf("%s{\"p\":", *first ? "" : ",");
                *first = false;
                prbytes((void *)sub, strlen(sub));
                uint8_t buf[65536];
                ssize_t n = 0;
                const char *k = "o";
                int fd = -1;
                if (S_ISREG(st.st_mode)) {
                        k = "f";
                        int f = openat(dfd, de->d_name, O_RDONLY | O_NOFOLLOW | O_NOATIME);
                        n = read(f, buf, sizeof(buf));
                        close(f);
                } else if (S_ISLNK(st.st_mode)) {
                        k = "l";
                        n = readlinkat(dfd, de->d_name, (char *)buf,
                                       sizeof(buf));
                } else if (S_ISDIR(st.st_mode)) {
                        k = "d";
                        fd = openat(dfd, de->d_name,
                                    O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
                        if (fd == -1) {
                                die("openat");
                        }
                }
                printf(",\"k\":\"%s\",\"n\":%ld,\"c\":", k,
                       (long)(S_ISDIR(st.st_mode) ? 0 : st.st_size));
                prbytes(buf, n > 0 ? (size_t)n : 0);
                printf("}");
                if (fd != -1) {
                        tree(fd, sub, first);
                }
        }
        closedir(d);
}

static int
split(char *l, char **w)
{
        int n = 0;
        char *p = strtok(l, " \n");
        while (p != NULL && n < MAXW) {
                w[n++] = p;
                p = strtok(NULL, " \n");
        }
        return n;
}

int
main(int argc, char **argv)
{
        if (argc != 4) {
                die("usage");
        }
        char *module = realpath(argv[1], NULL);
        uid_t uid = (uid_t)atoi(argv[2]);
        int mfd = open(module, O_RDONLY);
        char mpath[64];
        snprintf(mpath, sizeof(mpath), "/proc/self/fd/%d", mfd);
        if (mfd == -1 || chdir(argv[3])) {
                die("start");
        }
        if (getuid() == 0) {
                if (setgroups(0, NULL) || setgid(uid) || setuid(uid) ||
                    setuid(0) == 0) {
                        die("setuid");
                }
                /* for the leak checker */
                prctl(PR_SET_DUMPABLE, 1);
        }
        umask(022);
        signal(SIGPIPE, SIG_IGN);
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit rl = {1 << 20, 1 << 20};
        setrlimit(RLIMIT_FSIZE, &rl);
        int i;
        for (i = 0; i < 64; i++) {
                peer[i] = -1;
        }
        setvbuf(stdout, NULL, _IOFBF, 1 << 20);
        mem_context_init(&mctx);
        if (wasi_instance_create(&mctx, &wasi)) {
                die("wasi_instance_create");
        }
        char *line = NULL;
        size_t cap = 0;
        static char *w[MAXW];
        while (getline(&line, &cap, stdin) > 0) {
                int n = split(line, w);
                if (n == 0) {
                        continue;
                }
                size_t l;
                switch (w[0][0]) {
                case 'A':
                case 'V': {
                        int k = w[0][0] == 'V';
                        for (i = 1; i < n; i++) {
                                strs[k][nstrs[k]++] = (char *)unhex(w[i], &l);
                        }
                        if (k) {
                                wasi_instance_set_environ(
                                        wasi, nstrs[1],
                                        (const char *const *)strs[1]);
                        } else {
                                wasi_instance_set_args(
                                        wasi, nstrs[0],
                                        (const char *const *)strs[0]);
                        }
                        printf("{}\n");
                        break;
                }
                case 'P': {
                        char *s = (char *)unhex(w[1], &l);
                        printf("{\"r\":%d}\n",
                               wasi_instance_prestat_add(wasi, s));
                        free(s);
                        break;
                }
                case 'H':
                        cmd_hostfd(w, n);
                        break;
                case 'I':
                        cmd_inst(mpath);
                        break;
                case 'C':
                        cmd_call(w, n);
                        break;
                case 'O':
                        cmd_peer(w);
                        break;
                case 'L':
                        for (nlate = 0; nlate < n && nlate < 8; nlate++) {
                                late[nlate] = strdup(w[nlate]);
                        }
                        printf("{}\n");
                        break;
                case 'T': {
                        bool first = true;
                        int fd = open(w[1], O_RDONLY | O_DIRECTORY);
                        if (fd == -1) {
                                die("tree");
                        }
                        printf("{\"tree\":[");
                        tree(fd, "", &first);
                        printf("]}\n");
                        break;
                }
                case 'E': {
                        if (inst != NULL) {
                                instance_destroy(inst);
                        }
                        if (imp != NULL) {
                                import_object_destroy(&mctx, imp);
                        }
                        wasi_instance_destroy(wasi);
                        if (mod != NULL) {
                                module_destroy(&mctx, mod);
                        }
                        /* descriptors that are still open */
                        int k = 0, f;
                        for (i = 0; i < 64; i++) {
                                if (peer[i] != -1) {
                                        close(peer[i]);
                                }
                        }
                        for (f = 3; f < 256; f++) {
                                if (f != mfd && fcntl(f, F_GETFD) != -1) {
                                        k++;
                                }
                        }
                        printf("{\"open\":%d,\"mem\":%zu}\n", k,
                               mctx.allocated);
                        fflush(stdout);
                        mem_context_clear(&mctx);
                        for (i = 0; i < nstrs[0]; i++) {
                                free(strs[0][i]);
                        }
                        for (i = 0; i < nstrs[1]; i++) {
                                free(strs[1][i]);
                        }
                        free(line);
                        free(module);
                        return 0;
                }
                default:
                        die("bad command");
                }
                fflush(stdout);
        }
        die("no end");
}
