/*
 * twdrv: scenario driver.
 *
 * Reads a job script (one command per line), performs the commands on
 * libtoywasm through its public API and writes one JSON event per visible
 * step.  It contains no expectations: events are judged by the TLA+
 * specification.
 *
 * usage: twdrv SCRIPT [START_JOB]     (events on fd $TWDRV_FD, else stdout)
 */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <toywasm/toywasm_config.h>

#include <toywasm/cconv.h>
#include <toywasm/cell.h>
#include <toywasm/exec_context.h>
#include <toywasm/fileio.h>
#include <toywasm/host_instance.h>
#include <toywasm/instance.h>
#include <toywasm/load_context.h>
#include <toywasm/mem.h>
#include <toywasm/module.h>
#include <toywasm/module_writer.h>
#include <toywasm/report.h>
#include <toywasm/restart.h>
#include <toywasm/type.h>
#include <toywasm/xlog.h>

#if defined(TWDRV_WASI)
#include <toywasm/wasi.h>
#endif

#define MAXMOD 64
#define MAXINST 64
#define MAXHOST 64
#define MAXIM 512

static FILE *out;

struct hostfn {
        struct host_instance hi; /* must be the first */
        int id;
        char name[64];
        char kind[16];
        char sig[128];
        struct functype ft;
        struct funcinst fi;
        struct host_func hf;
        struct host_module hm;
        struct name nm;
        struct import_object *im;
};

struct inst {
        struct instance *inst;
        int mod;
        bool ok;
};

static struct job {
        int id;
        struct load_options lopts;
        bool lopts_set[3];
        bool lopts_val[3];
        uint32_t max_frames, max_cells;
        bool has_mf, has_mc;
        size_t memlimit;
        bool has_ml;
        bool hostfail;
        size_t instlimit;
        bool has_il;
        int intr; /* -1: none. n: user interrupt every n+1 checks */
        int wholeapi;
        struct mem_context root, mmctx, imctx;
        struct module *mods[MAXMOD];
        uint8_t *bufs[MAXMOD];
        size_t buflen[MAXMOD];
        struct inst insts[MAXINST];
        int ninst;
        struct hostfn *hosts[MAXHOST];
        int nhost;
        struct import_object *ims[MAXIM];
        int nims;
        struct name *imnames[MAXIM];
        int nimnames;
        uint32_t hostcnt;
        bool intr_pending;
        unsigned long nintr;
} J;

static atomic_uint g_intr;

/* ---- allocation failure injection (see --wrap in the build) ---- */
static long g_fail_at = -1;
static long g_alloc_count;
static bool g_alloc_armed;
#if defined(TWDRV_WRAP)
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
static bool
inject(void)
{
        if (!g_alloc_armed) {
                return false;
        }
        return g_alloc_count++ == g_fail_at;
}
void *
__wrap_malloc(size_t n)
{
        if (inject()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_malloc(n);
}
void *
__wrap_calloc(size_t a, size_t b)
{
        if (inject()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_calloc(a, b);
}
void *
__wrap_realloc(void *p, size_t n)
{
        if (inject()) {
                errno = ENOMEM;
                return NULL;
        }
        return __real_realloc(p, n);
}
#endif
#define ARM() (g_alloc_armed = true)
#define DISARM() (g_alloc_armed = false)

static void
die(const char *fmt, ...)
{
        va_list ap;
        va_start(ap, fmt);
        fprintf(stderr, "twdrv: ");
        vfprintf(stderr, fmt, ap);
        fprintf(stderr, "\n");
        va_end(ap);
        fflush(out);
        _exit(77);
}

static void *
xcalloc(size_t a, size_t b)
{
        bool s = g_alloc_armed;
        DISARM();
        void *p = calloc(a, b == 0 ? 1 : b);
        if (p == NULL) {
                die("oom");
        }
        g_alloc_armed = s;
        return p;
}

static int
hexv(int c)
{
        if (c >= '0' && c <= '9') {
                return c - '0';
        }
        if (c >= 'a' && c <= 'f') {
                return c - 'a' + 10;
        }
        die("bad hex %c", c);
        return 0;
}

static uint8_t *
unhex(const char *s, size_t *lenp)
{
        size_t n = strlen(s);
        if (n % 2) {
                die("odd hex");
        }
        uint8_t *p = xcalloc(n / 2 + 1, 1);
        size_t i;
        for (i = 0; i < n / 2; i++) {
                p[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
        }
        *lenp = n / 2;
        return p;
}

/* ---- events ---- */
static void
ev_begin(const char *e)
{
        fprintf(out, "{\"e\":\"%s\"", e);
}
static void
ev_end(void)
{
        fprintf(out, "}\n");
        fflush(out);
}

static int
vt_size(enum valtype t)
{
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                return 4;
        case TYPE_i64:
        case TYPE_f64:
                return 8;
        case TYPE_v128:
                return 16;
        default:
                return -1;
        }
}

static void
find_func(const struct funcinst *fi, int *ki, int *ii)
{
        int i;
        uint32_t j;
        for (i = 0; i < J.ninst; i++) {
                struct instance *inst = J.insts[i].inst;
                if (inst == NULL) {
                        continue;
                }
                uint32_t n =
                        inst->module->nimportedfuncs + inst->module->nfuncs;
                for (j = 0; j < n; j++) {
                        if (VEC_ELEM(inst->funcs, j) == fi) {
                                *ki = i;
                                *ii = (int)j;
                                return;
                        }
                }
        }
        for (i = 0; i < J.nhost; i++) {
                struct hostfn *h = J.hosts[i];
                const struct funcinst *hfi =
                        h->im != NULL ? h->im->entries[0].u.func : &h->fi;
                if (hfi == fi) {
                        *ki = 1000;
                        *ii = i;
                        return;
                }
        }
        *ki = 9999;
        *ii = 9999;
}

static void
pr_bytes(const uint8_t *p, size_t n)
{
        size_t i;
        fprintf(out, "[");
        for (i = 0; i < n; i++) {
                fprintf(out, i ? ",%u" : "%u", p[i]);
        }
        fprintf(out, "]");
}

static void
pr_val(enum valtype t, const struct val *v)
{
        fprintf(out, "[%u,", (unsigned)t);
        int n = vt_size(t);
        if (n > 0) {
                pr_bytes((const uint8_t *)&v->u, n);
        } else if (t == TYPE_funcref) {
                if (v->u.funcref.func == NULL) {
                        fprintf(out, "[]");
                } else {
                        int k, i;
                        find_func(v->u.funcref.func, &k, &i);
                        fprintf(out, "[%d,%d]", k, i);
                }
        } else if (t == TYPE_externref) {
                if (v->u.externref == NULL) {
                        fprintf(out, "[]");
                } else {
                        pr_bytes((const uint8_t *)&v->u.externref, 8);
                }
#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
        } else if (t == TYPE_exnref) {
                fprintf(out, v->u.exnref.tag == NULL ? "[]" : "[1]");
#endif
        } else {
                fprintf(out, "[9999,9999,9999]");
        }
        fprintf(out, "]");
}

static void
pr_vals(const struct resulttype *rt, const struct val *v)
{
        uint32_t i;
        fprintf(out, "[");
        for (i = 0; i < rt->ntypes; i++) {
                if (i) {
                        fprintf(out, ",");
                }
                pr_val(rt->types[i], &v[i]);
        }
        fprintf(out, "]");
}

/* "7f:01000000" "70:null" "70:0.3" "6f:null" "6f:0102030405060708" */
static void
parse_val(const char *s, enum valtype *tp, struct val *v)
{
        unsigned t = hexv(s[0]) * 16 + hexv(s[1]);
        memset(v, 0, sizeof(*v));
        *tp = (enum valtype)t;
        s += 3;
        int n = vt_size(*tp);
        if (n > 0) {
                size_t l;
                uint8_t *b = unhex(s, &l);
                if ((int)l != n) {
                        die("bad value size");
                }
                memcpy(&v->u, b, n);
                free(b);
        } else if (!strcmp(s, "null")) {
        } else if (*tp == TYPE_funcref) {
                int k, i;
                if (sscanf(s, "%d.%d", &k, &i) != 2) {
                        die("bad funcref");
                }
                v->u.funcref.func = VEC_ELEM(J.insts[k].inst->funcs, i);
        } else if (*tp == TYPE_externref) {
                size_t l;
                uint8_t *b = unhex(s, &l);
                memcpy(&v->u.externref, b, 8);
                free(b);
        } else {
                die("bad value");
        }
}

/* ---- host functions ---- */
static void
host_results(const struct functype *ft, struct cell *results, uint32_t cnt)
{
        uint32_t i;
        struct val v[32];
        memset(v, 0, sizeof(v));
        for (i = 0; i < ft->result.ntypes; i++) {
                int n = vt_size(ft->result.types[i]);
                int j;
                uint8_t b[16];
                for (j = 0; j < 16; j++) {
                        b[j] = (uint8_t)(7 * cnt + 31 * i + 13 * j + 5);
                }
                if (n > 0) {
                        memcpy(&v[i].u, b, n);
                } else if (ft->result.types[i] == TYPE_externref) {
                        b[0] |= 1;
                        memcpy(&v[i].u.externref, b, 8);
                }
        }
        vals_to_cells(v, results, &ft->result);
}

static void
host_event(struct hostfn *h, const struct functype *ft, const struct val *v)
{
        bool s = g_alloc_armed;
        DISARM();
        ev_begin("host");
        fprintf(out, ",\"f\":%d,\"v\":", h->id);
        pr_vals(&ft->parameter, v);
        ev_end();
        g_alloc_armed = s;
}

/*
 * callback kinds.  the callee is table element params[0] of the function
 * table of the host instance.
 *   cb:   callee (rest)->(results), called once
 *         (without parameters, the callee is element 0)
 *   cbn:  (idx, n, x) -> x ; callee (i)i called n times on the running value
 *   tcb:  tail call to the callee which has exactly our type
 */
static int
generic_host(struct exec_context *ctx, struct host_instance *hi,
             const struct functype *ft, const struct cell *params,
             struct cell *results)
{
        struct hostfn *h = (struct hostfn *)hi;
        struct val v[32];
        int ret;
        vals_from_cells(v, params, &ft->parameter);
        if (!strcmp(h->kind, "chk")) {
                /* like a host function that blocks: may be interrupted */
                ret = check_interrupt(ctx);
                if (ret != 0) {
                        return ret;
                }
        }
        if (!strcmp(h->kind, "log") || !strcmp(h->kind, "chk")) {
                host_event(h, ft, v);
                host_results(ft, results, J.hostcnt);
                J.hostcnt = (J.hostcnt + 1) % 256;
                return 0;
        }
        if (!strcmp(h->kind, "trap")) {
                host_event(h, ft, v);
                return host_func_trap(ctx, "host trap");
        }
        if (!strcmp(h->kind, "err")) {
                host_event(h, ft, v);
                return EIO;
        }
        if (!strcmp(h->kind, "intr")) {
                host_event(h, ft, v);
                host_results(ft, results, J.hostcnt);
                J.hostcnt = (J.hostcnt + 1) % 256;
                atomic_store(&g_intr, 1);
                J.intr_pending = true;
                return 0;
        }
        if (!strcmp(h->kind, "tcb")) {
                const struct funcinst *func;
                ret = cconv_deref_func_ptr(ctx, host_func_func_table(hi),
                                           v[0].u.i32, ft, &func);
                if (ret != 0) {
                        return ret;
                }
                host_event(h, ft, v);
                ctx->event_u.call.func = func;
                ctx->event = EXEC_EVENT_CALL;
                return ETOYWASMRESTART;
        }
        if (!strcmp(h->kind, "copyin")) {
                /* (ptr, len, align) -> sum of bytes */
                uint32_t len = v[1].u.i32;
                uint8_t *buf = xcalloc(1, len > 65536 ? 65536 : len);
                if (len > 65536) {
                        /* the range check comes first in copyin */
                        void *p;
                        ret = host_func_check_align(ctx, v[0].u.i32,
                                                    v[2].u.i32);
                        if (ret == 0) {
                                ret = host_func_getptr(ctx,
                                                       host_func_memory(hi),
                                                       v[0].u.i32, len, &p);
                        }
                        free(buf);
                        if (ret == 0) {
                                ev_begin("copyin");
                                fprintf(out, ",\"b\":[]");
                                ev_end();
                                host_results(ft, results, 0);
                        }
                        return ret;
                }
                ret = host_func_copyin(ctx, host_func_memory(hi), buf,
                                       v[0].u.i32, len, v[2].u.i32);
                if (ret == 0) {
                        bool s = g_alloc_armed;
                        DISARM();
                        ev_begin("copyin");
                        fprintf(out, ",\"b\":");
                        pr_bytes(buf, len);
                        ev_end();
                        g_alloc_armed = s;
                        host_results(ft, results, 0);
                }
                free(buf);
                return ret;
        }
        if (!strcmp(h->kind, "copyout")) {
                /* (ptr, len, align): writes bytes 1,2,3.. (mod 251) */
                uint32_t len = v[1].u.i32;
                uint32_t i;
                if (len > 65536) {
                        len = 65536;
                }
                uint8_t *buf = xcalloc(1, len);
                for (i = 0; i < len; i++) {
                        buf[i] = (uint8_t)((i + 1) % 251);
                }
                ret = host_func_copyout(ctx, host_func_memory(hi), buf,
                                        v[0].u.i32, len, v[2].u.i32);
                free(buf);
                if (ret == 0) {
                        ev_begin("copyout");
                        ev_end();
                        host_results(ft, results, 0);
                }
                return ret;
        }
        if (!strcmp(h->kind, "cb") || !strcmp(h->kind, "cbn")) {
                bool isn = !strcmp(h->kind, "cbn");
                bool noparam = ft->parameter.ntypes == 0;
                struct restart_hostfunc *hf;
                struct functype cft;
                enum valtype ti = TYPE_i32;
                memset(&cft, 0, sizeof(cft));
                if (isn) {
                        cft.parameter.types = &ti;
                        cft.parameter.ntypes = 1;
                        cft.result.types = &ti;
                        cft.result.ntypes = 1;
                } else {
                        if (!noparam) {
                                cft.parameter.types = ft->parameter.types + 1;
                                cft.parameter.ntypes =
                                        ft->parameter.ntypes - 1;
                        }
                        cft.result = ft->result;
                }
                cft.parameter.is_static = cft.result.is_static = true;
                struct val r[32];
                uint32_t step = 0;
                uint32_t x = isn ? v[2].u.i32 : 0;
                ret = restart_info_prealloc(ctx);
                if (ret != 0) {
                        return ret;
                }
                struct restart_info *restart = &VEC_NEXTELEM(ctx->restarts);
                if (restart->restart_type != RESTART_NONE) {
                        if (restart->restart_type != RESTART_HOSTFUNC) {
                                die("unexpected restart type");
                        }
                        hf = &restart->restart_u.hostfunc;
                        step = hf->user1;
                        uint32_t adj = hf->stack_adj;
                        restart_info_clear(ctx);
                        ctx->stack.lsize += adj;
                        exec_pop_vals(ctx, &cft.result, r);
                        if (isn) {
                                x = r[0].u.i32;
                        }
                } else {
                        host_event(h, ft, v);
                }
                uint32_t n = isn ? v[1].u.i32 : 1;
                if (step < n) {
                        const struct funcinst *func;
                        ret = cconv_deref_func_ptr(ctx,
                                                   host_func_func_table(hi),
                                                   noparam ? 0 : v[0].u.i32,
                                                   &cft, &func);
                        if (ret != 0) {
                                return ret;
                        }
                        struct val a[1];
                        memset(a, 0, sizeof(a));
                        a[0].u.i32 = x;
                        ret = exec_push_vals(ctx, &cft.parameter,
                                             isn ? a : v + 1);
                        if (ret != 0) {
                                return ret;
                        }
                        ret = schedule_call_from_hostfunc(ctx, restart, func);
                        hf = &restart->restart_u.hostfunc;
                        hf->user1 = step + 1;
                        hf->user2 = x;
                        return ret;
                }
                if (isn) {
                        r[0].u.i32 = x;
                        vals_to_cells(r, results, &ft->result);
                } else {
                        vals_to_cells(r, results, &ft->result);
                }
                return 0;
        }
        die("unknown host kind %s", h->kind);
        return 0;
}

static enum valtype
type_of_char(char c)
{
        switch (c) {
        case 'i':
                return TYPE_i32;
        case 'I':
                return TYPE_i64;
        case 'f':
                return TYPE_f32;
        case 'F':
                return TYPE_f64;
        case 'v':
                return TYPE_v128;
        case 'c':
                return TYPE_funcref;
        case 'e':
                return TYPE_externref;
        case 'x':
                return TYPE_exnref;
        }
        die("bad type char %c", c);
        return 0;
}

static void
noop_dtor(struct mem_context *mctx, struct import_object *im)
{
}

/* H name kind sig */
static void
cmd_host(char **a, int n)
{
        struct hostfn *h = xcalloc(1, sizeof(*h));
        h->id = J.nhost;
        snprintf(h->name, sizeof(h->name), "%s", a[1]);
        snprintf(h->kind, sizeof(h->kind), "%s", a[2]);
        snprintf(h->sig, sizeof(h->sig), "%s", a[3]);
        J.hosts[J.nhost++] = h;
        static const struct name mn = NAME_FROM_CSTR_LITERAL("host");
        h->nm.data = h->name;
        h->nm.nbytes = (uint32_t)strlen(h->name);
        int ret;
        if (strpbrk(h->sig, "vcex") == NULL) {
                h->hf.name = h->nm;
                h->hf.type = h->sig;
                h->hf.func = generic_host;
                h->hm.module_name = &mn;
                h->hm.funcs = &h->hf;
                h->hm.nfuncs = 1;
                ARM();
                ret = import_object_create_for_host_funcs(
                        &J.imctx, &h->hm, 1, &h->hi, &h->im);
                DISARM();
                if (ret == ENOMEM) {
                        J.hostfail = true;
                        return;
                }
                if (ret != 0) {
                        die("import_object_create_for_host_funcs %d", ret);
                }
        } else {
                const char *p = h->sig + 1;
                const char *q = strchr(p, ')');
                uint32_t i;
                h->ft.parameter.ntypes = (uint32_t)(q - p);
                h->ft.parameter.types =
                        xcalloc(q - p + 1, sizeof(enum valtype));
                for (i = 0; i < h->ft.parameter.ntypes; i++) {
                        h->ft.parameter.types[i] = type_of_char(p[i]);
                }
                q++;
                h->ft.result.ntypes = (uint32_t)strlen(q);
                h->ft.result.types =
                        xcalloc(strlen(q) + 1, sizeof(enum valtype));
                for (i = 0; i < h->ft.result.ntypes; i++) {
                        h->ft.result.types[i] = type_of_char(q[i]);
                }
                h->ft.parameter.is_static = h->ft.result.is_static = true;
                h->fi.is_host = true;
                h->fi.u.host.func = generic_host;
                h->fi.u.host.type = &h->ft;
                h->fi.u.host.instance = &h->hi;
                ARM();
                ret = import_object_alloc(&J.imctx, 1, &h->im);
                DISARM();
                if (ret == ENOMEM) {
                        J.hostfail = true;
                        return;
                }
                if (ret != 0) {
                        die("import_object_alloc");
                }
                h->im->dtor = noop_dtor;
                h->im->entries[0].module_name = &mn;
                h->im->entries[0].name = &h->nm;
                h->im->entries[0].type = EXTERNTYPE_FUNC;
                h->im->entries[0].u.func = &h->fi;
        }
        J.ims[J.nims++] = h->im;
}

/* ---- modules ---- */
static void
load_bytes(int idx, uint8_t *buf, size_t len)
{
        struct load_context lctx;
        int ret;
        /* exact size allocation so that ASan sees over-reads */
        J.bufs[idx] = buf;
        J.buflen[idx] = len;
        ARM();
        load_context_init(&lctx, &J.mmctx);
        if (J.lopts_set[0]) {
                lctx.options.generate_jump_table = J.lopts_val[0];
        }
#if defined(TOYWASM_USE_RESULTTYPE_CELLIDX)
        if (J.lopts_set[1]) {
                lctx.options.generate_resulttype_cellidx = J.lopts_val[1];
        }
#endif
#if defined(TOYWASM_USE_LOCALTYPE_CELLIDX)
        if (J.lopts_set[2]) {
                lctx.options.generate_localtype_cellidx = J.lopts_val[2];
        }
#endif
        struct module *m = NULL;
        ret = module_create(&m, buf, buf + len, &lctx);
        DISARM();
        if (ret == 0) {
                J.mods[idx] = m;
        }
        const char *msg = report_getmessage(&lctx.report);
        ev_begin("load");
        fprintf(out, ",\"ok\":%d,\"n\":%d", ret == 0, ret);
        if (ret != 0 && msg != NULL) {
                fprintf(out, ",\"m\":\"");
                for (; *msg; msg++) {
                        if (*msg >= ' ' && *msg < 0x7f && *msg != '"' &&
                            *msg != '\\') {
                                fputc(*msg, out);
                        }
                }
                fprintf(out, "\"");
        }
        ev_end();
        load_context_clear(&lctx);
}

static void
cmd_mod(char **a, int n)
{
        int idx = atoi(a[1]);
        size_t len;
        uint8_t *p = unhex(n > 2 ? a[2] : "", &len);
        uint8_t *q = xcalloc(1, len);
        memcpy(q, p, len);
        free(p);
        load_bytes(idx, q, len);
}

#if defined(TOYWASM_ENABLE_WRITER)
/* W from to: write out the module and load the result as another one */
static void
cmd_write(char **a, int n)
{
        int from = atoi(a[1]);
        int to = atoi(a[2]);
        char fn[] = "twdrv-out-XXXXXX";
        int fd = mkstemp(fn);
        if (fd < 0) {
                die("mkstemp");
        }
        close(fd);
        if (J.mods[from] == NULL) {
                die("write of unloaded module");
        }
        ARM();
        int ret = module_write(fn, J.mods[from]);
        DISARM();
        ev_begin("write");
        fprintf(out, ",\"ok\":%d,\"n\":%d", ret == 0, ret);
        if (ret == 0) {
                FILE *fp = fopen(fn, "rb");
                fseek(fp, 0, SEEK_END);
                size_t len = ftell(fp);
                rewind(fp);
                uint8_t *q = xcalloc(1, len);
                if (len > 0 && fread(q, len, 1, fp) != 1) {
                        die("fread");
                }
                fclose(fp);
                unlink(fn);
                fprintf(out, ",\"b\":");
                pr_bytes(q, len);
                ev_end();
                load_bytes(to, q, len);
        } else {
                ev_end();
                unlink(fn);
        }
}
#endif

static void
setup_ctx(struct exec_context *ctx)
{
        if (J.has_mf) {
                ctx->options.max_frames = J.max_frames;
        }
        if (J.has_mc) {
                ctx->options.max_stackcells = J.max_cells;
        }
        J.intr_pending = false;
        if (J.intr >= 0) {
                atomic_store(&g_intr, 1);
                ctx->user_intr_delay = J.intr;
                ctx->check_interval = 1;
        } else {
                atomic_store(&g_intr, 0);
        }
        ctx->intrp = &g_intr;
}

/* returns the final result; *abandoned if given up after `limit` interrupts */
static int
run_to_end(struct exec_context *ctx, int ret, long limit, bool *abandoned)
{
        long nint = 0;
        *abandoned = false;
        while (IS_RESTARTABLE(ret)) {
                if (ret == ETOYWASMUSERINTERRUPT) {
                        J.nintr++;
                        if (limit >= 0 && nint++ >= limit) {
                                *abandoned = true;
                                break;
                        }
                        if (J.intr >= 0) {
                                ctx->check_interval = 1;
                        } else {
                                atomic_store(&g_intr, 0);
                        }
                }
                if (J.wholeapi) {
                        ret = instance_execute_continue(ctx);
                } else {
                        ret = instance_execute_handle_restart_once(ctx, ret);
                }
        }
        return ret;
}

static void
ev_outcome(const char *name, int ret, struct exec_context *ctx)
{
        ev_begin(name);
        if (ret == 0) {
                fprintf(out, ",\"r\":\"ok\"");
        } else if (ret == ETOYWASMTRAP) {
                fprintf(out, ",\"r\":\"trap\",\"t\":%d",
                        (int)ctx->trap.trapid);
        } else {
                fprintf(out, ",\"r\":\"err\",\"t\":%d", ret);
        }
}

static bool
imports_exist(char **a, int n)
{
        int i;
        for (i = 3; i < n; i++) {
                char *eq = strchr(a[i], '=');
                if (eq != NULL && J.insts[atoi(eq + 1)].inst == NULL) {
                        return false;
                }
        }
        return true;
}

/* I instidx modidx [importspec...]   importspec: name=instidx | host | sat */
static void
cmd_inst(char **a, int n)
{
        int idx = atoi(a[1]);
        int mod = atoi(a[2]);
        int i;
        int ret;
        struct import_object *head = NULL;
        struct import_object **tail = &head;
        bool imfail = false;
        if (J.mods[mod] == NULL) {
                die("instantiation of unloaded module");
        }
        struct import_object *unlinked[MAXIM];
        int nun = 0;
        if (idx >= J.ninst) {
                J.ninst = idx + 1;
        }
        J.insts[idx].mod = mod;
        for (i = 3; i < n; i++) {
                struct import_object *im = NULL;
                if (!strcmp(a[i], "host")) {
                        int k;
                        if (J.hostfail) {
                                imfail = true;
                                continue;
                        }
                        for (k = 0; k < J.nhost; k++) {
                                *tail = J.hosts[k]->im;
                                unlinked[nun++] = *tail;
                                tail = &(*tail)->next;
                        }
                        continue;
                }
                char *eq = strchr(a[i], '=');
                if (eq == NULL) {
                        die("bad import spec");
                }
                *eq = 0;
                size_t l;
                uint8_t *nm = unhex(a[i], &l);
                struct name *name = xcalloc(1, sizeof(*name));
                name->data = (char *)nm;
                name->nbytes = (uint32_t)l;
                J.imnames[J.nimnames++] = name;
                int src = atoi(eq + 1);
                ARM();
                ret = import_object_create_for_exports(
                        &J.imctx, J.insts[src].inst, name, &im);
                DISARM();
                if (ret == ENOMEM) {
                        imfail = true;
                        continue;
                }
                if (ret != 0) {
                        die("import_object_create_for_exports %d", ret);
                }
                J.ims[J.nims++] = im;
                unlinked[nun++] = im;
                *tail = im;
                tail = &im->next;
        }
        *tail = NULL;
        struct report report;
        report_init(&report);
        struct instance *inst = NULL;
        if (imfail) {
                ret = ENOMEM;
        } else {
                ARM();
                ret = instance_create_no_init(&J.imctx, J.mods[mod], &inst,
                                              head, &report);
                DISARM();
        }
        ev_begin("link");
        fprintf(out, ",\"ok\":%d,\"n\":%d", ret == 0, ret);
        ev_end();
        report_clear(&report);
        for (i = 0; i < nun; i++) {
                unlinked[i]->next = NULL;
        }
        if (ret != 0) {
                return;
        }
        J.insts[idx].inst = inst;
        /* host instances see the memory and table of the latest instance */
        for (i = 0; i < J.nhost; i++) {
                struct host_instance *hi = &J.hosts[i]->hi;
                hi->memory = cconv_memory(inst);
                hi->func_table = cconv_func_table(inst);
        }
        struct exec_context ctx;
        exec_context_init(&ctx, inst, &J.imctx);
        setup_ctx(&ctx);
        bool ab;
        ARM();
        ret = instance_execute_init(&ctx);
        ret = run_to_end(&ctx, ret, -1, &ab);
        DISARM();
        J.insts[idx].ok = ret == 0;
        ev_outcome("init", ret, &ctx);
        ev_end();
        exec_context_clear(&ctx);
}

/* C instidx funcspec args...   funcspec: export name in hex, or #idx
 * with the prefix "~n " as command X: abandon after n interrupts */
static void
cmd_call(char **a, int n, long abandon)
{
        struct inst *in = &J.insts[atoi(a[1])];
        if (in->inst == NULL) {
                die("call of missing instance");
        }
        uint32_t fidx;
        int ret;
        int i;
        const struct module *m = in->inst->module;
        if (a[2][0] == '#') {
                fidx = (uint32_t)atoi(a[2] + 1);
        } else {
                size_t l;
                uint8_t *nm = unhex(a[2], &l);
                struct name name = {.nbytes = (uint32_t)l, .data = (char *)nm};
                ret = module_find_export(m, &name, EXTERNTYPE_FUNC, &fidx);
                free(nm);
                if (ret != 0) {
                        ev_begin("ret");
                        fprintf(out, ",\"r\":\"nofunc\",\"v\":[]");
                        ev_end();
                        return;
                }
        }
        const struct functype *ft = module_functype(m, fidx);
        struct val args[64];
        struct val res[64];
        enum valtype at[64];
        memset(res, 0, sizeof(res));
        for (i = 3; i < n; i++) {
                parse_val(a[i], &at[i - 3], &args[i - 3]);
        }
        struct resulttype art;
        memset(&art, 0, sizeof(art));
        art.types = at;
        art.ntypes = (uint32_t)(n - 3);
        art.is_static = true;
        if (compare_resulttype(&art, &ft->parameter)) {
                die("argument type mismatch in call");
        }
        struct exec_context ctx;
        exec_context_init(&ctx, in->inst, &J.imctx);
        setup_ctx(&ctx);
        bool ab = false;
        ARM();
        ret = exec_push_vals(&ctx, &ft->parameter, args);
        if (ret == 0) {
                ret = instance_execute_func(&ctx, fidx, &ft->parameter,
                                            &ft->result);
                ret = run_to_end(&ctx, ret, abandon, &ab);
        }
        DISARM();
        if (ab) {
                ev_begin("abandon");
                ev_end();
        } else {
                if (ret == 0) {
                        exec_pop_vals(&ctx, &ft->result, res);
                        ev_begin("ret");
                        fprintf(out, ",\"r\":\"ok\",\"v\":");
                        pr_vals(&ft->result, res);
                        if (ctx.stack.lsize != 0) {
                                fprintf(out, ",\"left\":%u",
                                        (unsigned)ctx.stack.lsize);
                        }
                } else {
                        ev_outcome("ret", ret, &ctx);
                        fprintf(out, ",\"v\":[]");
                }
                ev_end();
        }
        exec_context_clear(&ctx);
}

static void
cmd_mem(char **a, int n)
{
        struct inst *in = &J.insts[atoi(a[1])];
        uint32_t mi = (uint32_t)atoi(a[2]);
        struct meminst *m = VEC_ELEM(in->inst->mems, mi);
        uint64_t pages = m->size_in_pages;
        uint64_t size = pages << memtype_page_shift(m->type);
        ev_begin("mem");
        fprintf(out, ",\"p\":[%u,%u,%u,%u],\"nz\":[", (unsigned)(pages & 255),
                (unsigned)((pages >> 8) & 255),
                (unsigned)((pages >> 16) & 255), (unsigned)(pages >> 24));
        /* non-zero bytes of the first 8 MB: [offset, byte] */
        uint64_t off;
        bool first = true;
        uint64_t lim = size < (8 << 20) ? size : (8 << 20);
        for (off = 0; off < lim;) {
                uint32_t chunk = lim - off > 4096 ? 4096 : (uint32_t)(lim - off);
                void *p;
                int ret = memory_instance_getptr2(m, (uint32_t)off, 0, chunk,
                                                  &p, NULL);
                if (ret != 0) {
                        fprintf(out, "%s[-1,%d]", first ? "" : ",", ret);
                        break;
                }
                const uint8_t *b = p;
                uint32_t i;
                for (i = 0; i < chunk; i++) {
                        if (b[i] != 0) {
                                fprintf(out, "%s[%u,%u]", first ? "" : ",",
                                        (unsigned)(off + i), b[i]);
                                first = false;
                        }
                }
                off += chunk;
        }
        fprintf(out, "]");
        ev_end();
}

static void
cmd_glob(char **a, int n)
{
        struct inst *in = &J.insts[atoi(a[1])];
        struct globalinst *g = VEC_ELEM(in->inst->globals, atoi(a[2]));
        struct val v;
        global_get(g, &v);
        ev_begin("glob");
        fprintf(out, ",\"v\":[");
        pr_val(g->type->t, &v);
        fprintf(out, "]");
        ev_end();
}

static void
cmd_tab(char **a, int n)
{
        struct inst *in = &J.insts[atoi(a[1])];
        struct tableinst *t = VEC_ELEM(in->inst->tables, atoi(a[2]));
        uint32_t i;
        ev_begin("tab");
        fprintf(out, ",\"n\":[%u,%u,%u,%u],\"v\":[", t->size & 255,
                (t->size >> 8) & 255, (t->size >> 16) & 255, t->size >> 24);
        for (i = 0; i < t->size && i < 256; i++) {
                struct val v;
                memset(&v, 0, sizeof(v));
                table_get(t, i, &v);
                if (i) {
                        fprintf(out, ",");
                }
                pr_val(t->type->et, &v);
        }
        fprintf(out, "]");
        ev_end();
}

/* J id k=v ... */
static void
job_begin(char **a, int n)
{
        int i;
        memset(&J, 0, sizeof(J));
        J.id = atoi(a[1]);
        J.intr = -1;
        g_fail_at = -1;
        g_alloc_count = 0;
        int tmo = 60;
        for (i = 2; i < n; i++) {
                char *eq = strchr(a[i], '=');
                if (eq == NULL) {
                        die("bad option");
                }
                *eq = 0;
                long v = strtol(eq + 1, NULL, 0);
                if (!strcmp(a[i], "jt")) {
                        J.lopts_set[0] = true;
                        J.lopts_val[0] = v;
                } else if (!strcmp(a[i], "rc")) {
                        J.lopts_set[1] = true;
                        J.lopts_val[1] = v;
                } else if (!strcmp(a[i], "lc")) {
                        J.lopts_set[2] = true;
                        J.lopts_val[2] = v;
                } else if (!strcmp(a[i], "mf")) {
                        J.has_mf = true;
                        J.max_frames = (uint32_t)v;
                } else if (!strcmp(a[i], "mc")) {
                        J.has_mc = true;
                        J.max_cells = (uint32_t)v;
                } else if (!strcmp(a[i], "ml")) {
                        J.has_ml = true;
                        J.memlimit = (size_t)v;
                } else if (!strcmp(a[i], "il")) {
                        J.has_il = true;
                        J.instlimit = (size_t)v;
                } else if (!strcmp(a[i], "intr")) {
                        J.intr = (int)v;
                } else if (!strcmp(a[i], "cont")) {
                        J.wholeapi = (int)v;
                } else if (!strcmp(a[i], "af")) {
                        g_fail_at = v;
                } else if (!strcmp(a[i], "tmo")) {
                        tmo = (int)v;
                } else {
                        die("unknown option %s", a[i]);
                }
        }
        mem_context_init(&J.root);
        mem_context_init(&J.mmctx);
        mem_context_init(&J.imctx);
        J.mmctx.parent = &J.root;
        J.imctx.parent = &J.root;
        if (J.has_ml) {
                int ret = mem_context_setlimit(&J.root, J.memlimit);
                if (ret != 0) {
                        die("setlimit");
                }
        }
        if (J.has_il) {
                int ret = mem_context_setlimit(&J.imctx, J.instlimit);
                if (ret != 0) {
                        die("setlimit");
                }
        }
        alarm(tmo);
        fprintf(out, "{\"e\":\"begin\",\"job\":%d}\n", J.id);
        fflush(out);
}

static int
clamp(size_t n)
{
        return n > 2000000000 ? 2000000000 : (int)n;
}

/*
 * "K": a tree of memory contexts, to be used by "Y" commands.
 *   K PARENT LIMIT ...      context i has parent PARENT (-1: none)
 *   Y a CTX SLOT SIZE       mem_alloc
 *   Y z CTX SLOT SIZE       mem_zalloc
 *   Y c CTX SLOT A B        mem_calloc
 *   Y e SLOT SIZE           mem_extend
 *   Y E SLOT SIZE           mem_extend_zero
 *   Y s SLOT SIZE           mem_shrink
 *   Y f SLOT                mem_free
 *   Y l CTX LIMIT           mem_context_setlimit
 */
#define MAXCTX 8
#define MAXSLOT 16
static struct {
        int n;
        struct mem_context c[MAXCTX];
        struct {
                int ctx;
                uint8_t *p;
                size_t sz;
        } slot[MAXSLOT];
} K;

static void
cmd_K(int n, char **a)
{
        int i;
        memset(&K, 0, sizeof(K));
        K.n = (n - 1) / 2;
        for (i = 0; i < K.n; i++) {
                mem_context_init(&K.c[i]);
                int par = atoi(a[1 + 2 * i]);
                if (par >= 0) {
                        K.c[i].parent = &K.c[par];
                }
                if (mem_context_setlimit(&K.c[i], atol(a[2 + 2 * i]))) {
                        die("setlimit");
                }
        }
}

/* contents: every byte of a slot is slot + 1, 0 in fresh zeroed parts */
static void
cmd_Y(int n, char **a)
{
        int ok = 0;
        int bad = 0;
        size_t i;
        char o = a[1][0];
        if (o == 'l') {
                ok = mem_context_setlimit(&K.c[atoi(a[2])], atol(a[3])) == 0;
        } else if (o == 'a' || o == 'z' || o == 'c') {
                int c = atoi(a[2]);
                int s = atoi(a[3]);
                size_t sz = atol(a[4]);
                uint8_t *p;
                ARM();
                if (o == 'c') {
                        size_t b = atol(a[5]);
                        p = mem_calloc(&K.c[c], sz, b);
                        sz *= b;
                } else if (o == 'z') {
                        p = mem_zalloc(&K.c[c], sz);
                } else {
                        p = mem_alloc(&K.c[c], sz);
                }
                DISARM();
                if (p != NULL) {
                        ok = 1;
                        if (o != 'a') {
                                for (i = 0; i < sz; i++) {
                                        bad += p[i] != 0;
                                }
                        }
                        memset(p, s + 1, sz);
                        K.slot[s].ctx = c;
                        K.slot[s].p = p;
                        K.slot[s].sz = sz;
                }
        } else {
                int s = atoi(a[2]);
                struct mem_context *c = &K.c[K.slot[s].ctx];
                uint8_t *p = K.slot[s].p;
                size_t old = K.slot[s].sz;
                if (o == 'f') {
                        mem_free(c, p, old);
                        K.slot[s].p = NULL;
                        K.slot[s].sz = 0;
                        ok = 1;
                } else {
                        size_t sz = atol(a[3]);
                        uint8_t *np;
                        ARM();
                        if (o == 'e') {
                                np = mem_extend(c, p, old, sz);
                        } else if (o == 'E') {
                                np = mem_extend_zero(c, p, old, sz);
                        } else {
                                np = mem_shrink(c, p, old, sz);
                        }
                        DISARM();
                        if (np == NULL) {
                                np = p;
                                sz = old;
                        } else {
                                ok = 1;
                        }
                        for (i = 0; i < sz && i < old; i++) {
                                bad += np[i] != s + 1;
                        }
                        if (ok && o == 'E') {
                                for (i = old; i < sz; i++) {
                                        bad += np[i] != 0;
                                }
                        }
                        memset(np, s + 1, sz);
                        K.slot[s].p = np;
                        K.slot[s].sz = sz;
                }
        }
        int j;
        ev_begin("ma");
        fprintf(out, ",\"ok\":%d,\"bad\":%d,\"al\":[", ok, bad);
        for (j = 0; j < K.n; j++) {
                fprintf(out, "%s%d", j ? "," : "", clamp(K.c[j].allocated));
        }
        fprintf(out, "],\"pk\":[");
        for (j = 0; j < K.n; j++) {
                fprintf(out, "%s%d", j ? "," : "", clamp(K.c[j].peak));
        }
        fprintf(out, "]");
        ev_end();
}

static void
job_end(void)
{
        int i;
        int live[3] = {clamp(J.root.allocated), clamp(J.mmctx.allocated),
                       clamp(J.imctx.allocated)};
        for (i = J.ninst - 1; i >= 0; i--) {
                if (J.insts[i].inst != NULL) {
                        instance_destroy(J.insts[i].inst);
                }
        }
        for (i = 0; i < J.nims; i++) {
                J.ims[i]->next = NULL;
                import_object_destroy(&J.imctx, J.ims[i]);
        }
        for (i = 0; i < J.nhost; i++) {
                free(J.hosts[i]->ft.parameter.types);
                free(J.hosts[i]->ft.result.types);
                free(J.hosts[i]);
        }
        for (i = 0; i < J.nimnames; i++) {
                free((void *)J.imnames[i]->data);
                free(J.imnames[i]);
        }
        for (i = 0; i < MAXMOD; i++) {
                if (J.mods[i] != NULL) {
                        module_destroy(&J.mmctx, J.mods[i]);
                }
                free(J.bufs[i]);
        }
        ev_begin("end");
        fprintf(out, ",\"job\":%d,\"leak\":[%d,%d,%d]", J.id,
                J.root.allocated != 0, J.mmctx.allocated != 0,
                J.imctx.allocated != 0);
        fprintf(out, ",\"live\":[%d,%d,%d]", live[0], live[1], live[2]);
        fprintf(out, ",\"na\":%ld,\"ni\":%lu", g_alloc_count, J.nintr);
#if defined(TOYWASM_ENABLE_HEAP_TRACKING_PEAK)
        fprintf(out, ",\"pk\":[%d,%d,%d]", clamp(J.root.peak),
                clamp(J.mmctx.peak), clamp(J.imctx.peak));
#endif
        ev_end();
        alarm(0);
        if (J.root.allocated == 0 && J.mmctx.allocated == 0 &&
            J.imctx.allocated == 0) {
                mem_context_clear(&J.mmctx);
                mem_context_clear(&J.imctx);
                mem_context_clear(&J.root);
        }
}

int
main(int argc, char **argv)
{
        if (argc < 2) {
                return 2;
        }
        const char *fds = getenv("TWDRV_FD");
        out = fds != NULL ? fdopen(atoi(fds), "w") : NULL;
        if (out == NULL) {
                out = stdout;
        }
        static char obuf[1 << 16];
        setvbuf(out, obuf, _IOFBF, sizeof(obuf));
        int start = argc > 2 ? atoi(argv[2]) : -1;
        FILE *fp = fopen(argv[1], "r");
        if (fp == NULL) {
                die("cannot open script");
        }
        char *line = NULL;
        size_t cap = 0;
        bool skipping = start >= 0;
        static char *a[4096];
        while (getline(&line, &cap, fp) > 0) {
                int n = 0;
                char *save = NULL;
                char *t = strtok_r(line, " \n", &save);
                while (t != NULL && n < 4095) {
                        a[n++] = t;
                        t = strtok_r(NULL, " \n", &save);
                }
                if (n == 0) {
                        continue;
                }
                if (skipping) {
                        if (a[0][0] == 'J' && atoi(a[1]) >= start) {
                                skipping = false;
                        } else {
                                continue;
                        }
                }
                switch (a[0][0]) {
                case 'J':
                        job_begin(a, n);
                        break;
                case 'H':
                        cmd_host(a, n);
                        break;
                case 'M':
                        cmd_mod(a, n);
                        break;
                case 'I':
                        if (J.mods[atoi(a[2])] != NULL &&
                            imports_exist(a, n)) {
                                cmd_inst(a, n);
                        } else {
                                ev_begin("skip");
                                ev_end();
                        }
                        break;
                case 'C':
                        if (J.insts[atoi(a[1])].inst != NULL) {
                                cmd_call(a, n, -1);
                        } else {
                                ev_begin("skip");
                                ev_end();
                        }
                        break;
                case 'X':
                        if (J.insts[atoi(a[2])].inst != NULL) {
                                cmd_call(a + 1, n - 1, atol(a[1]));
                        } else {
                                ev_begin("skip");
                                ev_end();
                        }
                        break;
                case 'D':
                case 'G':
                case 'T':
                        if (J.insts[atoi(a[1])].inst == NULL) {
                                ev_begin("skip");
                                ev_end();
                        } else if (a[0][0] == 'D') {
                                cmd_mem(a, n);
                        } else if (a[0][0] == 'G') {
                                cmd_glob(a, n);
                        } else {
                                cmd_tab(a, n);
                        }
                        break;
#if defined(TOYWASM_ENABLE_WRITER)
                case 'W':
                        if (J.mods[atoi(a[1])] != NULL) {
                                cmd_write(a, n);
                        } else {
                                ev_begin("skip");
                                ev_end();
                        }
                        break;
#endif
                case 'K':
                        cmd_K(n, a);
                        break;
                case 'Y':
                        cmd_Y(n, a);
                        break;
                case 'E':
                        job_end();
                        break;
                default:
                        die("unknown command %s", a[0]);
                }
        }
        free(line);
        fclose(fp);
        return 0;
}
