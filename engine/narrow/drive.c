/* Runs sessions of the library in a 32-bit program: reads them from the standard input in binary, writes what was shown and called. */
#include <microshell.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>

void ush_process_start(struct ush_object *self, const struct ush_file_descriptor *file);
void ush_write_pointer(struct ush_object *self, char *text, ush_state_t write_next_state);

/* ---- system */
static long sys(long n, long a, long b, long c)
{
        long r;
        __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
        return r;
}
void exit(int c) { for (;;) sys(252, c, 0, 0); }
static void say(const char *s) { sys(4, 2, (long)s, (long)strlen(s)); }
static void die(const char *s) { say(s); say("\n"); exit(96); }
void abort(void) { die("VF-NARROW: abort called"); for (;;) { } }
void vf_assert_failed(const char *file, int line)
{
        char b[200];
        snprintf(b, sizeof(b), "VF-NARROW: assertion failed %s:%d", file, line);
        die(b);
}
int printf(const char *f, ...) { (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; }

#define ARENA (96u << 20)
static char arena[ARENA] __attribute__((aligned(4096)));
static size_t used, dirty;
static size_t guards[4000]; static int nguards;
static void *get(size_t n)
{
        used = (used + 15) & ~(size_t)15;
        if (used + n > ARENA) die("VF-NARROW-HARNESS: arena");
        void *p = arena + used;
        used += n;
        return p;
}
/* a block which ends right before a page that cannot be touched */
static void *guarded(size_t n, size_t align)
{
        used = (used + 4095) & ~(size_t)4095;
        size_t body = (n + 4095) & ~(size_t)4095;
        if (used + body + 4096 > ARENA || nguards >= 4000) die("VF-NARROW-HARNESS: arena");
        char *p = arena + used + body - n;
        p -= (size_t)p % align;
        used += body;
        sys(125, (long)(arena + used), 4096, 0);
        guards[nguards++] = used;
        used += 4096;
        return p;
}
static void release_all(void)
{
        while (nguards) sys(125, (long)(arena + guards[--nguards]), 4096, 3);
        used = 0;
}

/* ---- input */
static uint8_t *msg; static size_t at;
static void need(void *p, size_t n)
{
        char *c = p;
        while (n) {
                long r = sys(3, 0, (long)c, (long)n);
                if (r <= 0) exit(0);
                c += r;
                n -= (size_t)r;
        }
}
static uint32_t num(void) { uint32_t v; memcpy(&v, msg + at, 4); at += 4; return v; }
typedef struct { char *p; size_t n; } text;
static text txt(void) { text t; t.n = num(); t.p = (char*)msg + at; at += t.n + 1; return t; }    /* every text ends with a NUL */
typedef struct { int kind, n; text t; } op;
typedef struct { op *o; size_t n; } prog;
static prog ops(void)
{
        prog p;
        p.n = num();
        p.o = get(sizeof(op) * (p.n + 1));
        for (size_t i = 0; i < p.n; i++) { p.o[i].kind = (int)num(); p.o[i].n = (int)num(); p.o[i].t = txt(); }
        return p;
}
typedef struct {
        text id, name, desc, help, content, stored;
        int hasdesc, hashelp, exec, get, set, proc, reads, isstored;
        prog run, tail, getp, setp;
        text *pieces; size_t npieces;
        uint8_t *data;
} file;
typedef struct { file *f; size_t n; struct ush_file_descriptor *d; } list;
static list *lists; static size_t nlists, ndirs;

/* ---- output */
static char *out; static size_t outn;
static char *evs; static size_t evn, evcount;
#define OUTCAP (8u << 20)
static char outstore[OUTCAP], evstore[OUTCAP];
static void ev32(uint32_t v) { if (evn + 4 > OUTCAP) die("VF-NARROW-HARNESS: events"); memcpy(evs + evn, &v, 4); evn += 4; }
static void evtext(const char *p, size_t n) { ev32((uint32_t)n); if (evn + n > OUTCAP) die("VF-NARROW-HARNESS: events"); memcpy(evs + evn, p, n); evn += n; }
static void event(int kind, const char *id, size_t args) { evcount++; ev32((uint32_t)kind); ev32((uint32_t)outn); evtext(id, strlen(id)); ev32((uint32_t)args); }
enum { EV_GENERAL, EV_EXEC, EV_GET, EV_SET, EV_RET, EV_PROC };

/* ---- the shell */
static struct ush_object *obj;
static struct ush_descriptor *desc;
static prog general;
static uint32_t noise;
static uint32_t rnd(void) { noise = noise * 1664525u + 1013904223u; return noise >> 8; }
static const char *inp; static size_t inn, inpos;
static int polled;
static const struct ush_file_descriptor *cur;
static size_t procpos;
typedef struct { char *path; struct ush_node_object *node; } mounted;
static mounted nodes[4096]; static size_t nnodes;
static struct ush_node_object *groups[4096];

static const char *names[] = {"help", "ls", "cd", "pwd", "cat", "xxd", "echo"};
static file *fileof(const struct ush_file_descriptor *f)
{
        for (size_t i = 0; i < nlists; i++)
                if (f >= lists[i].d && f < lists[i].d + lists[i].n) return &lists[i].f[f - lists[i].d];
        return NULL;
}
static const char *idof(const struct ush_file_descriptor *f)
{
        static char b[40];
        if (!f) return "none";
        file *x = fileof(f);
        if (x) return x->id.p;
        for (size_t i = 0; i < 7; i++) if (strcmp(names[i], f->name) == 0) { snprintf(b, sizeof(b), "builtin:%s", names[i]); return b; }
        return "foreign-descriptor";
}
static char *copy(text t, size_t max)
{
        size_t n = t.n < max ? t.n : max;
        char *p = get(n + 1);
        memcpy(p, t.p, n);
        p[n] = 0;
        return p;
}
static void ret(int kind, int st)
{
        char b[16];
        event(EV_RET, "", 2);
        snprintf(b, sizeof(b), "%d", kind); evtext(b, strlen(b));
        snprintf(b, sizeof(b), "%d", st); evtext(b, strlen(b));
}
static void ret2(const char *k, const char *v) { event(EV_RET, "", 2); evtext(k, strlen(k)); evtext(v, strlen(v)); }
static const char *nodename(const struct ush_node_object *n)
{
        if (!n) return "none";
        for (size_t i = 0; i < nnodes; i++) if (nodes[i].node == n) return nodes[i].path;
        return "foreign-node";
}
static void perform(op *o, int argc, char **argv)
{
        char *p;
        switch (o->kind) {
        case 0: ush_print(obj, copy(o->t, (size_t)-1)); break;
        case 1: ush_print_no_newline(obj, copy(o->t, (size_t)-1)); break;
        case 2: ush_print(obj, argc ? argv[o->n % argc] : (char*)""); break;
        case 3:
                if (o->n % 3 == 1) ush_printf(obj, "<%s|%d>", o->t.p, o->n);
                else if (o->n % 3 == 2) {
                        char *e = get(2 * o->t.n + 1), *q = e;
                        for (size_t i = 0; i < o->t.n; i++) { *q++ = o->t.p[i]; if (o->t.p[i] == '%') *q++ = '%'; }
                        *q = 0;
                        ush_printf(obj, e);
                } else ush_printf(obj, "%s", o->t.p);
                break;
        case 4: ush_printf(obj, "%ls", L"\x4e2d\x6587"); break;
        case 5: ush_print_status(obj, (ush_status_t)(o->n % 13)); break;
        case 6: {
                size_t n = o->t.n < desc->output_buffer_size - 1 ? o->t.n : desc->output_buffer_size - 1;
                memcpy(desc->output_buffer, o->t.p, n);
                desc->output_buffer[n] = 0;
                ush_flush(obj);
                break;
        }
        case 7: ush_reset(obj); break;
        case 8: {
                struct ush_node_object *n = guarded(sizeof(*n), sizeof(void*));
                for (size_t i = 0; i < sizeof(*n); i++) ((char*)n)[i] = (char)rnd();
                p = copy(o->t, (size_t)-1);
                int st = ush_node_mount(obj, p, n, lists[o->n].d, lists[o->n].n);
                ret(o->kind, st);
                if (st) break;
                size_t i = 0;
                while (i < nnodes && strcmp(nodes[i].path, p)) i++;
                if (i == nnodes) { if (nnodes == 4096) die("VF-NARROW-HARNESS: nodes"); nnodes++; }
                nodes[i].path = p; nodes[i].node = n;
                break;
        }
        case 9: {
                int st = ush_node_unmount(obj, o->t.p);
                ret(o->kind, st);
                for (size_t i = 0; st == 0 && i < nnodes; i++)
                        if (strcmp(nodes[i].path, o->t.p) == 0) { nodes[i] = nodes[--nnodes]; break; }
                break;
        }
        case 10: {
                if (o->n < 0 || groups[o->n]) { ret(o->kind, 0); break; }
                struct ush_node_object *n = guarded(sizeof(*n), sizeof(void*));
                for (size_t i = 0; i < sizeof(*n); i++) ((char*)n)[i] = (char)rnd();
                list *l = &lists[ndirs + (size_t)o->n];
                int st = ush_commands_add(obj, n, l->d, l->n);
                groups[o->n] = n;
                ret(o->kind, st);
                break;
        }
        case 11: {
                if (o->n < 0) { ret(o->kind, 1); break; }
                if (!groups[o->n]) {
                        struct ush_node_object *n = get(sizeof(*n));
                        memset(n, 0x5a, sizeof(*n));
                        ret(o->kind, ush_commands_remove(obj, n));
                        break;
                }
                int st = ush_commands_remove(obj, groups[o->n]);
                ret(o->kind, st);
                if (st == 0) groups[o->n] = NULL;
                break;
        }
        case 12: ret(o->kind, ush_node_set_current_dir(obj, o->t.p)); break;
        case 13: ret2("find", idof(ush_file_find_by_name(obj, o->t.p))); break;
        case 14:
                p = guarded(desc->path_max_length, 1);
                memset(p, 0x7e, desc->path_max_length);
                ush_node_get_absolute_path(obj, o->t.p, p);
                ret2("abs", p);
                break;
        case 15: ret2("node", nodename(ush_node_get_by_path(obj, o->t.p))); break;
        case 16: ret2("parent", nodename(ush_node_get_parent_by_path(obj, o->t.p))); break;
        case 18: if (cur) ush_process_start(obj, cur); break;
        default: break;
        }
}
static void performall(prog *p, int argc, char **argv) { for (size_t i = 0; i < p->n; i++) perform(&p->o[i], argc, argv); }

static int cbread(struct ush_object *s, char *ch)
{
        (void)s;
        if (inpos >= inn) { polled = 1; return 0; }
        *ch = inp[inpos++];
        return 1;
}
static int cbwrite(struct ush_object *s, char ch)
{
        (void)s;
        if (rnd() % 4 == 0) return 0;
        if (outn >= OUTCAP) die("VF-NARROW: output without end");
        out[outn++] = ch;
        return 1;
}
static void cbexec(struct ush_object *s, struct ush_file_descriptor const *f, int argc, char *argv[])
{
        (void)s;
        event(f ? EV_EXEC : EV_GENERAL, f ? idof(f) : "", (size_t)argc);
        for (int i = 0; i < argc; i++) evtext(argv[i], strlen(argv[i]));
        if (argv[argc]) die("VF-NARROW: argv[argc] is not NULL");
        file *x = f ? fileof(f) : NULL;
        if (f && !x) return;
        cur = f;
        performall(f ? &x->run : &general, argc, argv);
}
static void cbprocess(struct ush_object *s, struct ush_file_descriptor const *f)
{
        file *x = fileof(f);
        if (!x) die("VF-NARROW: process of a foreign file");
        switch (s->state) {
        case USH_STATE_PROCESS_START:
                event(EV_PROC, x->id.p, 0);
                procpos = 0;
                s->state = USH_STATE_PROCESS_SERVICE;
                break;
        case USH_STATE_PROCESS_SERVICE:
                if (procpos >= x->npieces) s->state = USH_STATE_PROCESS_FINISH;
                else {
                        text t = x->pieces[procpos++];
                        if (t.n) ush_write_pointer(s, copy(t, (size_t)-1), USH_STATE_PROCESS_SERVICE);
                }
                break;
        case USH_STATE_PROCESS_FINISH:
                s->state = USH_STATE_RESET_PROMPT;
                performall(&x->tail, 0, NULL);
                break;
        default: die("VF-NARROW: process called in a wrong state");
        }
}
static char *shared;
static size_t cbget(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t **data)
{
        (void)s;
        event(EV_GET, idof(f), 0);
        file *x = fileof(f);
        if (!x) return 0;
        text base = x->isstored ? x->stored : x->content;
        int n = x->reads++;
        size_t r = 0;
        char b[24] = "";
        if (x->get == 3) snprintf(b, sizeof(b), "#%d ", n);
        if (x->get == 1 || x->get == 3 || x->get == 4) {
                r = base.n + strlen(b);
                char *p = guarded(r, 1);
                memcpy(p, b, strlen(b));
                memcpy(p + strlen(b), base.p, base.n);
                *data = (uint8_t*)p;
        }
        performall(&x->getp, 0, NULL);
        return r;
}
static void cbset(struct ush_object *s, struct ush_file_descriptor const *f, uint8_t *data, size_t size)
{
        (void)s;
        event(EV_SET, idof(f), 1);
        evtext((char*)data, size);
        file *x = fileof(f);
        if (!x) return;
        if (x->set == 1) { x->stored.p = get(size + 1); memcpy(x->stored.p, data, size); x->stored.n = size; x->isstored = 1; }
        performall(&x->setp, 0, NULL);
}
static void go(void)
{
        int idle = 0, root = 0;
        for (size_t i = 0; i < nnodes; i++) root |= strcmp(nodes[i].path, "/") == 0;
        if (!root) return;
        for (uint32_t i = 0; idle < 3; i++) {
                if (i > 30000000u) die("VF-NARROW: the shell does not come to rest");
                size_t o = outn, p = inpos, e = evn;
                polled = 0;
                int busy = ush_service(obj);
                if (!busy && polled && o == outn && p == inpos && e == evn) idle++; else idle = 0;
        }
}
static char *opt(text t, int has) { return has ? copy(t, (size_t)-1) : NULL; }

static void episode(void)
{
        desc = get(sizeof(*desc));
        struct ush_io_interface *io = get(sizeof(*io));
        io->read = cbread; io->write = cbwrite;
        memset(desc, 0, sizeof(*desc));
        noise = num();
        desc->io = io;
        desc->input_buffer_size = num();
        desc->output_buffer_size = num();
        desc->path_max_length = num();
        desc->input_buffer = guarded(desc->input_buffer_size, 1);
        desc->output_buffer = guarded(desc->output_buffer_size, 1);
        desc->hostname = copy(txt(), (size_t)-1);
        desc->exec = num() ? cbexec : NULL;
        general = ops();
        ndirs = num();
        nlists = ndirs + num();
        lists = get(sizeof(list) * (nlists + 1));
        for (size_t i = 0; i < nlists; i++) {
                list *l = &lists[i];
                l->n = num();
                l->f = get(sizeof(file) * (l->n + 1));
                l->d = guarded(sizeof(struct ush_file_descriptor) * (l->n ? l->n : 1), sizeof(void*));
                memset(l->d, 0, sizeof(struct ush_file_descriptor) * (l->n ? l->n : 1));
                for (size_t k = 0; k < l->n; k++) {
                        file *f = &l->f[k];
                        memset(f, 0, sizeof(*f));
                        f->id = txt(); f->name = txt();
                        f->hasdesc = (int)num(); f->desc = txt();
                        f->hashelp = (int)num(); f->help = txt();
                        f->exec = (int)num(); f->get = (int)num(); f->set = (int)num(); f->proc = (int)num();
                        f->content = txt();
                        f->run = ops(); f->tail = ops(); f->getp = ops(); f->setp = ops();
                        f->npieces = num();
                        f->pieces = get(sizeof(text) * (f->npieces + 1));
                        for (size_t j = 0; j < f->npieces; j++) f->pieces[j] = txt();
                        struct ush_file_descriptor *d = &l->d[k];
                        d->name = copy(f->name, (size_t)-1);
                        d->description = opt(f->desc, f->hasdesc);
                        d->help = opt(f->help, f->hashelp);
                        d->exec = f->exec ? cbexec : NULL;
                        d->get_data = f->get ? cbget : NULL;
                        d->set_data = f->set ? cbset : NULL;
                        d->process = f->proc ? cbprocess : NULL;
                }
        }
        obj = guarded(sizeof(*obj), sizeof(void*));
        for (size_t i = 0; i < sizeof(*obj); i++) ((char*)obj)[i] = (char)rnd();
        for (size_t i = 0; i < desc->input_buffer_size; i++) desc->input_buffer[i] = (char)rnd();
        for (size_t i = 0; i < desc->output_buffer_size; i++) desc->output_buffer[i] = (char)rnd();
        out = outstore; evs = evstore;
        outn = evn = evcount = nnodes = 0;
        inn = inpos = 0;
        cur = NULL; shared = NULL;
        memset(groups, 0, sizeof(groups));
        ush_init(obj, desc);
        size_t n = num();
        for (size_t i = 0; i < n; i++) { op o; o.kind = (int)num(); o.n = (int)num(); o.t = txt(); perform(&o, 0, NULL); }
        go();
        n = num();
        for (size_t i = 0; i < n; i++) {
                if (num()) { op o; o.kind = (int)num(); o.n = (int)num(); o.t = txt(); perform(&o, 0, NULL); go(); }
                else { text t = txt(); inp = t.p; inn = t.n; inpos = 0; go(); }
        }
}
static void send(const void *p, size_t n)
{
        const char *c = p;
        while (n) { long r = sys(4, 1, (long)c, (long)n); if (r <= 0) exit(0); c += r; n -= (size_t)r; }
}
void begin(void)
{
        for (;;) {
                uint32_t n, v;
                need(&n, 4);
                release_all();
                msg = get(n + 4);
                need(msg, n);
                at = 0;
                episode();
                v = (uint32_t)outn; send(&v, 4);
                v = (uint32_t)evcount; send(&v, 4);
                v = (uint32_t)evn; send(&v, 4);
                send(out, outn);
                send(evs, evn);
        }
}
/* the stack has to be aligned */
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n andl $-16,%esp\n call begin\n");
