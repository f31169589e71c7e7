/* the whole io-agnostic citm (libcitm + libimaildir) between fake streams: a mail client below, a mail
   server above, both played by the driver.  One operation per input line; everything the citm does in
   response (bytes written, connections requested or closed) is printed before a line ".". */
#define _GNU_SOURCE
#define FILE_BASENAME "citm.c"
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "libduv/fake_stream.h"
#include "libduvtls/libduvtls.h"
#include "libcitm/libcitm.h"
#include "libcitm/fake_citm.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

/* ---- faults and time: wrapped libc calls */
static long crash_at = 0, nsys = 0, crash_cut = -1;
static char cache_path[8][512]; static long cache_synced[8]; static int ncache = 0;
static time_t fake_now = 1700000000;
static int counting = 0;
static void died(void){
    // a torn tail: bytes of a log which were never fsynced may be lost
    if(crash_cut >= 0) for(int i = 0; i < ncache; i++){
        struct stat st;
        if(stat(cache_path[i], &st)) continue;
        long keep = cache_synced[i] + crash_cut;
        if(st.st_size > keep){ int r = truncate(cache_path[i], keep); (void)r; }
    }
    printf("crashed %ld\n.\n", nsys); fflush(stdout);
    _exit(0);
}
static void sys(const char *what, const char *path){
    (void)what; (void)path;
    if(!counting) return;
    nsys++;
    if(getenv("CITM_SYS")) fprintf(stderr, "sys %ld %s %s\n", nsys, what, path);
    if(crash_at && nsys == crash_at) died();
}
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b){
    sys("rename", a); int r = __real_rename(a, b);
    size_t n = strlen(b);
    if(r == 0 && n > 7 && !strcmp(b + n - 7, "/.cache")) for(int i = 0; i < ncache; i++) if(!strcmp(cache_path[i], b)){
        struct stat st; if(!stat(b, &st)) cache_synced[i] = st.st_size;
    }
    return r;
}
int __real_unlink(const char *a); int __wrap_unlink(const char *a){ sys("unlink", a); return __real_unlink(a); }
int __real_remove(const char *a); int __wrap_remove(const char *a){ sys("remove", a); return __real_remove(a); }
int __real_rmdir(const char *a); int __wrap_rmdir(const char *a){ sys("rmdir", a); return __real_rmdir(a); }
int __real_mkdir(const char *a, mode_t m); int __wrap_mkdir(const char *a, mode_t m){ sys("mkdir", a); return __real_mkdir(a, m); }
int __real_fsync(int fd);
int __wrap_fsync(int fd){
    char l[64], p[512]; snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof(p) - 1);
    if(n < 0) n = 0;
    p[n] = 0;
    sys("fsync", p);
    int r = __real_fsync(fd);
    if(n > 7 && !strcmp(p + n - 7, "/.cache")){
        int i; for(i = 0; i < ncache; i++) if(!strcmp(cache_path[i], p)) break;
        if(i == ncache && ncache < 8) strcpy(cache_path[ncache++], p);
        struct stat st; if(i < 8 && !fstat(fd, &st)) cache_synced[i] = st.st_size;
    }
    return r;
}
int __real_fflush(FILE *f);
time_t __wrap_time(time_t *t){ if(t) *t = fake_now; return fake_now; }

/* ---- streams */
typedef struct { char id[16]; fake_stream_t f; fake_citm_conn_t conn; dstr_t in; bool eof, eof_done, stall, used, closed; size_t chunk; int err; } st_t;
#define MAXST 64
static st_t *sts[MAXST]; static int nst = 0;
typedef struct { fake_citm_connect_t c; bool finished; } cn_t;
static cn_t *cns[MAXST]; static int ncn = 0, nup = 0;
static manual_scheduler_t M;
static citm_t citm;
static fake_citm_io_t fio;

static derr_t my_connect(citm_io_i *iface, citm_conn_cb cb, void *data, citm_connect_i **out){
    (void)iface;
    cn_t *c = calloc(1, sizeof(*c));
    fake_citm_connect_prep(&c->c);
    c->c.cb = cb; c->c.data = data;
    cns[ncn++] = c;
    *out = &c->c.iface;
    printf("connect %d\n", ncn - 1);
    return E_OK;
}
static st_t *mkst(const char *id){
    st_t *s = calloc(1, sizeof(*s));
    snprintf(s->id, sizeof(s->id), "%s", id);
    sts[nst++] = s;
    return s;
}
static st_t *find(const char *id){ for(int i = 0; i < nst; i++) if(!strcmp(sts[i]->id, id)) return sts[i]; return NULL; }
static void hexout(const char *id, dstr_t b){
    printf("w %s ", id);
    for(size_t i = 0; i < b.len; i++) printf("%02x", (unsigned char)b.data[i]);
    printf("\n");
}
static void pump(void){
    bool again = true;
    while(again){
        again = false;
        manual_scheduler_run(&M);
        for(int i = 0; i < ncn; i++){
            cn_t *c = cns[i];
            if(!c->finished && c->c.canceled){
                c->finished = true; again = true;
                printf("unconnect %d\n", i);
                c->c.done = true;
                c->c.cb(c->c.data, NULL, (derr_t){ .type = E_CANCELED });
            }
        }
        for(int i = 0; i < nst; i++){
            st_t *s = sts[i];
            fake_stream_t *f = &s->f;
            if(f->iface.awaited) { if(!s->closed){ s->closed = true; printf("closed %s\n", s->id); } continue; }
            if(f->iface.canceled){
                fake_stream_done(f, (derr_t){ .type = E_CANCELED }); again = true; continue;
            }
            if(s->err && f->await_cb){
                f->iface.canceled = true;
                fake_stream_done(f, (derr_t){ .type = E_UV_ECONNRESET }); s->err = 0; again = true; continue;
            }
            if(!s->stall){
                while(fake_stream_want_write(f)){ dstr_t b = fake_stream_pop_write(f); hexout(s->id, b); again = true; }
                if(fake_stream_want_write_done(f)){ fake_stream_write_done(f); again = true; continue; }
                if(f->iface.is_shutdown && f->shutdown_cb){ printf("shut %s\n", s->id); fake_stream_shutdown(f); again = true; continue; }
            }
            if(fake_stream_want_read(f)){
                if(s->in.len){
                    size_t n = s->in.len;
                    if(s->chunk && n > s->chunk) n = s->chunk;
                    dstr_t sub = dstr_sub2(s->in, 0, n);
                    dstr_t left = fake_stream_feed_read(f, sub);
                    dstr_leftshift(&s->in, n - left.len);
                    again = true;
                }else if(s->eof && !s->eof_done){
                    s->eof_done = true; again = true;
                    fake_stream_feed_read(f, (dstr_t){0});
                }
            }
        }
    }
    for(int i = 0; i < nst; i++) if(sts[i]->in.len) printf("unread %s %zu\n", sts[i]->id, sts[i]->in.len);
}
static int hexv(int c){ return c <= '9' ? c - '0' : c - 'a' + 10; }

/* ---- encrypt a message to a set of public keys: for the driver's mail server */
static derr_t encrypt(char *keys, dstr_t plain, dstr_t *out){
    derr_t e = E_OK;
    link_t list = {0};
    for(char *k = strtok(keys, ","); k; k = strtok(NULL, ",")){
        string_builder_t p = SBS(k); keypair_t *kp;
        PROP(&e, keypair_load_public_path(&kp, &p) );
        link_list_append(&list, &kp->link);
    }
    encrypter_t ec;
    PROP(&e, encrypter_new(&ec) );
    PROP(&e, encrypter_start(&ec, &list, out) );
    PROP(&e, encrypter_update(&ec, &plain, out) );
    PROP(&e, encrypter_finish(&ec, out) );
    encrypter_free(&ec);
    return e;
}
static char recs[1024];
static derr_t decrypt(char *key, dstr_t cipher, dstr_t *out){
    derr_t e = E_OK;
    string_builder_t p = SBS(key); keypair_t *kp;
    PROP(&e, keypair_load_private_path(&kp, &p) );
    decrypter_t dc = {0};
    LIST_VAR(dstr_t, recips, 16); dstr_t block; PROP(&e, dstr_new(&block, 4096) );
    PROP(&e, decrypter_new(&dc) );
    PROP(&e, decrypter_start(&dc, kp, &recips, &block) );
    PROP(&e, decrypter_update(&dc, &cipher, out) );
    PROP(&e, decrypter_finish(&dc, out) );
    size_t n = 0;
    for(size_t i = 0; i < recips.len && n < 900; i++){ if(i) recs[n++] = ','; for(size_t k = 0; k < recips.data[i].len; k++) n += (size_t)sprintf(recs + n, "%02x", (unsigned char)recips.data[i].data[k]); }
    recs[n] = 0;
    decrypter_free(&dc);
    return e;
}
static dstr_t unhex(const char *h){
    dstr_t d = {0}; derr_t e = dstr_new(&d, strlen(h) / 2 + 1); (void)e;
    for(; h[0] && h[1] && h[0] != '\n'; h += 2) d.data[d.len++] = (char)(hexv(h[0]) * 16 + hexv(h[1]));
    return d;
}

int main(int argc, char **argv){
    derr_t e = E_OK;
    if(argc < 2) return 2;
    logger_add_fileptr(LOG_LVL_INFO, stderr);
    PROP_GO(&e, ssl_library_init(), fail);
    scheduler_i *sched = manual_scheduler(&M);
    fio = (fake_citm_io_t){ .iface = { .connect_imap = my_connect } };
    PROP_GO(&e, citm_init(&citm, &fio.iface, sched, SBS(argv[1])), fail);
    if(argc > 2) fake_now = atol(argv[2]);
    size_t cap = 1 << 22; char *line = malloc(cap);
    while(fgets(line, (int)cap, stdin)){
        char *op = strtok(line, " \n"); if(!op) continue;
        #define ARG() strtok(NULL, " \n")
        counting = 1;
        if(!strcmp(op, "dn")){
            st_t *s = mkst(ARG());
            citm_on_imap_connection(&citm, fake_citm_conn_insec(&s->conn, fake_stream(&s->f)));
        }else if(!strcmp(op, "connect")){
            int i = atoi(ARG()); char *how = ARG(); cn_t *c = cns[i];
            if(!c->finished){
                c->finished = true; c->c.done = true;
                if(!strcmp(how, "ok")){
                    char id[16]; snprintf(id, sizeof(id), "u%d", nup++);
                    st_t *s = mkst(id);
                    printf("up %s\n", id);
                    c->c.cb(c->c.data, fake_citm_conn_insec(&s->conn, fake_stream(&s->f)), E_OK);
                }else c->c.cb(c->c.data, NULL, (derr_t){ .type = E_CONN });
            }
        }else if(!strcmp(op, "rx")){
            st_t *s = find(ARG()); char *h = ARG(); dstr_t d = unhex(h ? h : "");
            derr_t e2 = dstr_append(&s->in, &d); (void)e2; dstr_free(&d);
        }else if(!strcmp(op, "eof")) find(ARG())->eof = true;
        else if(!strcmp(op, "err")) find(ARG())->err = 1;
        else if(!strcmp(op, "stall")){ st_t *s = find(ARG()); s->stall = atoi(ARG()); }
        else if(!strcmp(op, "chunk")){ st_t *s = find(ARG()); s->chunk = (size_t)atoi(ARG()); }
        else if(!strcmp(op, "cancel")) citm_cancel(&citm);
        else if(!strcmp(op, "now")) fake_now = atol(ARG());
        else if(!strcmp(op, "crash")){ nsys = 0; crash_at = atol(ARG()); crash_cut = atol(ARG()); }
        else if(!strcmp(op, "count")){ printf("count %ld\n", nsys); nsys = 0; }
        else if(!strcmp(op, "die")){ died(); }
        else if(!strcmp(op, "enc")){
            char *keys = ARG(); dstr_t d = unhex(ARG()), out = {0};
            PROP_GO(&e, dstr_new(&out, 4096), fail);
            PROP_GO(&e, encrypt(keys, d, &out), fail);
            hexout("enc", out); dstr_free(&d); dstr_free(&out);
        }else if(!strcmp(op, "dec")){
            char *key = ARG(); dstr_t d = unhex(ARG()), out = {0};
            PROP_GO(&e, dstr_new(&out, 4096), fail);
            derr_t e2 = decrypt(key, d, &out);
            if(is_error(e2)) printf("decfail\n"); else { hexout("dec", out); printf("recips %s\n", recs); }
            DROP_VAR(&e2);
            dstr_free(&d); dstr_free(&out);
        }
        else if(!strcmp(op, "state")){
            hash_elem_t *el; hashmap_trav_t tv;
            int np = 0, nu = 0, nh = 0;
            for(el = hashmap_iter(&tv, &citm.preusers); el; el = hashmap_next(&tv)) np++;
            for(el = hashmap_iter(&tv, &citm.users); el; el = hashmap_next(&tv)) nu++;
            for(el = hashmap_iter(&tv, &citm.holds); el; el = hashmap_next(&tv)) nh++;
            printf("state %zu %zu %d %d %d %zu\n", link_list_count(&citm.io_pairs), link_list_count(&citm.anons), np, nu, nh,
                link_list_count(&citm.closing.conns) + link_list_count(&citm.closing.clients) + link_list_count(&citm.closing.servers));
        }
        pump();
        counting = 0;
        printf(".\n"); fflush(stdout);
    }
    return 0;
fail:
    DUMP(e);
    return 3;
}
