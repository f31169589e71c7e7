// drives the real key directory (with its fingerprint watcher, decryption hook and local INBOX), with crashes
// and i/o failures at any file system call.  One operation per line, one event per operation.
#define _GNU_SOURCE
#define FILE_BASENAME "keydir.c"
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "libduvtls/libduvtls.h"
#include "libcitm/libcitm.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
static volatile long nsys, crash_at, fail_at; static volatile int power, counting;
#define ND 64
static struct { int fd; dev_t d; ino_t i; bool dirty; } dirt[ND]; static int nd;
static void died(void){
    // power loss: what was never fsynced is gone
    if(power) for(int i = 0; i < nd; i++) if(dirt[i].dirty){ int r = ftruncate(dirt[i].fd, 0); (void)r; }
    _exit(42);
}
static bool sys(void){
    if(!counting) return false;
    nsys++;
    if(crash_at && nsys == crash_at) died();
    return fail_at && nsys == fail_at;
}
#define FAIL do { errno = EIO; return -1; } while(0)
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...){ va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if(fl & (O_WRONLY|O_RDWR|O_CREAT)) if(sys()) FAIL;
    return __real_open(p, fl, m); }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n){
    if(counting && fd > 2){
        if(crash_at && crash_at == nsys + 1 && n > 1){ ssize_t r = __real_write(fd, b, n/2); (void)r; }
        struct stat st; int k;
        if(!fstat(fd, &st)){
            for(k = 0; k < nd; k++) if(dirt[k].d == st.st_dev && dirt[k].i == st.st_ino) break;
            if(k == nd && nd < ND){ dirt[nd].fd = dup(fd); dirt[nd].d = st.st_dev; dirt[nd].i = st.st_ino; nd++; }
            if(k < nd) dirt[k].dirty = true;
        }
        if(sys()) FAIL;
    }
    return __real_write(fd, b, n); }
int __real_fsync(int fd);
int __wrap_fsync(int fd){ if(sys()) FAIL; struct stat st;
    if(counting && !fstat(fd, &st)) for(int k = 0; k < nd; k++) if(dirt[k].d == st.st_dev && dirt[k].i == st.st_ino) dirt[k].dirty = false;
    return __real_fsync(fd); }
int __real_rename(const char *a, const char *b); int __wrap_rename(const char *a, const char *b){ if(sys()) FAIL; return __real_rename(a, b); }
int __real_unlink(const char *a); int __wrap_unlink(const char *a){ if(sys()) FAIL; return __real_unlink(a); }
int __real_remove(const char *a); int __wrap_remove(const char *a){ if(sys()) FAIL; return __real_remove(a); }
int __real_rmdir(const char *a); int __wrap_rmdir(const char *a){ if(sys()) FAIL; return __real_rmdir(a); }
int __real_mkdir(const char *a, mode_t m); int __wrap_mkdir(const char *a, mode_t m){ if(sys()) FAIL; return __real_mkdir(a, m); }
time_t __real_time(time_t *t); static time_t fake = 1700000000; time_t __wrap_time(time_t *t){ fake++; if(t) *t = fake; return fake; }

#define NF 4
static keypair_t *kp[NF+1]; static char pem[NF+1][4096];
static char mine[8][128]; static int nmine;
static const struct { const char *s; size_t n; } MB[] = {
#define M(x) {x, sizeof(x)-1}
    M("INBOX"), M("a\\nb"), M("a\nb"), M("a\\"), M("a\\\\nb"), M("x/y"), M("a"), M("\\"), M("\n"), M("a\\\nb"), M("b\r\n"), M("q\\\\n"), M("q"), M("\\n") };
#define NMB ((int)(sizeof(MB)/sizeof(*MB)))
static char root[512]; static string_builder_t root_sb; static keydir_i *kd;
DSTR_STATIC(user, "theuser");
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }
static int fidx(const dstr_t f){
    for(int i = 1; i <= NF; i++) if(dstr_eq(*kp[i]->fingerprint, f)) return i;
    char b[128]; int n = 0; for(size_t i = 0; i < f.len && n < 120; i++) n += sprintf(b+n, "%02x", (unsigned char)f.data[i]);
    for(int i = 0; i < nmine; i++) if(!strcmp(mine[i], b)) return 10 + i;
    if(nmine == 8) return 99;
    strcpy(mine[nmine++], b); return 9 + nmine;
}
static int hidx(const char *h){ char b[128]; DSTR_VAR(bin, 64); dstr_t d; snprintf(b, sizeof b, "%s", h); size_t n = strspn(b, "0123456789abcdefABCDEF"); b[n] = 0;
    DSTR_WRAP(d, b, n, true); derr_t e = hex2bin(&d, &bin); if(is_error(e)){ DROP_VAR(&e); return 98; } return fidx(bin); }
static int icmp(const void *a, const void *b){ return *(const int*)a - *(const int*)b; }
static void plist(const char *k, int *v, int n, bool srt){ if(srt) qsort(v, n, sizeof(int), icmp); printf(",\"%s\":[", k); for(int i = 0; i < n; i++) printf("%s%d", i ? "," : "", v[i]); printf("]"); }
// the alert messages in the INBOX, oldest first (by the uid in the file name)
static char seenmsg[4096][256]; static int nseen;
static int scmp(const void *a, const void *b){ return strcmp(*(char*const*)a, *(char*const*)b); }
static void alerts(void){
    char p[600]; snprintf(p, sizeof p, "%s/theuser/mail/INBOX/cur", root);
    DIR *d = opendir(p); int v[64], n = 0; char *names[512]; int nn = 0;
    if(d){ struct dirent *de; while((de = readdir(d))){ if(de->d_name[0] == '.') continue;
        bool old = false; for(int i = 0; i < nseen; i++) if(!strcmp(seenmsg[i], de->d_name)) old = true;
        if(!old && nn < 512) names[nn++] = strdup(de->d_name); }
        closedir(d); }
    qsort(names, nn, sizeof(*names), scmp);
    for(int i = 0; i < nn; i++){
        char f[1000]; snprintf(f, sizeof f, "%s/%s", p, names[i]); FILE *fp = fopen(f, "r"); char b[8192]; size_t r = fread(b, 1, sizeof b - 1, fp); b[r] = 0; fclose(fp);
        char *x = strstr(b, "following fingerprint:\r\n\r\n    "); bool full = strstr(b, "Subject: New Device Detected\r\n") && strstr(b, "without your knowledge.\r\n");
        v[n++] = x && full ? hidx(x + 30) : 97; 
        if(nseen < 4096) snprintf(seenmsg[nseen++], 256, "%s", names[i]);
        free(names[i]);
    }
    plist("al", v, n, true);
}
static void keylist(const char *k, link_t *l){ int v[64], n = 0; keypair_t *q; LINK_FOR_EACH(q, l, keypair_t, link) if(n < 64) v[n++] = fidx(*q->fingerprint); plist(k, v, n, true); }
static void probe(void){
    int v[64], n = 0; int sc = counting; counting = 0;
    alerts();
    printf(",\"my\":%d", fidx(*kd->mykey(kd)->fingerprint));
    keylist("peers", kd->peers(kd)); keylist("all", kd->all_keys(kd));
    char p[600]; snprintf(p, sizeof p, "%s/theuser/keys", root);
    DIR *d = opendir(p); struct dirent *de; n = 0;
    if(d){ while((de = readdir(d))) if(de->d_name[0] != '.' && strcmp(de->d_name, "mykey.pem") && n < 64) v[n++] = hidx(de->d_name); closedir(d); }
    plist("files", v, n, true);
    // what a restart would find
    fpr_watcher_t w; string_builder_t us = sb_append(&root_sb, SBD(user)); string_builder_t fp = sb_append(&us, SBS("fingerprints"));
    chk(fpr_watcher_init(&w, fp));
    DSTR_STATIC(unknown, "never-seen-anywhere");
    n = 0; for(int i = 0; i < NMB; i++){ dstr_t m; char b[32]; memcpy(b, MB[i].s, MB[i].n); DSTR_WRAP(m, b, MB[i].n, false); if(fpr_watcher_should_alert_on_decrypt(&w, unknown, m)) v[n++] = i; } plist("synced", v, n, true);
    bool x = fpr_watcher_should_alert_on_new_key(&w, unknown);
    printf(",\"x\":%s", x ? "true" : "false");
    // seen: force both conditions in a private copy of the memory state only
    w.xkeysynced = true; n = 0;
    for(int i = 1; i <= NF; i++) if(!fpr_watcher_should_alert_on_new_key(&w, *kp[i]->fingerprint)) v[n++] = i;
    for(int i = 0; i < nmine; i++){ DSTR_VAR(bin, 64); dstr_t h; DSTR_WRAP(h, mine[i], strlen(mine[i]), true); chk(hex2bin(&h, &bin)); if(!fpr_watcher_should_alert_on_new_key(&w, bin)) v[n++] = 10 + i; }
    plist("seen", v, n, true);
    fpr_watcher_free(&w);
    counting = sc;
}
static void setup(void){ chk(keydir_new(&root_sb, user, &kd)); }
static void reopen_inbox(void){ // as the next session does
    dirmgr_hold_t *h = NULL; imaildir_t *m = NULL; dirmgr_t *dm = kd->dirmgr(kd);
    chk(dirmgr_hold_new(dm, &DSTR_LIT("INBOX"), &h)); chk(dirmgr_hold_get_imaildir(h, &m)); dirmgr_hold_release_imaildir(h, &m); dirmgr_hold_free(h);
}
static char out[64]; // what a message was turned into
static dstr_t msg;
static char plain[256];
static derr_t (*todo)(void);
static int A; static char *S;
static derr_t op_add(void){ dstr_t d; DSTR_WRAP(d, pem[A], strlen(pem[A]), true); return kd->add_key(kd, d); }
static derr_t op_del(void){ kd->delete_key(kd, *kp[A]->fingerprint); return E_OK; }
static derr_t op_synced(void){ dstr_t m; char b[32]; memcpy(b, MB[A].s, MB[A].n); DSTR_WRAP(m, b, MB[A].n, false); return kd->mailbox_synced(kd, m); }
static derr_t op_x(void){ return keydir_keysync_completed(kd); }
static derr_t op_restart(void){ kd->free(kd); kd = NULL; return keydir_new(&root_sb, user, &kd); }
static bool has(const dstr_t d, const char *s){ dstr_t x; DSTR_WRAP(x, (char*)s, strlen(s), true); return dstr_count2(d, x) > 0; }
static derr_t op_dec(void){
    imaildir_hooks_i *h = kd->dirmgr(kd)->imaildir_hooks; size_t len = 99999; bool n4 = false;
    dstr_t m; char b[32]; memcpy(b, MB[A].s, MB[A].n); DSTR_WRAP(m, b, MB[A].n, false);
    string_builder_t path = sb_append(&root_sb, SBS("decrypted")); 
    int sc = counting; counting = 0; remove("root/decrypted"); counting = sc;
    derr_t e = h->process_msg(h, &m, &path, &msg, &len, &n4);
    strcpy(out, "fail"); if(is_error(e)) return e;
    counting = 0;
    dstr_t got = {0}; bool ex; chk(exists_path(&path, &ex)); 
    if(ex) chk(dstr_read_path(&path, &got));
    if(n4) strcpy(out, ex ? "n4mfile" : "n4m");
    else if(!ex || got.len != len) strcpy(out, "len");
    else { dstr_t p; DSTR_WRAP(p, plain, strlen(plain), true);
        if(dstr_eq(p, got)) strcpy(out, "plain");
        else if(has(got, "Subject: NOT ENCRYPTED: hello\r\n") && dstr_endswith2(got, DSTR_LIT("\r\n\r\nbody\r\n"))) strcpy(out, "marked");
        else if(has(got, "Subject: CITM failed to decrypt message\r\n") && dstr_endswith2(got, msg)) strcpy(out, "corrupt");
        else strcpy(out, "other"); }
    dstr_free(&got); counting = sc; return e; }
static derr_t op_get(void){ // what the alert list needs after a crash
    return E_OK; }
static void build_msg(char *recips, const char *how){ // recips like "0,2,3" (0: this device)
    msg.len = 0; if(!msg.data) chk(dstr_new(&msg, 8192));
    static int serial; sprintf(plain, "From: x@y\r\nSubject: hello\r\n\r\nbody\r\n"); serial++;
    if(!strcmp(how, "clear")){ dstr_t p; DSTR_WRAP(p, plain, strlen(plain), true); chk(dstr_append(&msg, &p)); return; }
    sprintf(plain, "From: x@y\r\nSubject: hello\r\n\r\nsecret %d\r\n", serial);
    link_t l; link_init(&l);
    for(char *t = strtok(recips, ","); t; t = strtok(NULL, ",")){ keypair_t *c; int i = atoi(t); chk(keypair_copy(i ? kp[i] : kd->mykey(kd), &c)); link_list_append(&l, &c->link); }
    encrypter_t ec; chk(encrypter_new(&ec)); chk(encrypter_start(&ec, &l, &msg)); dstr_t p; DSTR_WRAP(p, plain, strlen(plain), true);
    chk(encrypter_update(&ec, &p, &msg)); chk(encrypter_finish(&ec, &msg)); encrypter_free(&ec);
    link_t *k; while((k = link_list_pop_first(&l))){ keypair_t *q = CONTAINER_OF(k, keypair_t, link); keypair_free(&q); }
    if(!strcmp(how, "cut")) msg.len -= msg.len > 60 ? 60 : 0;
    if(!strcmp(how, "flip")){ size_t i = msg.len - 70; while(msg.data[i] == '\n' || msg.data[i] == '\r') i--; msg.data[i] = msg.data[i] == 'A' ? 'B' : 'A'; }
}
int main(void){
    char line[1024]; if(mkdir("root", 0700)) return 3; char cwd[400]; if(!getcwd(cwd, sizeof cwd)) return 3; snprintf(root, sizeof root, "%s/root", cwd);
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    logger_add_fileptr(LOG_LVL_ERROR, stderr);
    chk(ssl_library_init());
    DSTR_WRAP(*(dstr_t[]){{0}}, root, strlen(root), true);
    static dstr_t rd; DSTR_WRAP(rd, root, strlen(root), true); root_sb = SBD(rd);
    const char *kdir = getenv("KEYS"); const char *nm[] = {"mykey", "other", "peer2", "peer3", "peer4"};
    for(int i = 0; i <= NF; i++){ char p[600]; snprintf(p, sizeof p, "%s/%s.pub", kdir, nm[i]); FILE *f = fopen(p, "r"); if(!f) return 3; pem[i][fread(pem[i], 1, 4095, f)] = 0; fclose(f);
        dstr_t d; DSTR_WRAP(d, pem[i], strlen(pem[i]), true); chk(keypair_from_pubkey_pem(&kp[i], d)); }
    if(mkdir("root/theuser", 0700) || mkdir("root/theuser/keys", 0700)) return 3;
    { char c[1000]; snprintf(c, sizeof c, "cp %s/mykey.pem root/theuser/keys/", kdir); if(system(c)) return 3; }
    setup();
    while(fgets(line, sizeof line, stdin)){
        char *w = strtok(line, " \n"); if(!w) continue;
        crash_at = fail_at = 0; power = 0; nd = 0;
        const char *mode = "ok";
        if(!strcmp(w, "crash") || !strcmp(w, "power")){ power = *w == 'p'; mode = "crash"; crash_at = atol(strtok(NULL, " \n")); w = strtok(NULL, " \n"); }
        else if(!strcmp(w, "fail")){ mode = "fail"; fail_at = atol(strtok(NULL, " \n")); w = strtok(NULL, " \n"); }
        char *a1 = strtok(NULL, " \n"), *a2 = strtok(NULL, " \n"), *a3 = strtok(NULL, " \n");
        A = a1 ? atoi(a1) : 0; char rl[64] = "";
        out[0] = 0;
        if(!strcmp(w, "add")) todo = op_add; else if(!strcmp(w, "del")) todo = op_del; else if(!strcmp(w, "synced")) todo = op_synced;
        else if(!strcmp(w, "x")) todo = op_x; else if(!strcmp(w, "restart")) todo = op_restart;
        else if(!strcmp(w, "dec")){ todo = op_dec; snprintf(rl, sizeof rl, "%s", a2); build_msg(a2, a3); }
        else if(!strcmp(w, "spoil")){ // the private key is damaged on disk
            counting = 0; FILE *f = fopen("root/theuser/keys/mykey.pem", "w"); fputs("-----BEGIN", f); fclose(f); todo = op_restart; w = "spoil"; }
        else return 3;
        (void)op_get;
        bool ok = true, crashed = false;
        if(crash_at){
            fflush(stdout); pid_t p = fork();
            if(!p){ nsys = 0; counting = 1; derr_t e = todo(); counting = 0; bool bad = is_error(e); DROP_VAR(&e); _exit(bad ? 44 : 43); }
            int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st) < 42){ fprintf(stderr, "child died %x\n", st); return 3; }
            crashed = WEXITSTATUS(st) == 42; ok = WEXITSTATUS(st) == 43;
            if(!crashed && !ok){ fprintf(stderr, "the operation failed by itself\n"); }
            mode = crashed ? "crash" : "done"; // done: completed, then the process was ended
            setup(); reopen_inbox(); // the memory of the old instance is simply gone
            strcpy(out, "none");
        }else{
            nsys = 0; counting = 1; derr_t e = todo(); counting = 0; ok = !is_error(e); 
            if(!ok && !fail_at){ fprintf(stderr, "failed without reason\n"); DUMP(e); }
            DROP_VAR(&e);
            if(fail_at && nsys < fail_at) mode = "ok";
            if(!kd){ setup(); }
            if(fail_at && nsys >= fail_at) reopen_inbox();
        }
        printf("{\"e\":\"%s\",\"m\":\"%s\",\"ok\":%s,\"a\":%d,\"r\":[%s],\"how\":\"%s\",\"out\":\"%s\"", w, mode, ok ? "true" : "false", A, rl, a3 ? a3 : "", out);
        probe(); printf("}\n");
    }
    fflush(stdout); _exit(0);
}
