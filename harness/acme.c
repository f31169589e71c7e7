// drives the real acme_manager.c behind a fake acme_manager_i: every reply, failure, timer and crash is an operation
// of the script.  One operation per line, one event per operation that applies (operations that do not are skipped).
#define _GNU_SOURCE
#define FILE_BASENAME "acme.c"
#include "libcitm/libcitm.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#define BASE 1700000000L
static volatile long nsys, crash_at; static volatile int counting;
static bool tmpfile_open;
static void sys(void){ if(!counting) return; nsys++; if(crash_at && nsys == crash_at) _exit(42); }
#define W1(ret, name, decl, args) ret __real_##name decl; ret __wrap_##name decl { sys(); return __real_##name args; }
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...){ va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if(fl & (O_WRONLY|O_RDWR|O_CREAT)) sys(); return __real_open(p, fl, m); }
FILE *__real_fopen(const char *p, const char *m); FILE *__wrap_fopen(const char *p, const char *m){ if(*m != 'r') sys(); return __real_fopen(p, m); }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n){
    if(counting && fd > 2 && crash_at && crash_at == nsys + 1 && n > 1){ ssize_t r = __real_write(fd, b, n/2); (void)r; }
    if(fd > 2) sys();
    return __real_write(fd, b, n); }
static volatile int torn; // where a buffered file is cut by a crash
int __real_fclose(FILE *f); int __wrap_fclose(FILE *f){
    if(counting && crash_at && crash_at == nsys + 1){ fflush(f); int fd = fileno(f); off_t n = lseek(fd, 0, SEEK_END); int r = ftruncate(fd, n * torn / 8); (void)r; }
    sys(); return __real_fclose(f); }
W1(int, rename, (const char *a, const char *b), (a, b))
W1(int, unlink, (const char *a), (a))
W1(int, remove, (const char *a), (a))
static derr_t err_of(const char *v);
#define NK 40
static EVP_PKEY *pool[NK]; static bool kseen[NK]; static char kpem[NK][1024];
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }
static int keyid(EVP_PKEY *k){ for(int i = 1; i < NK; i++) if(EVP_PKEY_eq(k, pool[i]) == 1){ kseen[i] = true; return i; } return 99; }
derr_t __wrap_gen_key_path(int bits, const string_builder_t *path){
    derr_t e = E_OK; (void)bits; int i = 1; while(i < NK && kseen[i]) i++;
    if(i == NK){ fprintf(stderr, "out of keys\n"); exit(3); }
    dstr_t d; DSTR_WRAP(d, kpem[i], strlen(kpem[i]), true);
    FILE *f; PROP(&e, dfopen_path(path, "w", &f)); fwrite(d.data, 1, d.len, f); PROP(&e, dfclose2(&f)); return e; }
// acme account keys, by thumbprint
static char jwks[64][128]; static int njwk;
static int jwkid(key_i *k){ if(!k) return 0; DSTR_VAR(b, 128); chk(jwk_thumbprint(k, &b)); char h[128] = ""; for(size_t i = 0; i < b.len && i < 60; i++) sprintf(h + 2*i, "%02x", (unsigned char)b.data[i]);
    for(int i = 1; i <= njwk; i++) if(!strcmp(jwks[i], h)) return i;
    strcpy(jwks[++njwk], h); return njwk; }
// certificates of the fake CA
static EVP_PKEY *cak; static char *DOM[] = {"", "yomamma.user.splintermail.com", "other.user.splintermail.com", "foreign.example.com"};
static X509 *mk(EVP_PKEY *k, const char *cn, const char *issuer, long serial, long from, long to){
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    ASN1_TIME_set(X509_getm_notBefore(x), from); ASN1_TIME_set(X509_getm_notAfter(x), to);
    X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char*)cn, -1, -1, 0);
    n = X509_NAME_new(); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char*)issuer, -1, -1, 0); X509_set_issuer_name(x, n); X509_NAME_free(n);
    X509_set_pubkey(x, k); X509_sign(x, cak, EVP_sha256()); return x; }
static char *cert_pem(int key, int dom, long serial, long from, long to, size_t *leaf){
    BIO *b = BIO_new(BIO_s_mem()); X509 *x = mk(pool[key], DOM[dom], "the ca", serial, from, to), *c = mk(cak, "the ca", "the ca", 7, BASE - 1000, BASE + 2000000000L);
    PEM_write_bio_X509(b, x); char *p; *leaf = BIO_get_mem_data(b, &p); PEM_write_bio_X509(b, c); long n = BIO_get_mem_data(b, &p); char *r = strndup(p, n);
    BIO_free(b); X509_free(x); X509_free(c); return r; }
typedef struct { int n, k, d; long i, e; int w; } crt;
static long asn(const ASN1_TIME *t){ struct tm tm; ASN1_TIME_to_tm(t, &tm); return timegm(&tm) - BASE; }
static int domid(X509 *x){ for(int i = 1; i < 4; i++) if(X509_check_host(x, DOM[i], 0, 0, NULL) == 1) return i; return 9; }
static crt read_cert_text(const char *s){
    crt c = {-1, 0, 0, 0, 0, 0}; BIO *b = BIO_new_mem_buf(s, -1); X509 *x = PEM_read_bio_X509(b, NULL, NULL, NULL);
    if(x){ EVP_PKEY *k = X509_get0_pubkey(x); c.n = ASN1_INTEGER_get(X509_get_serialNumber(x)); c.k = keyid(k); c.d = domid(x); c.i = asn(X509_get0_notBefore(x)); c.e = asn(X509_get0_notAfter(x));
        X509 *y = PEM_read_bio_X509(b, NULL, NULL, NULL); c.w = y != NULL; X509_free(y); X509_free(x); }
    BIO_free(b); ERR_clear_error(); return c; }
static char dir[600]; static string_builder_t dir_sb;
static char *slurp(const char *n){ char p[700]; snprintf(p, sizeof p, "%s/%s", dir, n); FILE *f = __real_fopen(p, "r"); if(!f) return NULL; char *b = calloc(1, 65536); size_t r = fread(b, 1, 65535, f); b[r] = 0; __real_fclose(f); return b; }
static void spit(const char *n, const char *t){ char p[700]; snprintf(p, sizeof p, "%s/%s", dir, n); if(!t){ __real_unlink(p); return; } FILE *f = __real_fopen(p, "w"); fputs(t, f); __real_fclose(f); }
static crt fcert(const char *n){ char *s = slurp(n); if(!s) return (crt){0}; crt c = read_cert_text(s); free(s); return c; }
static int fkey(const char *n){ char *s = slurp(n); if(!s) return 0; dstr_t d; DSTR_WRAP(d, s, strlen(s), true); EVP_PKEY *k = NULL; derr_t e = read_pem_encoded_privkey(d, &k); int r = -1; if(!is_error(e)) r = keyid(k); DROP_VAR(&e); EVP_PKEY_free(k); free(s); return r; }
static void ford(int *n, int *d){ *n = *d = 0; char *s = slurp("order.json"); if(!s) return; *n = -1; *d = 0;
    dstr_t t; DSTR_WRAP(t, s, strlen(s), true); json_t j; JSON_PREP_PREALLOCATED(j, 4096, 32, true); derr_t e = json_parse(t, &j);
    if(!is_error(e)){ char *o = strstr(s, "/order/"); if(o) *n = atoi(o + 7); for(int i = 1; i < 4; i++) if(strstr(s, DOM[i])) *d = i; }
    DROP_VAR(&e); free(s); }
static int fjwk(void){ char *s = slurp("jwk.json"); if(!s) return 0; dstr_t t; DSTR_WRAP(t, s, strlen(s), true); key_i *k = NULL; derr_t e = json_to_key(t, &k); int r = -1; if(!is_error(e)){ r = jwkid(k); k->free(k); } DROP_VAR(&e); free(s); return r; }
static int facct(void){ char *s = slurp("account.json"); if(!s) return 0; free(s); acme_account_t a = {0}; derr_t e = acme_account_from_path(&a, sb_append(&dir_sb, SBS("account.json"))); int r = -1; if(!is_error(e)) r = jwkid(a.key); DROP_VAR(&e); acme_account_free(&a); return r; }
static int finst(void){ char *s = slurp("installation.json"); if(!s) return 0; int r = -1; if(strstr(s, "}")) r = strstr(s, "yomamma") ? 1 : 2; free(s); return r; }
static void pcert(const char *k, crt c){ printf("\"%s\":{\"n\":%d,\"k\":%d,\"d\":%d,\"i\":%ld,\"e\":%ld,\"w\":%s}", k, c.n, c.k, c.d, c.i, c.e, c.w ? "true" : "false"); }
static void files(void){ int n, d; ford(&n, &d); printf(",\"f\":{\"key\":%d,\"keynew\":%d,", fkey("key.pem"), fkey("keynew.pem")); pcert("cert", fcert("cert.pem")); printf(","); pcert("certnew", fcert("certnew.pem"));
    printf(",\"ord\":{\"n\":%d,\"d\":%d},\"acct\":%d,\"jwk\":%d,\"inst\":%d}", n, d, facct(), fjwk(), finst()); }
// the interface
static acme_manager_t am; static bool alive, quiet, closing, cbclose; static long now, serial;
static char calls[8192], cbs[4096]; static int ncalls, ncbs;
static void call(const char *c, long n, long k, int a){ if(quiet) return; int l = strlen(calls); snprintf(calls + l, sizeof calls - l, "%s{\"c\":\"%s\",\"n\":%ld,\"k\":%ld,\"a\":%d}", ncalls++ ? "," : "", c, n, k, a); }
static void cb(const char *c, long n, long k, long a){ if(quiet) return; int l = strlen(cbs); snprintf(cbs + l, sizeof cbs - l, "%s{\"c\":\"%s\",\"n\":%ld,\"k\":%ld,\"a\":%ld}", ncbs++ ? "," : "", c, n, k, a); }
static long dl[3] = {-1, -1, -1}; // deadlines: cert, backoff, unprepare
static char req[32], api[32]; static bool kg; static long reqn; static int reqkey; static json_t *apijson; static key_i *ackey; static string_builder_t kgpath; static char kgbuf[700];
static struct { int key; char *pem; crt c; } ords[4096];
static int num(const dstr_t d, const char *pre){ char b[256]; snprintf(b, sizeof b, "%.*s", (int)d.len, d.data); if(strncmp(b, pre, strlen(pre))) return -1; return atoi(b + strlen(pre)); }
static int domn(const dstr_t d){ for(int i = 1; i < 4; i++) if(d.len == strlen(DOM[i]) && !strncmp(d.data, DOM[i], d.len)) return i; return 0; }
static void ask(const char *t, long n){ if(*req) call("overlap", 0, 0, 0); strcpy(req, t); reqn = n; }
static time_t g_now(acme_manager_i *i){ (void)i; return BASE + now; }
static void g_dc(acme_manager_i *i, time_t w){ (void)i; dl[0] = w - BASE; call("dl_cert", w - BASE, 0, 0); }
static void g_db(acme_manager_i *i, time_t w){ (void)i; dl[1] = w - BASE; call("dl_backoff", w - BASE, 0, 0); }
static void g_du(acme_manager_i *i, time_t w){ (void)i; dl[2] = w - BASE; call("dl_unprep", w - BASE, 0, 0); }
static void g_prepare(acme_manager_i *i, api_token_t t, json_t *j, dstr_t proof){ (void)i; if(*api) call("overlap", 0, 0, 0); strcpy(api, "prepare"); apijson = j; call("prepare", num(proof, "proof"), t.nonce, t.key - 776); }
static void g_unprepare(acme_manager_i *i, api_token_t t, json_t *j){ (void)i; if(*api) call("overlap", 0, 0, 0); strcpy(api, "unprepare"); apijson = j; call("unprepare", 0, t.nonce, t.key - 776); }
static derr_t g_keygen(acme_manager_i *i, string_builder_t p){ (void)i; if(kg) call("overlap", 0, 0, 0); kg = true; kgpath = p; call("keygen", 0, 0, 0); return E_OK; }
static void g_new_account(acme_manager_i *i, key_i **k, const dstr_t mail){ (void)i; ask("new_account", 0); ackey = *k; *k = NULL; call("new_account", num(mail, "me@"), 0, jwkid(ackey)); }
static void g_new_order(acme_manager_i *i, const acme_account_t a, const dstr_t d){ (void)i; ask("new_order", 0); call("new_order", domn(d), 0, jwkid(a.key)); }
static void g_get_order(acme_manager_i *i, const acme_account_t a, const dstr_t o){ (void)i; int n = num(o, "https://acme/order/"); ask("get_order", n); call("get_order", n, 0, jwkid(a.key)); }
static void g_get_authz(acme_manager_i *i, const acme_account_t a, const dstr_t o){ (void)i; int n = num(o, "https://acme/authz/"); ask("get_authz", n); call("get_authz", n, 0, jwkid(a.key)); }
static void g_challenge(acme_manager_i *i, const acme_account_t a, const dstr_t az, const dstr_t ch){ (void)i; int n = num(az, "https://acme/authz/"); ask("challenge", n); call("challenge", n, num(ch, "https://acme/chall/"), jwkid(a.key)); }
static void g_chfin(acme_manager_i *i, const acme_account_t a, const dstr_t az, time_t r){ (void)i; int n = num(az, "https://acme/authz/"); ask("challenge", n); call("challenge_finish", n, r, jwkid(a.key)); }
static void g_finalize(acme_manager_i *i, const acme_account_t a, const dstr_t o, const dstr_t f, const dstr_t d, EVP_PKEY *k){ (void)i; int n = num(o, "https://acme/order/"); if(num(f, "https://acme/final/") != n || domn(d) == 0) n = -1; ask("finalize", n); reqkey = k ? keyid(k) : 0; if(n > 0 && n < 4096) ords[n].key = reqkey; call("finalize", n, reqkey, jwkid(a.key)); }
static void g_finproc(acme_manager_i *i, const acme_account_t a, const dstr_t o, time_t r){ (void)i; int n = num(o, "https://acme/order/"); ask("finalize", n); call("fin_proc", n, r, jwkid(a.key)); }
static void g_finvalid(acme_manager_i *i, const acme_account_t a, const dstr_t u){ (void)i; int n = num(u, "https://acme/cert/"); ask("finvalid", n); call("fin_valid", n, 0, jwkid(a.key)); }
static void g_close(acme_manager_i *i){ (void)i; closing = true; call("close", 0, 0, 0); }
static acme_manager_i ami = { g_now, g_dc, g_db, g_du, g_prepare, g_unprepare, g_keygen, g_new_account, g_new_order, g_get_order, g_get_authz, g_challenge, g_chfin, g_finalize, g_finproc, g_finvalid, g_close };
static void maybe_close(void){ if(cbclose && !quiet){ cbclose = false; cb("closed", 0, 0, 0); am_close(&am); } }
static void on_status(void *d, status_maj_e maj, status_min_e min, dstr_t dom){ (void)d; cb("status", maj, min, domn(dom)); maybe_close(); }
static int ctx_cert(SSL_CTX *c, int *chain){ X509 *x = SSL_CTX_get0_certificate(c); STACK_OF(X509) *st = NULL; SSL_CTX_get0_chain_certs(c, &st); *chain = st ? sk_X509_num(st) : 0;
    if(!x || SSL_CTX_check_private_key(c) != 1) return -1; return ASN1_INTEGER_get(X509_get_serialNumber(x)); }
static void on_update(void *d, SSL_CTX *c){ (void)d; if(!c) cb("update", 0, 0, 0); else { int ch, n = ctx_cert(c, &ch); cb("update", n, ch, 0); SSL_CTX_free(c); } maybe_close(); }
static const char *ename(derr_t e){ return e.type == E_CANCELED ? "canceled" : "fatal"; }
static void on_done(void *d, derr_t e){ (void)d; cb(is_error(e) ? ename(e) : "ok", 0, 0, 0); DROP_VAR(&e); alive = false; }
static derr_t err_of(const char *v){ derr_t e = E_OK;
    if(!strcmp(v, "conn")) TRACE_ORIG(&e, E_CONN, "test"); else if(!strcmp(v, "sock")) TRACE_ORIG(&e, E_SOCK, "test"); else if(!strcmp(v, "resp")) TRACE_ORIG(&e, E_RESPONSE, "test");
    else if(!strcmp(v, "fatal")) TRACE_ORIG(&e, E_PARAM, "test"); else if(!strcmp(v, "cancel")) TRACE_ORIG(&e, E_CANCELED, "test"); return e; }
static dstr_t D(const char *fmt, long n){ char b[128]; snprintf(b, sizeof b, fmt, n); dstr_t r; chk(dstr_new(&r, 256)); chk(FMT(&r, "%x", FS(b))); return r; }
static void adv(void){ am_advance_state(&am); }
// one operation, decided before a possible fork
static char op[32], var[32]; static long arg; static char *pem; static crt sent; static long ordn;
static const char *pick(const char **l, long i){ int n = 0; while(l[n]) n++; return l[((i % n) + n) % n]; }
static bool decide(char *w, char *a1){
    arg = a1 ? atol(a1) : 0; strcpy(op, ""); strcpy(var, ""); serial++; sent = (crt){0}; free(pem); pem = NULL; ordn = serial;
    if(!alive) return false;
    if(!strcmp(w, "r") || !strcmp(w, "R")){
        if(!*req) return false;
        strcpy(op, req);
        const char *v;
        if(!strcmp(req, "new_account")) v = pick((const char*[]){"ok","conn","sock","ok","ok","resp",NULL}, arg);
        else if(!strcmp(req, "new_order")) v = pick((const char*[]){"ok","conn","ok","resp","sock","ok","ok","ok","ok","fatal",NULL}, arg);
        else if(!strcmp(req, "get_order")) v = pick((const char*[]){"pending","ready","processing","valid","invalid","otherdom","conn","expired","resp","revoked","deactivated","fatal",NULL}, arg);
        else if(!strcmp(req, "get_authz")) v = pick((const char*[]){"pending","processing","valid","pending","invalid","conn","resp","ready","pending","pending","pending","fatal",NULL}, arg);
        else if(!strcmp(req, "challenge")) v = pick((const char*[]){"ok","conn","resp","ok","ok","sock","ok","ok","ok","fatal",NULL}, arg);
        else v = pick((const char*[]){"ok90d","ok3000","ok90","okey","conn","odom","resp","junk","cut","sock","cut1","past","empty","ok9","ok90d","due","ok3000","fatal",NULL}, arg);
        strcpy(var, v);
        if(!strcmp(req, "finalize") || !strcmp(req, "finvalid")){
            long from = now, to = now; int k = reqn > 0 && reqn < 4096 ? ords[reqn].key : 0, dom = 1; size_t leaf = 0;
            if(!k){ k = fkey("keynew.pem"); if(k < 1) k = fkey("key.pem"); if(k < 1) k = 1; }
            if(am.fulldomain.len) dom = domn(am.fulldomain);
            if(!strncmp(v, "ok9", 3) || !strcmp(v, "ok3000") || !strcmp(v, "okey") || !strcmp(v, "odom") || !strncmp(v, "cut", 3) || !strcmp(v, "past") || !strcmp(v, "due")){
                to = now + (!strcmp(v, "ok90d") ? 90*86400L : !strcmp(v, "ok90") ? 90 : !strcmp(v, "ok9") ? 9 : 3000);
                if(!strcmp(v, "okey")){ k = k == NK-1 ? 1 : NK-1; } if(!strcmp(v, "odom")) dom = 3;
                if(!strcmp(v, "past")){ from = now - 100; to = now; } if(!strcmp(v, "due")){ from = now - 80; to = now + 20; }
                pem = cert_pem(k, dom, serial, BASE + from, BASE + to, &leaf);
                if(!strcmp(req, "finvalid") && !strncmp(v, "ok", 2) && reqn > 0 && reqn < 4096 && ords[reqn].pem){ free(pem); pem = strdup(ords[reqn].pem); strcpy(var, "again"); }
                if(!strcmp(v, "cut")) pem[leaf + 200] = 0;
                if(!strcmp(v, "cut1")) pem[leaf/2] = 0;
                if(!strncmp(v, "ok", 2) && reqn > 0 && reqn < 4096 && !ords[reqn].pem) ords[reqn].pem = strdup(pem);
                sent = read_cert_text(pem);
                if(!strcmp(var, "okey")) kseen[NK-1] = true;
            }else if(!strcmp(v, "junk")){ pem = strdup("<html>hello</html>\n"); sent.n = -1; }
            else if(!strcmp(v, "empty")){ pem = strdup(""); sent.n = -1; }
        }
    }else if(!strcmp(w, "a") || !strcmp(w, "A")){
        if(!*api) return false;
        strcpy(op, api);
        strcpy(var, !strcmp(api, "prepare") ? pick((const char*[]){"ok","timeout","conn","ok","error","odd","ok","sock","shape","ok","fatal",NULL}, arg) : pick((const char*[]){"ok","conn","ok","error","shape","ok","sock","fatal",NULL}, arg));
    }else if(!strcmp(w, "k")){ if(!kg) return false; strcpy(op, "keygen"); strcpy(var, arg % 12 == 11 ? "fatal" : "ok");
    }else if(!strcmp(w, "t")){ long best = -1; for(int i = 0; i < 3; i++) if(dl[i] >= now && (best < 0 || dl[i] < best)) best = dl[i];
        if(best < 0) return false;
        now = best; for(int i = 0; i < 3; i++) if(dl[i] == now) dl[i] = -1; strcpy(op, "tick");
    }else if(!strcmp(w, "T")){ now += arg; strcpy(op, "tick");
    }else if(!strcmp(w, "s")) strcpy(op, "step");
    else if(!strcmp(w, "c")) strcpy(op, "check");
    else if(!strcmp(w, "i")){ strcpy(op, "inst"); strcpy(var, pick((const char*[]){"good","bad","good","other",NULL}, arg)); if(am.configured) return false; }
    else if(!strcmp(w, "cc")){ strcpy(op, "cc"); if(cbclose || is_error(am.e)) return false; }
    else if(!strcmp(w, "close")){ if(is_error(am.e)) return false; strcpy(op, "close"); }
    else if(!strcmp(w, "x")){ if(!closing) return false; strcpy(op, "x"); }
    else { fprintf(stderr, "bad op %s\n", w); exit(3); }
    return true;
}
static json_t thejson; static bool jsoninit;
static void api_json(const char *v){ json_free(apijson); (void)thejson; (void)jsoninit;
    const char *t = !strcmp(v, "timeout") ? "{\"status\":\"success\",\"contents\":{\"result\":\"timeout\"}}" : !strcmp(v, "odd") ? "{\"status\":\"success\",\"contents\":{\"result\":\"odd\"}}" :
        !strcmp(v, "error") ? "{\"status\":\"error\",\"contents\":\"i died\"}" : !strcmp(v, "shape") ? "{\"status\":\"success\",\"contents\":[1]}" :
        !strcmp(op, "prepare") ? "{\"status\":\"success\",\"contents\":{\"result\":\"ok\"}}" : "{\"status\":\"success\",\"contents\":\"ok\"}";
    dstr_t d; DSTR_WRAP(d, (char*)t, strlen(t), true); chk(json_parse(d, apijson)); }
static void reply(const char *v){
    derr_t e = err_of(v); bool bad = is_error(e); char was[32]; strcpy(was, req); long n = reqn; *req = 0; dstr_t z = {0};
    acme_status_e st = !strcmp(v, "pending") || !strcmp(v, "otherdom") ? ACME_PENDING : !strcmp(v, "ready") ? ACME_READY : !strcmp(v, "processing") ? ACME_PROCESSING : !strcmp(v, "valid") ? ACME_VALID : !strcmp(v, "expired") ? ACME_EXPIRED : !strcmp(v, "revoked") ? ACME_REVOKED : !strcmp(v, "deactivated") ? ACME_DEACTIVATED : ACME_INVALID;
    if(!strcmp(was, "new_account")){ acme_account_t a = {0}; if(bad){ ackey->free(ackey); } else { a.key = ackey; a.kid = D("https://acme/acct/%ld", 1); } ackey = NULL; am_new_account_done(&am, e, a); }
    else if(!strcmp(was, "new_order")){ if(bad) am_new_order_done(&am, e, z, z, z, z); else am_new_order_done(&am, e, D("https://acme/order/%ld", ordn), D("2030-01-01", 0), D("https://acme/authz/%ld", ordn), D("https://acme/final/%ld", ordn)); }
    else if(!strcmp(was, "get_order")){ if(bad) am_get_order_done(&am, e, 0, z, z, z, z, z, 0);
        else { dstr_t dm = D("%ld", 0); dm.len = 0; chk(FMT(&dm, "%x", FS(!strcmp(v, "otherdom") ? DOM[3] : DOM[domn(am.fulldomain)])));
            am_get_order_done(&am, e, st, dm, D("2030-01-01", 0), D("https://acme/authz/%ld", n), D("https://acme/final/%ld", n), st == ACME_VALID ? D("https://acme/cert/%ld", n) : z, st == ACME_PROCESSING ? 7 : 0); } }
    else if(!strcmp(was, "get_authz")){ if(bad) am_get_authz_done(&am, e, 0, 0, z, z, z, z, 0);
        else am_get_authz_done(&am, e, ACME_PENDING, st, D("x", 0), D("2030-01-01", 0), D("https://acme/chall/%ld", n), D("proof%ld", n), st == ACME_PROCESSING ? 9 : 0); }
    else if(!strcmp(was, "challenge")) am_challenge_done(&am, e);
    else { dstr_t c = {0}; if(!bad){ chk(dstr_new(&c, 16384)); chk(FMT(&c, "%x", FS(pem))); } am_finalize_done(&am, e, c); }
}
static void genkey(const char *v){ kg = false; EVP_PKEY *k = NULL; derr_t e = err_of(v); if(!is_error(e)){ derr_t e2 = keygen_or_load(kgpath, &k); if(is_error(e2)){ fprintf(stderr, "keygen failed\n"); DUMP(e2); exit(3); } } am_keygen_done(&am, e, k); }
static void cancel_all(void){
    if(*req) reply("cancel");
    if(*api){ char w[32]; strcpy(w, api); *api = 0; if(!strcmp(w, "prepare")) am_prepare_done(&am, err_of("cancel"), apijson); else am_unprepare_done(&am, err_of("cancel"), apijson); }
    if(kg) genkey("cancel");
    am_close_done(&am); closing = false; adv(); }
static void perform(void){
    if(!strcmp(op, "prepare") || !strcmp(op, "unprepare")){ char w[32]; strcpy(w, api); *api = 0; derr_t e = err_of(var); if(!is_error(e)) api_json(var); else json_free(apijson);
        if(!strcmp(w, "prepare")) am_prepare_done(&am, e, apijson); else am_unprepare_done(&am, e, apijson); adv(); }
    else if(!strcmp(op, "keygen")){ genkey(var); adv(); }
    else if(!strcmp(op, "tick") || !strcmp(op, "step")) adv();
    else if(!strcmp(op, "check")){ am_check(&am); adv(); }
    else if(!strcmp(op, "inst")){ counting = 0; spit("installation.json", !strcmp(var, "bad") ? "{\"email\": \"m" : !strcmp(var, "other") ? "{\"email\":\"me@2\",\"secret\":\"shhh\",\"subdomain\":\"other\",\"token\":778}" : "{\"email\":\"me@1\",\"secret\":\"shhh\",\"subdomain\":\"yomamma\",\"token\":777}"); }
    else if(!strcmp(op, "cc")) cbclose = true;
    else if(!strcmp(op, "close")){ am_close(&am); adv(); }
    else if(!strcmp(op, "x")) cancel_all();
    else { reply(var); adv(); }
}
static void event(const char *m, const char *extra){
    printf("{\"e\":\"%s\",\"v\":\"%s\",\"m\":\"%s\",\"n\":%ld,\"now\":%ld,", op, var, m, ordn, now); pcert("crt", sent);
    printf(",\"calls\":[%s],\"cbs\":[%s]%s", calls, cbs, extra); files(); printf("}\n"); *calls = *cbs = 0; ncalls = ncbs = 0; fflush(stdout); }
static void kill_quietly(void){ if(!alive) goto out; quiet = true; cbclose = false; am_close(&am); adv(); if(alive) cancel_all(); quiet = false;
out: *req = *api = 0; kg = false; closing = false; cbclose = false; alive = false; dl[0] = dl[1] = dl[2] = -1; }
static void boot(void){
    SSL_CTX *c; status_maj_e maj; status_min_e min; dstr_t dom; *calls = *cbs = 0; ncalls = ncbs = 0;
    derr_t e = acme_manager_init(&am, &ami, dir_sb, on_status, on_update, on_done, NULL, &c, &maj, &min, &dom);
    strcpy(op, "boot"); strcpy(var, is_error(e) ? "failed" : "ok"); sent = (crt){0}; int n = 0, ch = 0; if(c){ n = ctx_cert(c, &ch); SSL_CTX_free(c); }
    char x[256]; snprintf(x, sizeof x, ",\"ctx\":%d,\"chain\":%d,\"maj\":%d,\"min\":%d,\"dom\":%d", n, ch, maj, min, is_error(e) ? 0 : domn(dom));
    if(is_error(e)){ DUMP(e); } else alive = true;
    DROP_VAR(&e); event("ok", x);
    if(alive){ strcpy(op, "step"); strcpy(var, ""); adv(); event("ok", ""); } }
static void mutate(const char *w){
    strcpy(op, "files"); snprintf(var, sizeof var, "%s", w); sent = (crt){0};
    if(!strcmp(w, "rmacct")) spit("account.json", NULL); else if(!strcmp(w, "badacct")) spit("account.json", "{\"key\": {");
    else if(!strcmp(w, "rmorder")) spit("order.json", NULL); else if(!strcmp(w, "badorder")) spit("order.json", "{\"fulldo");
    else if(!strcmp(w, "stale")) spit("order.json", "{\"fulldomain\":\"foreign.example.com\",\"order\":\"https://acme/order/3000\"}");
    else if(!strcmp(w, "rmcert")) spit("cert.pem", NULL); else if(!strcmp(w, "rmkey")) spit("key.pem", NULL); else if(!strcmp(w, "badkeynew")) spit("keynew.pem", "-----BEGIN"); else if(!strcmp(w, "badjwk")) spit("jwk.json", "{\"kt");
    else if(!strcmp(w, "rminst")) spit("installation.json", NULL); else if(!strcmp(w, "badinst")) spit("installation.json", "{");
    else if(!strcmp(w, "other")) spit("installation.json", "{\"email\":\"me@2\",\"secret\":\"shhh\",\"subdomain\":\"other\",\"token\":778}");
    else if(!strcmp(w, "mine")) spit("installation.json", "{\"email\":\"me@1\",\"secret\":\"shhh\",\"subdomain\":\"yomamma\",\"token\":777}");
    else { fprintf(stderr, "bad F\n"); exit(3); } }
int main(void){
    char cwd[400], line[256]; if(!getcwd(cwd, sizeof cwd)) return 3; snprintf(dir, sizeof dir, "%s/acme", cwd); if(mkdir(dir, 0700)) return 3;
    static dstr_t rd; DSTR_WRAP(rd, dir, strlen(dir), true); dir_sb = SBD(rd); (void)kgbuf; (void)tmpfile_open;
    logger_add_fileptr(LOG_LVL_ERROR, stderr); chk(ssl_library_init());
    for(int i = 0; i < NK; i++){ pool[i] = EVP_EC_gen("P-256"); BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, pool[i], NULL, NULL, 0, NULL, NULL); char *p; long n = BIO_get_mem_data(b, &p); memcpy(kpem[i], p, n); kpem[i][n] = 0; BIO_free(b); } cak = pool[0];
    mutate("mine");
    bool first = true;
    while(fgets(line, sizeof line, stdin)){
        char *w = strtok(line, " \n"); if(!w) continue;
        if(first && strcmp(w, "F")){ boot(); first = false; }
        crash_at = 0;
        if(!strcmp(w, "F")){ kill_quietly(); char *a; bool any = false; while((a = strtok(NULL, " \n"))){ mutate(a); any = true; event("ok", ""); } (void)any; boot(); first = false; continue; }
        if(!strcmp(w, "restart")){ kill_quietly(); boot(); continue; }
        if(!strcmp(w, "crash")){ crash_at = atol(strtok(NULL, " \n")); torn = atol(strtok(NULL, " \n")); w = strtok(NULL, " \n"); }
        char *a1 = strtok(NULL, " \n");
        if(!decide(w, a1)) continue;
        if(crash_at){
            fflush(stdout); pid_t p = fork();
            if(!p){ nsys = 0; counting = 1; perform(); counting = 0; _exit(43); }
            int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st) < 42 || WEXITSTATUS(st) > 43){ fprintf(stderr, "child died %x\n", st); return 3; }
            *calls = *cbs = 0; ncalls = ncbs = 0; event(WEXITSTATUS(st) == 42 ? "crash" : "done", "");
            kill_quietly(); boot(); continue;
        }
        perform();
        event("ok", "");
    }
    kill_quietly(); fflush(stdout); _exit(0);
}
