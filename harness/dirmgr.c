// drives the real dirmgr_t with real imaildirs over a scratch directory; one operation per line, one event per operation
#define _GNU_SOURCE
#define FILE_BASENAME "dirmgr.c"
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "libimap/libimap.h"
#include "libimaildir/libimaildir.h"
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#define NA 8
#define NH 4
#define NZ 4
static const char *NAMES[] = {"a", "a/b", "c", "INBOX", "d e/f"};
#define NN ((int)(sizeof(NAMES)/sizeof(*NAMES)))
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }
typedef struct { dn_cb_i dn_cb; up_cb_i up_cb; dn_t dn; up_t up; int used; int n; int sched; int kicked; } acc_t; // used: 1 dn 2 up
DEF_CONTAINER_OF(acc_t, dn_cb, dn_cb_i) DEF_CONTAINER_OF(acc_t, up_cb, up_cb_i)
static acc_t acc[NA];
static void dsched(dn_cb_i *cb){ CONTAINER_OF(cb, acc_t, dn_cb)->sched++; }
static void usched(up_cb_i *cb){ CONTAINER_OF(cb, acc_t, up_cb)->sched++; }
static struct { dirmgr_hold_t *h; int n; } hold[NH];
static struct { dirmgr_freeze_t *z; int n; } frz[NZ];
static dirmgr_t dm; static string_builder_t mail; static int token = 100; static char root[512]; static extensions_t exts;
static imaildir_t *mof(acc_t *a){ return a->used == 1 ? a->dn.m : a->used == 2 ? a->up.m : NULL; }
static int icmp(const void *a, const void *b){ return *(const int*)a - *(const int*)b; }
// tokens of the messages of one mailbox on disk; -1: a directory which has no cur/new/tmp
static void content(const char *base){
    int v[1024], n = 0; const char *sub[] = {"cur", "new"};
    for(int s = 0; s < 2; s++){ char p[1200]; snprintf(p, sizeof p, "%s/%s", base, sub[s]); DIR *d = opendir(p); if(!d) continue; struct dirent *de;
        while((de = readdir(d))){ if(de->d_name[0] == '.') continue; char f[2000]; snprintf(f, sizeof f, "%s/%s", p, de->d_name);
            FILE *fp = fopen(f, "r"); int t = -2; if(fp){ if(fscanf(fp, "token %d", &t) != 1) t = -3; fclose(fp); } if(n < 1024) v[n++] = t; }
        closedir(d); }
    qsort(v, n, sizeof(int), icmp); printf("["); for(int i = 0; i < n; i++) printf("%s%d", i ? "," : "", v[i]); printf("]");
}
static int same(const char *a){ struct stat s; return !stat(a, &s); }
static void probe(void){
    printf(",\"disk\":["); for(int i = 0; i < NN; i++){ char p[800]; snprintf(p, sizeof p, "%s/%s", root, NAMES[i]); printf("%s", i ? "," : ""); content(p); } printf("]");
    // who shares a mailbox with whom; what is kicked; who may download
    printf(",\"grp\":["); for(int i = 0; i < NA; i++){ int g = -1; imaildir_t *m = mof(&acc[i]); if(m) for(int j = 0; j <= i; j++) if(mof(&acc[j]) == m){ g = j; break; } printf("%s%d", i ? "," : "", g); } printf("]");
    printf(",\"kick\":["); int c = 0; for(int i = 0; i < NA; i++) if(acc[i].used && !mof(&acc[i]) && !acc[i].kicked){ acc[i].kicked = 1; printf("%s%d", c++ ? "," : "", i + 1); } printf("]");
    printf(",\"dl\":["); for(int i = 0; i < NA; i++){ imaildir_t *m = mof(&acc[i]); printf("%s%s", i ? "," : "", m && m->cb->allow_download(m->cb, m) ? "true" : "false"); } printf("]");
    // every mailbox which is open knows exactly the messages on disk
    printf(",\"mem\":["); for(int i = 0; i < NA; i++){ imaildir_t *m = mof(&acc[i]); int k = 0; if(m){ jsw_atrav_t t; jsw_anode_t *nd = jsw_atfirst(&t, &m->msgs); for(; nd; nd = jsw_atnext(&t)) if(CONTAINER_OF(nd, msg_t, node)->state == MSG_FILLED) k++; } printf("%s%d", i ? "," : "", m ? k : -1); } printf("]");
}
static dstr_t nm(int n){ dstr_t d; DSTR_WRAP(d, (char*)NAMES[n], strlen(NAMES[n]), true); return d; }
static const char *res(derr_t *e){ const char *r = "ok"; if(e->type == E_FROZEN) r = "frozen"; else if(e->type == E_BUSY) r = "busy"; else if(is_error(*e)){ fprintf(stderr, "failed:\n"); DUMP(*e); r = "err"; } DROP_VAR(e); return r; }
int main(void){
    char line[2048]; if(mkdir("root", 0700) || mkdir("root/mail", 0700)) return 3; char cwd[400]; if(!getcwd(cwd, sizeof cwd)) return 3; snprintf(root, sizeof root, "%s/root/mail", cwd);
    setvbuf(stdout, NULL, _IOFBF, 1 << 20); logger_add_fileptr(LOG_LVL_ERROR, stderr);
    static dstr_t rd; DSTR_WRAP(rd, root, strlen(root), true); mail = SBD(rd); exts = (extensions_t){0};
    chk(dirmgr_init(&dm, mail, NULL));
    while(fgets(line, sizeof line, stdin)){
        char *w = strtok(line, " \n"); if(!w) continue;
        char *s1 = strtok(NULL, " \n"), *s2 = strtok(NULL, " \n");
        int i = s1 ? atoi(s1) : 0, n = s2 ? atoi(s2) : 0; const char *r = "ok"; int tok = 0;
        acc_t *a = &acc[i < NA ? i : 0]; for(int k = 0; k < NA; k++) acc[k].sched = 0;
        if(!strcmp(w, "valid")){ // the operand is in hex
            DSTR_VAR(bin, 1024); dstr_t h; DSTR_WRAP(h, s1 ? s1 : "", s1 ? strlen(s1) : 0, true); if(s1 && *s1 == '-') h.len = 0;
            chk(hex2bin(&h, &bin)); bool ok = dirmgr_name_valid(&bin);
            printf("{\"e\":\"valid\",\"name\":["); for(size_t k = 0; k < bin.len; k++) printf("%s%d", k ? "," : "", (unsigned char)bin.data[k]); printf("],\"ok\":%s}\n", ok ? "true" : "false"); continue; }
        else if(!strcmp(w, "dn") || !strcmp(w, "examine")){ dstr_t d = nm(n); memset(a, 0, sizeof *a); a->dn_cb.schedule = dsched; derr_t e = dirmgr_open_dn(&dm, &d, &a->dn, &a->dn_cb, &exts, *w == 'e'); r = res(&e); if(!strcmp(r, "ok")){ a->used = 1; a->n = n; } w = "open"; }
        else if(!strcmp(w, "up")){ dstr_t d = nm(n); memset(a, 0, sizeof *a); a->up_cb.schedule = usched; derr_t e = dirmgr_open_up(&dm, &d, &a->up, &a->up_cb, &exts); r = res(&e); if(!strcmp(r, "ok")){ a->used = 2; a->n = n; } w = "open"; }
        else if(!strcmp(w, "close")){ int u = a->used; a->used = 0; if(u == 1) dirmgr_close_dn(&dm, &a->dn); else dirmgr_close_up(&dm, &a->up); a->kicked = 0; }
        else if(!strcmp(w, "selno")){ derr_t e = imaildir_up_selected(mof(a), IE_ST_NO); r = res(&e); }
        else if(!strcmp(w, "hold")){ dstr_t d = nm(n); derr_t e = dirmgr_hold_new(&dm, &d, &hold[i].h); r = res(&e); hold[i].n = n; }
        else if(!strcmp(w, "unhold")){ dirmgr_hold_free(hold[i].h); hold[i].h = NULL; }
        else if(!strcmp(w, "put")){ // what an APPEND does at its end
            imaildir_t *m = NULL; derr_t e = dirmgr_hold_get_imaildir(hold[i].h, &m);
            if(!is_error(e)){ char p[700]; snprintf(p, sizeof p, "%s/tmp/x%d", root, ++token); tok = token; FILE *f = fopen(p, "w"); if(!f) return 3; int len = fprintf(f, "token %d\r\n", tok); fclose(f);
                dstr_t pd; DSTR_WRAP(pd, p, strlen(p), true); string_builder_t sb = SBD(pd);
                e = imaildir_add_local_file(m, &sb, 0, len, (imap_time_t){.year=2020,.month=1,.day=1}, (msg_flags_t){0}, NULL, NULL); }
            dirmgr_hold_release_imaildir(hold[i].h, &m); r = res(&e); }
        else if(!strcmp(w, "freeze")){ dstr_t d = nm(n); derr_t e = dirmgr_freeze_new(&dm, &d, &frz[i].z); r = res(&e); frz[i].n = n; }
        else if(!strcmp(w, "thaw")){ dirmgr_freeze_free(frz[i].z); frz[i].z = NULL; }
        else if(!strcmp(w, "delete")){ derr_t e = dirmgr_delete(&dm, frz[i].z); r = res(&e); }
        else if(!strcmp(w, "rename")){ derr_t e = dirmgr_rename(&dm, frz[i].z, frz[n].z); r = res(&e); }
        else if(!strcmp(w, "restart")){ dirmgr_free(&dm); chk(dirmgr_init(&dm, mail, NULL)); }
        else return 3;
        printf("{\"e\":\"%s\",\"i\":%d,\"n\":%d,\"r\":\"%s\",\"t\":%d,\"dn\":%s", w, i + 1, n + 1, r, tok, a->used == 1 ? "true" : "false");
        int woke[NA]; for(int k = 0; k < NA; k++) woke[k] = acc[k].sched;
        probe();
        printf(",\"woke\":["); for(int k = 0; k < NA; k++) printf("%s%d", k ? "," : "", woke[k]); printf("]}\n");
        (void)same;
    }
    fflush(stdout); _exit(0);
}
