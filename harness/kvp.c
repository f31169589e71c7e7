// drives the real kvpsync sender and receiver over a scripted network; one JSON event per step
#include "server/libkvpsync/libkvpsync.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MS 1000000ULL
static xtime_t now;              // ns, always a multiple of 1ms
static kvpsync_send_t S;
static kvpsync_recv_t R;
static bool healthy, lazy;
static xtime_t deadline;

#define MAXN 100000
typedef struct { bool live; bool isack; char buf[1024]; size_t len; xtime_t sent; xtime_t due; long id; } pkt_t;
static pkt_t *net[MAXN]; static int nnet; static long npk;

// small names for random ids
static uint32_t sids[1024]; static int nsids; static uint32_t rids[1024]; static int nrids;
static int name_of(uint32_t *a, int *n, uint32_t x){
    if(!x) return 0;
    for(int i = 0; i < *n; i++) if(a[i] == x) return i+1;
    if(*n >= 1024) abort();
    a[(*n)++] = x; return *n;
}
static int sname(uint32_t x){ return name_of(sids, &nsids, x); }
static int rname(uint32_t x){ return name_of(rids, &nrids, x); }

static int gen; static int cbs[256]; static int ncbs; static int st = -1;
static void addcb(kvpsync_send_t *s, void *d){ (void)s; if(ncbs < 256) cbs[ncbs++] = (int)(size_t)d; }
static void stcb(kvpsync_send_t *s, bool ok, void *d){ (void)s; (void)d; printf("{\"e\":\"st\",\"ok\":%s}\n", ok?"true":"false"); }

static void push(bool isack, dstr_t d){
    pkt_t *p = calloc(1, sizeof(*p));
    p->live = true; p->isack = isack; memcpy(p->buf, d.data, d.len); p->len = d.len; p->sent = now; p->due = now + 10*MS; p->id = ++npk;
    if(nnet >= MAXN) abort();
    net[nnet++] = p;
}
static int tonum(const char *s, size_t n){ int x = 0; for(size_t i = 1; i < n; i++) x = x*10 + s[i]-'0'; return x; }
static const char *tyname(int t){
    switch(t){ case KVP_UPDATE_EMPTY: return "empty"; case KVP_UPDATE_FLUSH: return "flush"; case KVP_UPDATE_START: return "start";
        case KVP_UPDATE_INSERT: return "insert"; case KVP_UPDATE_DELETE: return "delete"; } return "?"; }
static void show(const kvp_update_t *u){
    bool ins = u->type == KVP_UPDATE_INSERT, del = u->type == KVP_UPDATE_DELETE;
    printf("\"ty\":\"%s\",\"sync\":%d,\"upd\":%u,\"rs\":%d,\"k\":%d,\"g\":%d,\"d\":%u,\"exp\":%lld", tyname(u->type), sname(u->sync_id), u->update_id,
        u->type == KVP_UPDATE_START ? rname(u->resync_id) : 0, (ins||del) ? tonum(u->key, u->klen) : 0,
        ins ? tonum(u->val, u->vlen) : 0, del ? u->delete_id : 0, (long long)(u->ok_expiry / MS));
}
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }

static void run_sender(void){
    for(int i = 0; i < 1000; i++){
        kvpsync_run_t r = kvpsync_send_run(&S, now);
        deadline = r.deadline;
        if(r.pkt){
            DSTR_VAR(buf, 1024);
            chk(kvpsync_update_write(r.pkt, &buf));
            // what goes on the wire is what a reader sees
            kvp_update_t u;
            if(!kvpsync_update_read(buf, &u)){ printf("{\"e\":\"badpkt\"}\n"); exit(0); }
            printf("{\"e\":\"send\","); show(&u); printf("}\n");
            push(false, buf);
        }else{
            printf("{\"e\":\"idle\",\"dl\":%lld}\n", (long long)((r.deadline + MS - 1) / MS));
        }
        if(!r.pkt && r.deadline > now) return;
        if(r.pkt && r.deadline > now) return;
        if(!r.pkt) { printf("{\"e\":\"spin\"}\n"); return; }
    }
    printf("{\"e\":\"spin\"}\n");
}
static void recv_boot(bool announce){
    kvpsync_recv_free(&R);
    chk(kvpsync_recv_init(&R));
    printf("{\"e\":\"rr\",\"rid\":%d}\n", rname(R.recv_id));
    if(announce){
        kvp_ack_t a = { .sync_id = R.recv_id, .update_id = 0 };
        DSTR_VAR(b, 64); chk(kvpsync_ack_write(&a, &b)); push(true, b);
    }
}
static void deliver(pkt_t *p){
    if(!p->isack){
        kvp_update_t u; dstr_t d; DSTR_WRAP(d, p->buf, p->len, false);
        if(!kvpsync_update_read(d, &u)){ printf("{\"e\":\"badpkt\"}\n"); exit(0); }
        bool pre = !R.initial_sync_acked;
        kvp_ack_t a; chk(kvpsync_recv_handle_update(&R, now, u, &a));
        // assumption: packets of earlier syncs do not arrive any more once a rebooted replica starts synchronising
        if(pre && R.initial_sync_acked) for(int i = 0; i < nnet; i++){
            kvp_update_t o; dstr_t od; DSTR_WRAP(od, net[i]->buf, net[i]->len, false);
            if(!net[i]->isack && kvpsync_update_read(od, &o) && sname(o.sync_id) < sname(u.sync_id)) net[i]->live = false;
        }
        bool rs = a.update_id == 0;
        printf("{\"e\":\"deliver\","); show(&u); printf(",\"as\":%d,\"au\":%u}\n", rs ? rname(a.sync_id) : sname(a.sync_id), a.update_id);
        DSTR_VAR(b, 64); chk(kvpsync_ack_write(&a, &b)); push(true, b);
    }else{
        kvp_ack_t a; dstr_t d; DSTR_WRAP(d, p->buf, p->len, false);
        if(!kvpsync_ack_read(d, &a)){ printf("{\"e\":\"badpkt\"}\n"); exit(0); }
        bool rs = a.update_id == 0;
        ncbs = 0;
        printf("{\"e\":\"ack\",\"as\":%d,\"au\":%u}\n", rs ? rname(a.sync_id) : sname(a.sync_id), a.update_id);
        kvpsync_send_handle_ack(&S, a, now);
        for(int i = 0; i < ncbs; i++) printf("{\"e\":\"cb\",\"g\":%d}\n", cbs[i]);
        printf("{\"e\":\"ackend\"}\n");
        if(!lazy) run_sender();
    }
}
static void reap(void){
    int j = 0;
    for(int i = 0; i < nnet; i++){
        // nothing survives in the network for more than 200 seconds
        if(!net[i]->live || net[i]->sent + 200000*MS < now){ free(net[i]); continue; }
        net[j++] = net[i];
    }
    nnet = j;
}
static pkt_t *pick(int which){ reap(); if(!nnet) return NULL; return net[((which % nnet) + nnet) % nnet]; }
static void query(int k){
    char kb[32]; sprintf(kb, "k%d", k); dstr_t key; DSTR_WRAP(key, kb, strlen(kb), true);
    const dstr_t *v = kvpsync_recv_get_value(&R, now, key);
    int r = v == UNSURE ? -1 : v == NULL ? 0 : tonum(v->data, v->len);
    printf("{\"e\":\"q\",\"k\":%d,\"r\":%d}\n", k, r);
}
static void settime(xtime_t t){ if(t <= now) return; now = t; printf("{\"e\":\"adv\",\"now\":%lld}\n", (long long)(now/MS)); }
static void adv(xtime_t d){
    xtime_t end = now + d;
    while(true){
        xtime_t nxt = end; 
        xtime_t dl = ((deadline + MS - 1)/MS)*MS;
        if(!lazy && dl < nxt) nxt = dl;
        if(healthy){ reap(); for(int i = 0; i < nnet; i++) if(net[i]->due < nxt) nxt = net[i]->due; }
        if(nxt < now) nxt = now;
        settime(nxt);
        bool did = false;
        if(healthy){
            for(int i = 0; i < nnet; i++) if(net[i]->live && net[i]->due <= now){
                pkt_t *p = net[i]; p->live = false; deliver(p); did = true; break; }
        }
        if(!did && !lazy && dl <= now){ run_sender(); did = true;
            if(((deadline + MS - 1)/MS)*MS <= now) { printf("{\"e\":\"spin\"}\n"); exit(0); } }
        if(!did && now >= end) return;
    }
}
int main(int argc, char **argv){
    (void)argc; (void)argv;
    setvbuf(stdout, NULL, _IOFBF, 1<<20);
    logger_add_fileptr(LOG_LVL_FATAL, stderr);
    now = 100000*MS;
    chk(kvpsync_send_init(&S, now, stcb, NULL));
    printf("{\"e\":\"sr\",\"now\":%lld}\n", (long long)(now/MS));
    recv_boot(true);
    run_sender();
    char line[256];
    while(fgets(line, sizeof line, stdin)){
        char op[32]; int a = 0, b = 0; op[0] = 0;
        int n = sscanf(line, "%31s %d %d", op, &a, &b); if(n < 1) continue; (void)n;
        pkt_t *p;
        if(!strcmp(op, "add")){
            char kb[32], vb[32]; sprintf(kb, "k%d", a); sprintf(vb, "v%d", ++gen);
            dstr_t key, val; DSTR_WRAP(key, kb, strlen(kb), true); DSTR_WRAP(val, vb, strlen(vb), true);
            printf("{\"e\":\"add\",\"k\":%d,\"g\":%d}\n", a, gen);
            kvpsync_send_add_key(&S, now, key, val, addcb, (void*)(size_t)gen);
            if(!lazy) run_sender();
        }else if(!strcmp(op, "del")){
            char kb[32]; sprintf(kb, "k%d", a); dstr_t key; DSTR_WRAP(key, kb, strlen(kb), true);
            printf("{\"e\":\"del\",\"k\":%d}\n", a);
            kvpsync_send_delete_key(&S, key);
            if(!lazy) run_sender();
        }else if(!strcmp(op, "adv")) adv((xtime_t)a*MS);
        else if(!strcmp(op, "dlv")){ if((p = pick(a))){ p->live = false; deliver(p); } }
        else if(!strcmp(op, "dup")){ if((p = pick(a))) deliver(p); }
        else if(!strcmp(op, "drop")){ if((p = pick(a))) p->live = false; }
        else if(!strcmp(op, "dropall")){ for(int i = 0; i < nnet; i++) net[i]->live = false; }
        else if(!strcmp(op, "q")) query(a);
        else if(!strcmp(op, "rr")) recv_boot(b == 0);
        else if(!strcmp(op, "sr")){
            kvpsync_send_free(&S); chk(kvpsync_send_init(&S, now, stcb, NULL));
            printf("{\"e\":\"sr\",\"now\":%lld}\n", (long long)(now/MS));
            // acks for the old process are lost with it
            for(int i = 0; i < nnet; i++) if(net[i]->isack) net[i]->live = false;
            lazy = false;
            run_sender();
        }else if(!strcmp(op, "lazy")){ lazy = a; if(!lazy) run_sender(); }
        else if(!strcmp(op, "heal")){
            healthy = true; lazy = false; reap(); for(int i = 0; i < nnet; i++) net[i]->due = now + 10*MS;
            printf("{\"e\":\"heal\"}\n"); run_sender();
            adv((xtime_t)a*MS);
        }else if(!strcmp(op, "end")){
            for(int k = 1; k <= a; k++) query(k);
            query(99);
            printf("{\"e\":\"end\"}\n");
        }
    }
    kvpsync_send_free(&S); kvpsync_recv_free(&R);
    return 0;
}
