// drives the real challenge publication service with real replicas behind a scripted network
#include "server/kvpsend/kvpsend.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MS 1000000ULL
#define NN 6
static xtime_t now;
static int NP = 2;
static kvpsend_t K;
static kvpsend_i I;
static int db[NN+1];
static unsigned long rngs = 1;
static unsigned rnd(void){ rngs = rngs * 6364136223846793005UL + 1442695040888963407UL; return (unsigned)(rngs >> 33); }
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }

typedef struct { bool live, isack; int p; char buf[1024]; size_t len; xtime_t due; } pkt_t;
static pkt_t *net[100000]; static int nnet;
typedef struct {
    kvpsync_recv_t R; bool up; int lat, wl;
    bool writing; xtime_t wdue; char wbuf[1024]; size_t wlen;
    xtime_t timer;
    uint32_t sync, resync; struct { char ty; int n, c; bool acked; } upd[20000]; 
} peer_t;
static peer_t P[MAX_PEERS];
static xtime_t scan_t = XTIME_MAX, tmo_t = XTIME_MAX;
typedef struct { int i; subscriber_t sub; } S_t;
DEF_CONTAINER_OF(S_t, sub, subscriber_t)
static S_t subs[2000]; static int nsubs;

static int num(const char *s, size_t n){ int x = 0; for(size_t i = 1; i < n; i++) x = x*10 + s[i]-'0'; return x; }
static void begin(const char *k, int i, int n, int c){ printf("{\"e\":\"begin\",\"k\":\"%s\",\"i\":%d,\"n\":%d,\"c\":%d}\n", k, i, n, c); }
static void end(void){
    printf("{\"e\":\"end\"}\n");
}
// names are listed in the order the database would
static void name(int n, char *b){ static const char *v[NN+1] = {"", "n1", "n2", "n30000000000000000000000000000003", "n4", "n5", "n6"}; (void)v; sprintf(b, "n%d", n); }
static void chal(int c, char *b){ sprintf(b, "c%d", c); }

static void i_scan(kvpsend_i *i, xtime_t d){ (void)i; scan_t = d; }
static void i_tstart(kvpsend_i *i, xtime_t d){ (void)i; tmo_t = d; }
static void i_tstop(kvpsend_i *i){ (void)i; tmo_t = XTIME_MAX; }
static void i_close(kvpsend_i *i, subscriber_t *s){ (void)i; printf("{\"e\":\"x\",\"i\":%d}\n", CONTAINER_OF(s, S_t, sub)->i); }
static int hcn; static char hcb[32];
static void i_resp(kvpsend_i *i, subscriber_t *s, dstr_t m){ (void)i;
    if(!CONTAINER_OF(s, S_t, sub)->i){ hcn = (int)m.len; memcpy(hcb, m.data, m.len); return; }
    if(m.len != 1 || (m.data[0] != 'k' && m.data[0] != 't')){ printf("{\"e\":\"badresp\"}\n"); return; }
    printf("{\"e\":\"%c\",\"i\":%d}\n", m.data[0], CONTAINER_OF(s, S_t, sub)->i); }
static derr_t i_send(kvpsend_i *i, sender_t *s, const kvp_update_t *u){ (void)i; derr_t e = E_OK;
    int p = (int)(s - K.senders); peer_t *q = &P[p];
    if(q->writing){ printf("{\"e\":\"doublewrite\"}\n"); }
    DSTR_VAR(b, 1024); chk(kvpsync_update_write(u, &b));
    q->writing = true; q->wdue = now + q->wl*MS; memcpy(q->wbuf, b.data, b.len); q->wlen = b.len;
    if(u->sync_id != q->sync){ q->sync = u->sync_id; memset(q->upd, 0, sizeof(q->upd)); }
    if(u->update_id < 20000){ q->upd[u->update_id].ty = u->type == KVP_UPDATE_INSERT ? 'i' : 'o';
        if(u->type == KVP_UPDATE_INSERT){ q->upd[u->update_id].n = num(u->key, u->klen); q->upd[u->update_id].c = num(u->val, u->vlen); } }
    return e; }
static void i_ststart(kvpsend_i *i, sender_t *s, xtime_t d){ (void)i; P[s - K.senders].timer = d; }
static void i_ststop(kvpsend_i *i, sender_t *s){ (void)i; P[s - K.senders].timer = XTIME_MAX; }
static int itn; static char itb[2][64];
static void it_fill(challenge_iter_t *it){
    for(itn++; itn <= NN; itn++) if(db[itn]){
        name(itn, itb[0]); chal(db[itn], itb[1]);
        DSTR_WRAP(it->subdomain, itb[0], strlen(itb[0]), true); DSTR_WRAP(it->challenge, itb[1], strlen(itb[1]), true);
        it->ok = true; return; }
    it->ok = false; }
static derr_t i_first(kvpsend_i *i, challenge_iter_t *it){ (void)i; derr_t e = E_OK; *it = (challenge_iter_t){0}; itn = 0; it_fill(it); return e; }
static derr_t i_next(kvpsend_i *i, challenge_iter_t *it){ (void)i; derr_t e = E_OK; it_fill(it); return e; }
static void i_free(kvpsend_i *i, challenge_iter_t *it){ (void)i; it->ok = false; }
static derr_t i_get(kvpsend_i *i, const dstr_t u, dstr_t *sd, bool *sok, dstr_t *ch, bool *cok){ (void)i; derr_t e = E_OK;
    int n = num(u.data, u.len); char b[64];
    *sok = n > 0; *cok = false; if(!n) return e;
    name(n, b); dstr_t d; DSTR_WRAP(d, b, strlen(b), true); chk(dstr_append(sd, &d));
    if(db[n]){ *cok = true; chal(db[n], b); DSTR_WRAP(d, b, strlen(b), true); chk(dstr_append(ch, &d)); }
    return e; }

static recv_state_cb orig_cb;
static void st_cb(kvpsync_send_t *s, bool ok, void *data){
    sender_t *x = CONTAINER_OF(s, sender_t, send);
    printf("{\"e\":\"st\",\"p\":%d,\"ok\":%s}\n", (int)(x - K.senders) + 1, ok ? "true" : "false");
    orig_cb(s, ok, data); }
static void push(int p, bool isack, const char *b, size_t n, int lat){
    if(!P[p].up || nnet >= 100000) return;
    pkt_t *k = calloc(1, sizeof(*k)); k->live = true; k->p = p; k->isack = isack; memcpy(k->buf, b, n); k->len = n; k->due = now + lat*MS; net[nnet++] = k; }
static void hc(void){
    S_t h = {0}; hcn = -1; healthcheck_read_cb(&K, &h.sub);
    if(hcn != NP + 1) { printf("{\"e\":\"badhc\"}\n"); return; }
    printf("{\"e\":\"hc\",\"h\":["); bool f = true; for(int i = 0; i < NP; i++) if(hcb[i] == 'y'){ printf("%s%d", f ? "" : ",", i + 1); f = false; } printf("]}\n"); }
static void boot(int p){
    kvpsync_recv_free(&P[p].R); chk(kvpsync_recv_init(&P[p].R));
    kvp_ack_t a = { .sync_id = P[p].R.recv_id, .update_id = 0 }; DSTR_VAR(b, 64); chk(kvpsync_ack_write(&a, &b)); push(p, true, b.data, b.len, P[p].lat); }
static void deliver(pkt_t *k){
    peer_t *q = &P[k->p]; dstr_t d; DSTR_WRAP(d, k->buf, k->len, false);
    if(!k->isack){
        kvp_update_t u; if(!kvpsync_update_read(d, &u)){ printf("{\"e\":\"badpkt\"}\n"); return; }
        kvp_ack_t a; chk(kvpsync_recv_handle_update(&q->R, now, u, &a));
        DSTR_VAR(b, 64); chk(kvpsync_ack_write(&a, &b)); push(k->p, true, b.data, b.len, q->lat);
    }else{
        kvp_ack_t a; if(!kvpsync_ack_read(d, &a)){ printf("{\"e\":\"badpkt\"}\n"); return; }
        begin("recv", 0, 0, 0);
        if(a.update_id == 0 && a.sync_id != q->resync){ q->resync = a.sync_id; q->sync = 0; printf("{\"e\":\"rs\",\"p\":%d}\n", k->p + 1); }
        else if(a.update_id && a.sync_id == q->sync && a.update_id < 20000 && !q->upd[a.update_id].acked){
            q->upd[a.update_id].acked = true;
            printf("{\"e\":\"ack\",\"p\":%d,\"n\":%d,\"c\":%d}\n", k->p + 1, q->upd[a.update_id].n, q->upd[a.update_id].c);
        }else printf("{\"e\":\"ack\",\"p\":%d,\"n\":0,\"c\":0}\n", k->p + 1);
        chk(sender_recv_cb(&K, &K.senders[k->p], a, now));
        end();
    }
}
static void reap(void){ int j = 0; for(int i = 0; i < nnet; i++){ if(net[i]->live) net[j++] = net[i]; else free(net[i]); } nnet = j; }
// everything that is due now, in any order
static bool one(void){
    int c[256], n = 0;
    if(scan_t <= now) c[n++] = -1;
    if(tmo_t <= now) c[n++] = -2;
    for(int p = 0; p < NP; p++){ if(P[p].timer <= now) c[n++] = -10-p; if(P[p].writing && P[p].wdue <= now) c[n++] = -30-p; }
    for(int i = 0; i < nnet && n < 200; i++) if(net[i]->live && net[i]->due <= now) c[n++] = i;
    if(!n) return false;
    int x = c[rnd() % (unsigned)n];
    if(x == -1){ scan_t = XTIME_MAX; begin("scan", 0, 0, 0); chk(scan_timer_cb(&K, now)); end(); }
    else if(x == -2){ tmo_t = XTIME_MAX; begin("tmo", 0, 0, 0); chk(timeout_timer_cb(&K, now)); end(); }
    else if(x <= -30){ int p = -30 - x; P[p].writing = false; push(p, false, P[p].wbuf, P[p].wlen, P[p].lat);
        begin("sent", 0, 0, 0); chk(sender_send_cb(&K, &K.senders[p], now)); end(); }
    else if(x <= -10){ int p = -10 - x; P[p].timer = XTIME_MAX; begin("timer", 0, 0, 0); chk(sender_timer_cb(&K, &K.senders[p], now)); end(); }
    else { net[x]->live = false; deliver(net[x]); reap(); }
    return true; }
static xtime_t up_ms(xtime_t t){ return t == XTIME_MAX ? t : (t + MS - 1)/MS*MS; }
static void adv(xtime_t d){
    xtime_t endt = now + d; int spin = 0;
    while(true){
        while(one()) if(++spin > 200000){ printf("{\"e\":\"spin\"}\n"); exit(0); }
        if(now >= endt) return;
        xtime_t t = endt;
        t = MIN(t, up_ms(scan_t)); t = MIN(t, up_ms(tmo_t));
        for(int p = 0; p < NP; p++){ t = MIN(t, up_ms(P[p].timer)); if(P[p].writing) t = MIN(t, P[p].wdue); }
        for(int i = 0; i < nnet; i++) if(net[i]->live) t = MIN(t, net[i]->due);
        if(t > now){ now = t; printf("{\"e\":\"adv\",\"now\":%lld}\n", (long long)(now/MS)); }
    }
}
int main(void){
    setvbuf(stdout, NULL, _IOFBF, 1<<20);
    logger_add_fileptr(LOG_LVL_FATAL, stderr);
    now = 100000*MS;
    I = (kvpsend_i){ i_scan, i_tstart, i_tstop, i_close, i_resp, i_send, i_ststart, i_ststop, i_first, i_next, i_free, i_get };
    char line[256]; bool started = false;
    printf("{\"e\":\"start\",\"now\":%lld}\n", (long long)(now/MS));
    while(fgets(line, sizeof line, stdin)){
        char op[32]; int a = 0, b = 0, c = 0; op[0] = 0; if(sscanf(line, "%31s %d %d %d", op, &a, &b, &c) < 1) continue;
        if(!strcmp(op, "peers")) NP = a;
        else if(!strcmp(op, "seed")) rngs = (unsigned long)a * 2654435761UL + 1;
        else if(!strcmp(op, "db")){ db[a] = b; printf("{\"e\":\"db\",\"n\":%d,\"c\":%d}\n", a, b); }
        else if(!strcmp(op, "go")){
            struct sockaddr_storage ss[MAX_PEERS]; memset(ss, 0, sizeof ss);
            for(int p = 0; p < NP; p++){ P[p].lat = 10; P[p].timer = XTIME_MAX; chk(kvpsync_recv_init(&P[p].R)); }
            begin("scan", 0, 0, 0); chk(kvpsend_init(&K, &I, now, ss, (size_t)NP)); end();
            for(int p = 0; p < NP; p++){ orig_cb = K.senders[p].send.state_cb; K.senders[p].send.state_cb = st_cb; }
            begin("init", 0, 0, 0); chk(initial_actions(&K, now)); end(); started = true;
        }else if(!started) continue;
        else if(!strcmp(op, "up")) P[(a-1) % NP].up = b;
        else if(!strcmp(op, "lat")) P[(a-1) % NP].lat = b;
        else if(!strcmp(op, "wl")) P[(a-1) % NP].wl = b;
        else if(!strcmp(op, "boot")) boot((a-1) % NP);
        else if(!strcmp(op, "sub")){
            S_t *s = &subs[nsubs]; s->i = ++nsubs; if(nsubs >= 1999) exit(0);
            char u[16], v[16]; sprintf(u, "u%d", a); sprintf(v, "c%d", b);
            dstr_t du, dv; DSTR_WRAP(du, u, strlen(u), true); DSTR_WRAP(dv, v, strlen(v), true);
            begin("sub", s->i, a, b); chk(subscriber_read_cb(&K, &s->sub, du, dv, now)); end();
        }else if(!strcmp(op, "adv")) adv(a*MS);
        else if(!strcmp(op, "hc")) hc();
        else if(!strcmp(op, "conv")){
            for(int p = 0; p < NP; p++){ P[p].up = true; P[p].lat = 10; P[p].wl = 0; boot(p); }
            adv(60000*MS); hc();
            for(int p = 0; p < NP; p++) for(int n = 1; n <= NN; n++){
                char kb[64]; name(n, kb); dstr_t key; DSTR_WRAP(key, kb, strlen(kb), true);
                const dstr_t *v = kvpsync_recv_get_value(&P[p].R, now, key);
                printf("{\"e\":\"q\",\"p\":%d,\"n\":%d,\"r\":%d}\n", p+1, n, v == UNSURE ? -1 : v == NULL ? 0 : num(v->data, v->len)); }
        }else if(!strcmp(op, "free")){ begin("free", 0, 0, 0); kvpsend_free(&K); end(); return 0; }
    }
    return 0;
}
