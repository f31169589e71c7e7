// drives the real name server loop (server/dns/main.c) with mocked sockets and clock
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
#include "server/dns/libdns.h"
#include <stdio.h>
static xtime_t mnow;
static xtime_t mock_xtime(void){ return mnow; }
#define xtime mock_xtime
#define BUILD_TEST
#include "server/dns/main.c"
#undef xtime
#define MS 1000000ULL
static globals_t *g;
static bool recving = true;
static link_t sends;
static int np, nb;
static struct sockaddr_storage peers[8];
static unsigned char lastr[5000]; static size_t lastn; static int nsent; static membuf_t *lastm;
derr_t recv_start(uv_udp_t *u, uv_alloc_cb a, uv_udp_recv_cb b){ (void)u; (void)a; (void)b; recving = true; return E_OK; }
int recv_stop(uv_udp_t *u){ (void)u; recving = false; return 0; }
derr_t udp_send(uv_udp_send_t *req, uv_udp_t *udp, const uv_buf_t bufs[], unsigned int n, const struct sockaddr *dst, uv_udp_send_cb cb){
    derr_t e = E_OK;
    membuf_t *m = CONTAINER_OF(req, membuf_t, req);
    if(n != 1) printf("{\"e\":\"badsend\"}\n");
    req->handle = udp; req->cb = cb; req->bufsml[0] = bufs[0];
    if(!addr_eq(dst, ss2sa(&m->ss))) printf("{\"e\":\"baddst\"}\n");
    link_list_append(&sends, &m->link);
    lastm = m; lastn = bufs[0].len; memcpy(lastr, bufs[0].base, lastn); nsent++;
    return e; }
static void chk(derr_t e){ if(is_error(e)){ fprintf(stderr, "unexpected error\n"); DUMP(e); exit(3); } }
static struct sockaddr_storage addr(const char *a, unsigned port){ struct sockaddr_storage s; chk(read_addr(&s, a, port)); return s; }
static int unhex(const char *h, unsigned char *o){ int n = 0; if(*h == '-') return 0; for(; h[0] && h[1]; h += 2){ unsigned x; if(sscanf(h, "%2x", &x) != 1) break; o[n++] = (unsigned char)x; } return n; }
static void arr(const unsigned char *b, size_t n){ printf("["); for(size_t i = 0; i < n; i++) printf(i ? ",%u" : "%u", b[i]); printf("]"); }
static int peer_of(const struct sockaddr_storage *a){ for(int i = 0; i < np; i++) if(addrs_eq(a, &peers[i])) return i + 1; return 0; }
static unsigned long rs = 7;
static void pool(void){ int n = 0; for(link_t *l = g->membufs.next; l != &g->membufs; l = l->next) n++;
    printf("{\"e\":\"pool\",\"free\":%d,\"recv\":%s}\n", n, recving ? "true" : "false"); }
// one datagram arrives on a port; returns false if the port is not being read
static bool arrive(uv_udp_t *udp, struct sockaddr_storage *src, const unsigned char *b, size_t n, unsigned flags, bool nothing){
    if(!recving || g->closing){ printf("{\"e\":\"wait\"}\n"); return false; }
    uv_buf_t buf; allocator((uv_handle_t*)udp, 65536, &buf);
    if(!buf.base){ printf("{\"e\":\"nobuf\"}\n"); on_recv(udp, UV_ENOBUFS, &buf, NULL, 0); return false; }
    memcpy(buf.base, b, n);
    // whatever an earlier datagram left behind
    for(size_t i = n; i < MIN(n + 700, 4096); i++){ rs = rs*6364136223846793005UL + 1442695040888963407UL; buf.base[i] = (char)((rs >> 40) % 3 ? (rs >> 33) & 0x1f : (rs >> 33)); }
    nsent = 0; lastn = 0;
    if(nothing) on_recv(udp, 0, &buf, NULL, 0); else on_recv(udp, (ssize_t)n, &buf, ss2sa(src), flags);
    return true; }
static derr_t runloop(uv_loop_t *loop){
    derr_t e = E_OK;
    g = loop->data;
    // the timer which sends the first resync requests
    g->timer.timer_cb(&g->timer);
    { int i = 0; for(link_t *l = sends.next; l != &sends; l = l->next, i++){ membuf_t *m = CONTAINER_OF(l, membuf_t, link); dstr_t rb; kvp_ack_t ack;
        DSTR_WRAP(rb, m->resp, m->req.bufsml[0].len, false);
        if(!kvpsync_ack_read(rb, &ack) || ack.sync_id != g->recv[i].recv_id || ack.update_id || !addrs_eq(&m->ss, &peers[i])) printf("{\"e\":\"badresync\"}\n"); } }
    printf("{\"e\":\"init\",\"np\":%d,\"nb\":%d,\"now\":%d,\"rid\":[", np, nb, (int)(mnow/MS));
    for(int i = 0; i < np; i++) printf(i ? ",%d" : "%d", (int)(g->recv[i].recv_id = (uint32_t)(9000 + i)));
    printf("]}\n");
    static char line[40000]; static unsigned char b[9000];
    pool();
    while(fgets(line, sizeof(line), stdin)){
        fflush(stdout);
        char a[100], h[20000], ty[20], key[600], val[600]; int x, y; unsigned long s, u, r, ex, d;
        if(sscanf(line, "adv %d", &x) == 1){ mnow += (xtime_t)x * MS; printf("{\"e\":\"adv\",\"now\":%d}\n", (int)(mnow/MS)); }
        else if(sscanf(line, "q %99s %d %19999s", a, &x, h) == 3){
            struct sockaddr_storage src = addr(a, 5353); size_t n = (size_t)unhex(h, b);
            if(!arrive(&g->dns_udp, &src, b, n, 0, false)) continue;
            // the same datagram in a buffer of exactly its size
            char *cp = malloc(n + !n), *rp = malloc(4096); memcpy(cp, b, n);
            size_t rn = handle_packet(cp, n, &g->iface, rp, 4096);
            if(nsent && (rn != lastn || memcmp(rp, lastr, rn))) printf("{\"e\":\"mismatch\",\"n\":%d,\"m\":%d}\n", (int)rn, (int)lastn);
            free(cp); free(rp);
            if(nsent > 1 || (nsent && (!addrs_eq(&lastm->ss, &src) || (uv_udp_t*)lastm->req.handle != &g->dns_udp))) printf("{\"e\":\"misdirected\"}\n");
            printf("{\"e\":\"q\",\"px\":%d,\"q\":", x); arr(b, n); printf(",\"r\":"); arr(lastr, nsent ? lastn : 0); printf("}\n");
        }
        else if(sscanf(line, "up %99s %d %19s %lu %lu %lu %lu %599s %599s %lu %d", a, &x, ty, &s, &u, &r, &ex, key, val, &d, &y) == 11){
            // x = port; y = number of bytes to cut off
            struct sockaddr_storage src = addr(a, (unsigned)x);
            kvp_update_t up = {.ok_expiry = (xtime_t)ex * MS, .sync_id = (uint32_t)s, .update_id = (uint32_t)u, .resync_id = (uint32_t)r, .delete_id = (uint32_t)d};
            up.type = !strcmp(ty, "start") ? KVP_UPDATE_START : !strcmp(ty, "flush") ? KVP_UPDATE_FLUSH : !strcmp(ty, "insert") ? KVP_UPDATE_INSERT : !strcmp(ty, "delete") ? KVP_UPDATE_DELETE : KVP_UPDATE_EMPTY;
            up.klen = (uint8_t)unhex(key, (unsigned char*)up.key); up.vlen = (uint8_t)unhex(val, (unsigned char*)up.val);
            DSTR_VAR(w, 1024); chk(kvpsync_update_write(&up, &w));
            size_t n = w.len > (size_t)y ? w.len - (size_t)y : 0;
            if(!strcmp(ty, "junk")) w.data[16] = (char)(5 + u % 200);
            if(!arrive(&g->sync_udp, &src, (unsigned char*)w.data, n, 0, false)) continue;
            printf("{\"e\":\"up\",\"p\":%d,\"u\":{\"bad\":%s,\"ty\":\"%s\",\"sync\":%lu,\"upd\":%lu,\"resync\":%lu,\"exp\":%lu,\"del\":%lu,\"key\":", peer_of(&src), y || !strcmp(ty, "junk") ? "true" : "false", ty, s, u, r, ex, d);
            arr((unsigned char*)up.key, up.klen); printf(",\"val\":"); arr((unsigned char*)up.val, up.vlen); printf("},\"acks\":[");
            if(nsent){ dstr_t rb; DSTR_WRAP(rb, (char*)lastr, lastn, false); kvp_ack_t ack; bool ok = kvpsync_ack_read(rb, &ack) && lastn == 8 && (uv_udp_t*)lastm->req.handle == &g->sync_udp;
                printf("{\"p\":%d,\"sync\":%d,\"upd\":%d}", ok ? peer_of(&lastm->ss) : -1, (int)ack.sync_id, (int)ack.update_id); }
            printf("]}\n"); if(nsent > 1) printf("{\"e\":\"misdirected\"}\n");
        }
        else if(sscanf(line, "nothing %d", &x) == 1){ if(arrive(x ? &g->sync_udp : &g->dns_udp, NULL, b, 0, 0, true)) printf("{\"e\":\"nothing\"}\n"); }
        else if(sscanf(line, "partial %99s %d %19999s", a, &x, h) == 3){ struct sockaddr_storage src = addr(a, 5353); size_t n = (size_t)unhex(h, b);
            if(arrive(x ? &g->sync_udp : &g->dns_udp, &src, b, n, UV_UDP_PARTIAL, false)) printf("{\"e\":\"%s\"}\n", nsent ? "answeredpartial" : "nothing"); }
        else if(sscanf(line, "done %d %99s", &x, a) == 2){
            int st = !strcmp(a, "ok") ? 0 : !strcmp(a, "cancel") ? UV_ECANCELED : !strcmp(a, "dest") ? UV_EDESTADDRREQ : !strcmp(a, "nokey") ? -ENOKEY : UV_EIO;
            for(; x > 0 && !link_list_isempty(&sends); x--){
                link_t *l = link_list_pop_first(&sends); membuf_t *m = CONTAINER_OF(l, membuf_t, link);
                m->req.cb(&m->req, st);
                printf("{\"e\":\"done\",\"st\":\"%s\"}\n", st == UV_EIO ? "err" : "ok");
            }
            pool();
        }
        else if(!strncmp(line, "pool", 4)) pool();
    }
    pool();
    while(!link_list_isempty(&sends)){ link_t *l = link_list_pop_first(&sends); membuf_t *m = CONTAINER_OF(l, membuf_t, link); m->req.cb(&m->req, 0); printf("{\"e\":\"done\",\"st\":\"ok\"}\n"); }
    pool();
    DROP_VAR(&g->close_reason);
    if(!g->closing){ duv_udp_close(&g->dns_udp, noop_close_cb); duv_udp_close(&g->sync_udp, noop_close_cb); }
    chk(duv_run(loop));
    return e; }
int main(void){
    char line[1000]; int t;
    chk(logger_add_fileptr(getenv("DNSDEBUG") ? LOG_LVL_DEBUG : LOG_LVL_ERROR, stderr));
    if(!fgets(line, sizeof(line), stdin) || sscanf(line, "init %d %d %d", &np, &nb, &t) != 3) return 4;
    mnow = (xtime_t)t * MS; link_init(&sends);
    for(int i = 0; i < np; i++){ char a[40]; sprintf(a, "10.0.0.%d", 1 + i % 2); peers[i] = addr(a, 9001 + (unsigned)i); }
    dstr_t d1, d2; DSTR_STATIC(s1, "127.0.0.1:0"); DSTR_STATIC(s2, "127.0.0.1:0"); (void)d1; (void)d2;
    addrspec_t a1, a2; chk(parse_addrspec(&s1, &a1)); chk(parse_addrspec(&s2, &a2));
    derr_t e = dns_main(a1, NULL, NULL, a2, NULL, peers, (size_t)np, (size_t)nb);
    if(is_error(e)) DROP_VAR(&e);
    printf("{\"e\":\"exit\"}\n");
    return 0; }
