// drives the real containers of libdstr; one JSON event per operation
#include "libdstr/libdstr.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define N 600
#define NL 4
typedef struct { int id; hash_elem_t he; jsw_anode_t an; int key; hnode_t hn; int prio; link_t ln; } el_t;
DEF_CONTAINER_OF(el_t, he, hash_elem_t)
DEF_CONTAINER_OF(el_t, an, jsw_anode_t)
DEF_CONTAINER_OF(el_t, hn, hnode_t)
DEF_CONTAINER_OF(el_t, ln, link_t)
static el_t E[N]; static hashmap_t M; static jsw_atree_t T; static heap_t H; static link_t L[NL];
static dstr_t KS[N]; static char kb[N][24];
static const void *tget(const jsw_anode_t *n){ return &CONTAINER_OF(n, el_t, an)->key; }
static const void *hget(const hnode_t *n){ return &CONTAINER_OF(n, el_t, hn)->prio; }
static int hid(hash_elem_t *e){ return e ? CONTAINER_OF(e, el_t, he)->id : -1; }
static int tid(jsw_anode_t *e){ return e ? CONTAINER_OF(e, el_t, an)->key : -1; }
static int nid(hnode_t *e){ return e ? CONTAINER_OF(e, el_t, hn)->id : -1; }
static int lid(link_t *e){ return e ? CONTAINER_OF(e, el_t, ln)->id : -1; }
// keys: 0..9999 numbers, 10000+i strings (the first few share one hash)
static unsigned ukey(int k){ return (unsigned)k * (k % 3 ? 1u : 2654435761u); }
static const dstr_t *skey(int k){ return &KS[k - 10000]; }
static int alt(const void *a, const void *b){ return jsw_cmp_int(a, b); }
static void reset(int max){
    static bool was; if(was) hashmap_free(&M);
    was = true;
    memset(E, 0, sizeof E); memset(L, 0, sizeof L);
    for(int i = 0; i < N; i++){ E[i].id = i; E[i].key = i; }
    derr_t e = hashmap_init(&M); if(is_error(e)) exit(3);
    jsw_ainit(&T, jsw_cmp_int, tget); heap_prep(&H, jsw_cmp_int, hget, max);
}
static char buf[1<<16]; static char *sp;
static bool more(void){ while(*sp == ' ') sp++; return *sp && *sp != '\n'; }
static int num(void){ return (int)strtol(sp, &sp, 10); }
static bool first;
static void put(int x){ printf(first ? "%d" : ",%d", x); first = false; }
int main(void){
    for(int i = 0; i < N; i++){
        // djb2-xor collisions: "ab" style pairs of two characters with 33*a ^ b equal
        if(i < 8) snprintf(kb[i], sizeof kb[i], "%c%c", (char)(0x40 + i), (char)(((33*0x40) ^ 0x20 ^ (33*(0x40+i))) & 0x7f));
        else snprintf(kb[i], sizeof kb[i], "key-%d", i);
        KS[i] = (dstr_t){ .data = kb[i], .len = strlen(kb[i]), .size = sizeof kb[i], .fixed_size = true };
    }
    reset(0);
    while(fgets(buf, sizeof buf, stdin)){
        char op[8]; int n = 0; sp = buf;
        if(sscanf(sp, "%7s%n", op, &n) != 1) continue;
        sp += n; first = true;
        #define IS(s) (!strcmp(op, s))
        if(IS("new")){ int m = num(); reset(m); printf("{\"e\":\"new\",\"max\":%d}\n", m); }
        else if(IS("ms") || IS("mu")){
            int k = num(), x = num();
            if(E[x].he.next){ printf("{\"e\":\"mbusy\",\"x\":%d}\n", x); continue; }
            if(IS("ms")){
                hash_elem_t *o = k < 10000 ? hashmap_setu(&M, ukey(k), &E[x].he) : hashmap_sets(&M, skey(k), &E[x].he);
                printf("{\"e\":\"ms\",\"k\":%d,\"x\":%d,\"r\":%d}\n", k, x, hid(o));
            }else{
                derr_t e = k < 10000 ? hashmap_setu_unique(&M, ukey(k), &E[x].he) : hashmap_sets_unique(&M, skey(k), &E[x].he);
                bool ok = !is_error(e); DROP_VAR(&e);
                printf("{\"e\":\"mu\",\"k\":%d,\"x\":%d,\"r\":%d}\n", k, x, ok);
            }
        }
        else if(IS("mg")){ int k = num(); printf("{\"e\":\"mg\",\"k\":%d,\"r\":%d}\n", k, hid(k < 10000 ? hashmap_getu(&M, ukey(k)) : hashmap_gets(&M, skey(k)))); }
        else if(IS("md")){ int k = num(); printf("{\"e\":\"md\",\"k\":%d,\"r\":%d}\n", k, hid(k < 10000 ? hashmap_delu(&M, ukey(k)) : hashmap_dels(&M, skey(k)))); }
        else if(IS("mr")){ int x = num(); hash_elem_remove(&E[x].he); printf("{\"e\":\"mr\",\"x\":%d}\n", x); }
        else if(IS("mi")){   // iterate, removing the named ones as they come by
            static char rm[N]; memset(rm, 0, sizeof rm); while(more()) rm[num()] = 1;
            hashmap_trav_t t; printf("{\"e\":\"mi\",\"got\":["); int cnt = 0;
            for(hash_elem_t *h = hashmap_iter(&t, &M); h && cnt < 2*N; h = hashmap_next(&t), cnt++){ int x = hid(h); put(x); if(rm[x]){ hash_elem_remove(h); rm[x] = 2; } }
            printf("],\"rm\":["); first = true;
            for(int i = 0; i < N; i++) if(rm[i] == 2) put(i);
            printf("]}\n");
        }
        else if(IS("mp")){
            int m = num(); hashmap_trav_t t; printf("{\"e\":\"mp\",\"n\":%d,\"got\":[", m);
            for(int i = 0; i < m; i++){ hash_elem_t *h = i ? hashmap_pop_next(&t) : hashmap_pop_iter(&t, &M); if(!h) break; put(hid(h)); }
            printf("]}\n");
        }
        else if(IS("ti")){ int k = num(); jsw_ainsert(&T, &E[k].an); printf("{\"e\":\"ti\",\"k\":%d,\"n\":%zu}\n", k, jsw_asize(&T)); }
        else if(IS("te")){ int k = num(); int r = tid(jsw_aerase(&T, &k)); printf("{\"e\":\"te\",\"k\":%d,\"r\":%d,\"n\":%zu}\n", k, r, jsw_asize(&T)); }
        else if(IS("tf") || IS("tx")){ int k = num(); size_t i = 77777; jsw_anode_t *a = IS("tf") ? jsw_afind(&T, &k, &i) : jsw_afind_ex(&T, alt, &k, &i);
            printf("{\"e\":\"tf\",\"k\":%d,\"r\":%d,\"i\":%d}\n", k, tid(a), a ? (int)i : -1); }
        else if(IS("tp")){ printf("{\"e\":\"tp\",\"r\":%d}\n", tid(jsw_apop(&T))); }
        else if(IS("tn")){ int i = num(); printf("{\"e\":\"tn\",\"i\":%d,\"r\":%d}\n", i, tid(jsw_aindex(&T, (size_t)i))); }
        else if(IS("tt")){   // walk: start, then moves; stops at the end
            int from = num(); while(*sp == ' ') sp++;
            jsw_atrav_t t; jsw_anode_t *a = from == -1 ? jsw_atfirst(&t, &T) : from == -2 ? jsw_atlast(&t, &T) : jsw_atnode(&t, &T, &E[from].an);
            printf("{\"e\":\"tt\",\"from\":%d,\"mv\":[", from);
            static int got[1<<16]; int ng = 0; got[ng++] = tid(a);
            for(; a && *sp && *sp != '\n'; sp++){
                switch(*sp){ case 'n': put(1); a = jsw_atnext(&t); break; case 'p': put(-1); a = jsw_atprev(&t); break;
                    case 'N': put(2); a = jsw_pop_atnext(&t); break; case 'P': put(-2); a = jsw_pop_atprev(&t); break; }
                got[ng++] = tid(a);
            }
            printf("],\"got\":["); first = true; for(int i = 0; i < ng; i++) put(got[i]); printf("],\"n\":%zu}\n", jsw_asize(&T));
        }
        else if(IS("hp")){ int x = num(), p = num(); if(E[x].hn.parent){ printf("{\"e\":\"hbusy\",\"x\":%d}\n", x); continue; }
            E[x].prio = p; heap_put(&H, &E[x].hn); printf("{\"e\":\"hp\",\"x\":%d,\"p\":%d}\n", x, p); }
        else if(IS("hk")) printf("{\"e\":\"hk\",\"r\":%d}\n", nid(heap_peek(&H)));
        else if(IS("ho")) printf("{\"e\":\"ho\",\"r\":%d}\n", nid(heap_pop(&H)));
        else if(IS("hr")){ int x = num(); hnode_remove(&E[x].hn); printf("{\"e\":\"hr\",\"x\":%d}\n", x); }
        else if(IS("la") || IS("lp")){ int l = num(), x = num(); link_t *k = &E[x].ln;
            if(k->next && k->next != k){ printf("{\"e\":\"lbusy\",\"x\":%d}\n", x); continue; }
            if(IS("la")) link_list_append(&L[l], k); else link_list_prepend(&L[l], k);
            printf("{\"e\":\"%s\",\"l\":%d,\"x\":%d}\n", op, l, x); }
        else if(IS("lA") || IS("lP")){ int l = num(), d = num(); if(IS("lA")) link_list_append_list(&L[l], &L[d]); else link_list_prepend_list(&L[l], &L[d]);
            printf("{\"e\":\"%s\",\"l\":%d,\"d\":%d}\n", op, l, d); }
        else if(IS("lf") || IS("ll")){ int l = num(); printf("{\"e\":\"%s\",\"l\":%d,\"r\":%d}\n", op, l, lid(IS("lf") ? link_list_pop_first(&L[l]) : link_list_pop_last(&L[l]))); }
        else if(IS("lr")){ int x = num(); link_remove(&E[x].ln); printf("{\"e\":\"lr\",\"x\":%d}\n", x); }
        else if(IS("lc")){ int l = num(); printf("{\"e\":\"lc\",\"l\":%d,\"r\":%zu,\"empty\":%s}\n", l, link_list_count(&L[l]), link_list_isempty(&L[l]) ? "true" : "false"); }
        else if(IS("li")){ int l = num(); static char rm[N]; memset(rm, 0, sizeof rm); while(more()) rm[num()] = 1;
            el_t *x, *t; printf("{\"e\":\"li\",\"l\":%d,\"got\":[", l); int cnt = 0;
            if(!L[l].next) link_init(&L[l]);
            LINK_FOR_EACH_SAFE(x, t, &L[l], el_t, ln){ if(cnt++ > 2*N) break; put(x->id); if(rm[x->id]){ link_remove(&x->ln); rm[x->id] = 2; } }
            printf("],\"rm\":["); first = true;
            for(int i = 0; i < N; i++) if(rm[i] == 2) put(i);
            printf("]}\n"); }
        else if(IS("ln")){ int last = num(); _link_io_t io[8]; link_t *o[8]; int m = 0, ls[8];
            while(more() && m < 8){ ls[m] = num(); o[m] = NULL; io[m] = LINK_IO(&L[ls[m]], &o[m]); m++; }
            bool ok = last ? _link_list_pop_last_n(io, (size_t)m) : _link_list_pop_first_n(io, (size_t)m);
            printf("{\"e\":\"ln\",\"last\":%d,\"ok\":%s,\"ls\":[", last, ok ? "true" : "false"); for(int i = 0; i < m; i++) put(ls[i]);
            printf("],\"got\":["); first = true; for(int i = 0; i < m; i++) put(lid(o[i])); printf("]}\n"); }
    }
    return 0;
}
