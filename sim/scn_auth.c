/* P03: who is let in.  Also the tunnel half of P13. */
#include "world.h"
#include <arpa/inet.h>

static int configured(const unsigned char *key) {
    char k[17]; memcpy(k, key, 16); k[16] = 0;
    for (int i = 0; i < W.nkeys; i++) if (!strcmp(W.keys[i], k)) return 1;
    return 0;
}
static void set_key(unsigned char *auth, const char *k, int n) { memset(auth + 4, 0, 16); memcpy(auth + 4, k, n > 16 ? 16 : n); }
/* a key that is close to the configured ones but, unless by accident, not one of them */
static const char *near_key(unsigned char *a) {
    const char *k = W.keys[choose(W.nkeys)]; int n = (int)strlen(k); char b[80];
    switch (choose(10)) {
    case 0: set_key(a, k, n > 1 ? 1 + (int)choose(n - 1) : 0); return "prefix";
    case 1: { int c = n > 1 ? 1 + (int)choose(n - 1) : 1; set_key(a, k + c, n - c); return "suffix"; }
    case 2: snprintf(b, sizeof b, "%s%c", k, "abx0"[choose(4)]); set_key(a, b, (int)strlen(b)); return "longer";
    case 3: snprintf(b, sizeof b, "%c%s", "abx0"[choose(4)], k); set_key(a, b, (int)strlen(b)); return "shifted";
    case 4: { memcpy(b, k, n); b[choose(n)] ^= 1 << choose(8); int z = 0; while (z < n && b[z]) z++; set_key(a, b, z); return "one bit"; }
    case 5: set_key(a, "", 0); return "empty";
    case 6: { for (int i = 0; i < 16; i++) b[i] = "abcdefgh01234567"[choose(16)]; set_key(a, b, 1 + (int)choose(16)); return "random"; }
    case 7: { const char *k2 = W.keys[choose(W.nkeys)]; snprintf(b, sizeof b, "%s%s", k, k2); set_key(a, b, (int)strlen(b)); return "two keys"; }
    case 8: { for (int i = 0; i < 16; i++) b[i] = (char)(128 + choose(128)); set_key(a, b, 16); return "high bytes"; }
    default: { int c = n > 2 ? 1 + (int)choose(n - 2) : 0; set_key(a, k + c, n - c > 1 ? n - c - 1 : n - c); return "middle"; }
    }
}
/* which: -1 random, else forced good (0) or bad (1) */
void auth_variant(sess_t *s, int which) {
    uint32_t magic = htonl(0xa001beef);
    memcpy(s->auth, &magic, 4); memset(s->auth + 4, 0, 32);
    int bad = which >= 0 ? which : choose(5) >= 2;
    const char *kind = "right key";
    s->auth_split = choose(3) == 2;
    if (!bad) {
        const char *k = W.keys[choose(W.nkeys)]; set_key(s->auth, k, (int)strlen(k));
    } else {
        kind = near_key(s->auth);
        int v = choose(8);
        if (v == 5) { s->use_auth = 0; kind = "no authentication"; }
        else if (v == 6) { s->auth[choose(4)] ^= 1 << choose(8); const char *k = W.keys[choose(W.nkeys)]; set_key(s->auth, k, (int)strlen(k)); kind = "wrong marker"; }
        else if (v == 7) { memcpy(s->auth2, s->auth, 36); const char *k = W.keys[choose(W.nkeys)]; set_key(s->auth2, k, (int)strlen(k)); s->use_auth2 = 1; kind = "second try on the same connection"; }
    }
    if (choose(4) == 3) for (int i = 0; i < 16; i++) s->auth[20 + i] = (unsigned char)choose(256);
    memcpy(&magic, s->auth, 4);
    int ok = s->use_auth && ntohl(magic) == 0xa001beef && configured(s->auth + 4);
    if (!ok && choose(3) == 2) { s->auth_more = 1 + (int)choose(choose(2) ? 3 : 340); s->auth_split = 0; probe("more along with a bad key"); }
    if (!ok) { s->deny = 1; s->expect = EXP_FAIL; s->deny_why = kind; probe(kind); } else { s->use_auth2 = 0; probe("right key"); }
}
static void q_hook(const char *name, sock_t *from) {
    sess_t *s = sess_by_name(name, (int)strlen(name));
    if (s && s->deny) violate("unauthorised", "session %d: name lookup although its key is not accepted (%s)", s->id, s->deny_why);
}
void give_name(sess_t *s) {
    char nm[64]; int n = snprintf(nm, sizeof nm, "host%d.test", s->id);
    sess_set_name(s, nm, n); rec_add(nm, s->ip, 60);
}
/* keys that share prefixes, contain each other, or use the whole length */
static void related_keys(void) {
    W.nkeys = 1 + (int)choose(8);
    /* now and then a long list, or characters from the whole range */
    if (choose(5) == 4) { W.nkeys = 9 + (int)choose(110); probe("many keys"); }
    static const char wide[] = "abcXYZ09 !#$%&'()*+,-./:;<=>?@[]^_`{|}~\x7f\x80\xc3\xa9\xe2\x82\xac\xfe\xff";
    const char *ab = choose(4) == 3 ? wide : "ab"; int abn = (int)strlen(ab); if (ab == wide) probe("keys of any characters");
    for (int i = 0; i < W.nkeys; i++) {
        char b[40] = ""; int n = 1 + (int)choose(16), tries = 0;
    again:
        for (int j = 0; j < n; j++) b[j] = ab[choose(abn)];
        b[n] = 0;
        if (i && choose(3) == 2) { char t[40]; const char *o = W.keys[choose(i)]; int on = (int)strlen(o); snprintf(t, sizeof t, "%s%.*s", o, 16 - on, b); strcpy(b, t); }
        for (int j = 0; j < i; j++) if (!strcmp(W.keys[j], b)) { if (++tries < 6) goto again; snprintf(b, sizeof b, "unique%d", i); }
        strcpy(W.keys[i], b);
    }
    strcpy(W.local_key, W.keys[choose(W.nkeys)]);
}
static void conclude(const char *what) {
    int good = 0, bad = 0;
    for (int i = 0; i < nsess; i++) {
        sess_t *s = sess[i];
        if (s->deny) { bad++; continue; }
        good++;
        if (!sess_complete(s)) violate("kept-out", "session %d presents a configured key but is not served (state %d, ended %d)", s->id, s->state, s->app ? s->app->ended : 0);
    }
    if (good && bad) nontrivial();
    sample("%s: %d keys, %d sessions with right key, %d without ", what, W.nkeys, good, bad);
}
static int good_complete(void) { for (int i = 0; i < nsess; i++) if (!sess[i]->deny && !sess_complete(sess[i])) return 0; return 1; }
static void last_start_passed(void) { }
void scn_p03(void) {
    world_defaults();
    world_net_profile(0);
    prof.seg_mode = prof.seg_mode == 2 ? 1 : prof.seg_mode;
    W.use_c = choose(4) == 3; W.mode_s = choose(4) == 3 ? 3 : 2;
    if (choose(4)) related_keys();
    int c_bad = W.use_c && choose(2);
    if (c_bad) { unsigned char a[36] = {0}; near_key(a); char k[17] = ""; memcpy(k, a + 4, 16); int okc = k[0] != 0; for (char *p = k; *p; p++) if ((unsigned char)*p >= 128 || *p < 32 || *p == '"' || *p == '\\') okc = 0; if (okc && !configured(a + 4)) strcpy(W.local_key, k); else c_bad = 0; }
    world_boot();
    dns_query_hook = q_hook;
    int n = 2 + (int)choose(14); usec_t last = 0;
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(3)) { s->direct = 0; if (c_bad) { s->deny = 1; s->expect = EXP_FAIL; s->deny_why = "the client node's key is not configured"; } }
        else { s->direct = 1; auth_variant(s, -1); }
        sess_random_traffic(s, 3000); s->app_gap = s->org_gap = 0;
        if (choose(3) == 2) give_name(s);
        usec_t t = now + delay_us(0, 6 * SEC); if (t > last) last = t;
        sess_start_at(s, t);
    }
    run_until(last + 1 * SEC);
    run_until_cond(good_complete, now + 60 * SEC);
    run_until(now + 20 * SEC);
    conclude("attempts");
}
