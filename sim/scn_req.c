/* P04: requests and their targets. */
#include "world.h"

void give_name(sess_t *s);
static void bad(sess_t *s, const char *why) { s->expect = EXP_FAIL; s->deny = 1; s->deny_why = why; probe(why); }
static void any(sess_t *s, const char *why) { s->expect = EXP_ANY; probe(why); }

/* a name of n bytes made of labels the protocol allows */
static int legal_name(char *b, int n) {
    int lab = 0;
    for (int i = 0; i < n; i++) {
        if (lab > 0 && i < n - 1 && (lab == 63 || choose(9) == 8)) { b[i] = '.'; lab = 0; }
        else { b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-_"[choose(38)]; lab++; }
    }
    b[n] = 0;
    if (lab > 63) return 0;
    return 1;
}
/* a name much like one that is already in use */
static int similar_name(char *b) {
    const char *o[32]; int k = 0;
    for (int i = 0; i < nsess - 1 && k < 32; i++) if (sess[i]->dst == DST_NAME && rec_find(sess[i]->name) && (int)strlen(sess[i]->name) == sess[i]->namelen) o[k++] = sess[i]->name;
    if (!k) return 0;
    strcpy(b, o[choose(k)]); int n = (int)strlen(b);
    static const char ab[] = "abcdefghijklmnopqrstuvwxyz0123456789-_";
    switch (choose(6)) {
    case 0: b[choose(n)] = ab[choose(38)]; break;                                       /* one letter */
    case 1: b[n - 1] = ab[choose(38)]; break;                                           /* the last letter */
    case 2: b[n++] = ab[choose(38)]; b[n] = 0; break;                                   /* one letter more at the end */
    case 3: if (n < 2) return 0; b[--n] = 0; break;                                     /* one less */
    case 4: memmove(b + 1, b, n + 1); n++; b[0] = ab[choose(38)]; break;                /* one more in front */
    default: { char t[8]; int l = snprintf(t, sizeof t, ".%c%c", ab[choose(36)], ab[choose(36)]); if (n + l > 253) return 0; memcpy(b + n, t, l + 1); n += l; }   /* one label more */
    }
    if (n < 1 || n > 253 || rec_find(b)) return 0;
    for (int i = 0, l = 0; i <= n; i++) { if (i == n || b[i] == '.') { if (l < 1 || l > 63) return 0; l = 0; } else l++; }
    return n;
}
static void target_name(sess_t *s) {
    unsigned char b[300]; int n;
    if (choose(4) == 3) {                                   /* a name that was already asked for, now with another port */
        sess_t *o[32]; int k = 0;
        for (int i = 0; i < nsess - 1 && k < 32; i++) { rec_t *r = sess[i]->dst == DST_NAME && (int)strlen(sess[i]->name) == sess[i]->namelen ? rec_find(sess[i]->name) : NULL; if (r && r->exists && r->ip) o[k++] = sess[i]; }
        if (k) { sess_t *w = o[choose(k)]; s->ip = rec_find(w->name)->ip; sess_set_name(s, w->name, w->namelen); probe("same name again"); return; }
    }
    if (choose(4) == 3 && (n = similar_name((char *)b))) { sess_set_name(s, b, n); rec_add((char *)b, s->ip, 60); probe("similar name"); return; }
    switch (choose(12)) {
    case 0: case 1: case 2: case 3: give_name(s); return;
    case 4: case 5: case 6: n = choose(4) == 3 ? 1 + (int)choose(253) : 3 + (int)choose(40); break;
    case 7: n = 230 + (int)choose(24); break;
    case 8: n = 253; break;
    case 9: {                                               /* does not exist */
        n = legal_name((char *)b, 10 + (int)choose(20)) ? (int)strlen((char *)b) : 0;
        if (!n) { give_name(s); return; }
        sess_set_name(s, b, n); rec_t *r = rec_add((char *)b, 0, 60); r->exists = 0; s->expect = EXP_FAIL; s->deny = 1; s->deny_why = "the name does not exist"; probe("unknown name"); return;
    }
    case 10: {                                              /* cannot be put into a query */
        n = 64 + (int)choose(192); memset(b, 'a' + choose(26), n);
        if (choose(2)) { int k = (int)choose(n); b[k] = '.'; if (k < n - 1) b[k + 1] = '.'; }
        sess_set_name(s, b, n); bad(s, "name that fits no query"); return;
    }
    default: {                                              /* a zero byte inside */
        n = legal_name((char *)b, 12) ? 12 : 0; if (!n) { give_name(s); return; }
        char nm[64]; memcpy(nm, b, 5); nm[5] = 0; if (nm[4] == '.') nm[4] = b[4] = 'x';
        if (!rec_find(nm)) rec_add(nm, s->ip, 60);
        b[5] = 0; sess_set_name(s, b, n); bad(s, "name with a zero byte"); return;
    }
    }
    if (!legal_name((char *)b, n) || rec_find((char *)b)) { give_name(s); return; }
    if (choose(8) == 7) {                                   /* written with the dot at its end */
        rec_add((char *)b, s->ip, 60); b[n++] = '.'; b[n] = 0; sess_set_name(s, b, n); probe("name with a dot at its end"); return;
    }
    sess_set_name(s, b, n); rec_add((char *)b, s->ip, 60); probe(n > 200 ? "long name" : "random name");
}
/* any byte, the special ones more often */
static int octet(void) { static const unsigned char sp[] = {0, 1, 46, 64, 100, 127, 128, 192, 254, 255}; return choose(2) ? sp[choose(sizeof sp)] : (int)choose(256); }
static void make_request(sess_t *s) {
    static const uint16_t known[] = {1, 7, 21, 22, 23, 25, 53, 80, 110, 143, 255, 256, 443, 465, 853, 993, 1023, 1024, 1080, 3128, 3306, 5222, 8080, 8443, 32767, 32768, 65280, 65535};
    if (choose(5) == 4) s->port = known[choose(sizeof known / sizeof *known)];
    else if (choose(5) == 4) s->port = (uint16_t)(choose(3) ? 256 * (1 + choose(250)) + choose(256) : choose(2) ? 1 + choose(255) : 65535);
    if (s->port >= 20000 && s->port < 20200) s->port = (uint16_t)(20000 + s->id);     /* each session has a port of its own */
    for (int i = 0; i < nsess - 1; i++) if (sess[i]->port == s->port) s->port = (uint16_t)(20000 + s->id);
    if (choose(4) == 3) { int a = octet(), b = octet(), c = octet(), d = octet(); s->ip = IP(a < 1 || a > 223 ? 1 + (int)choose(223) : a, b, c, d); }
    if (s->ip >> 24 == 10 || s->ip >> 24 == 127 || s->ip == DNS_IP || s->ip == NODE_S->ip) s->ip = IP(203, 0, 113, 7);
    s->dst = DST_IP;
    if (choose(2)) target_name(s);
    switch (choose(8)) {                                   /* how the target answers */
    case 5: s->answer = ANS_REFUSE; break;
    case 6: s->answer = ANS_BLACKHOLE; break;
    case 7: s->answer = ANS_UNREACH; break;
    default: s->answer = ANS_ACCEPT;
    }
    if (s->answer == ANS_ACCEPT && choose(3) == 2) s->answer_delay = delay_us(1 * MS, 6 * SEC);
    if (s->answer != ANS_ACCEPT && s->expect == EXP_OK) { s->expect = EXP_FAIL; probe(s->answer == ANS_REFUSE ? "target refuses" : s->answer == ANS_BLACKHOLE ? "target silent" : "target unreachable"); }
    if (choose(3) == 2) {                                   /* more authentication methods */
        int n = 1 + (int)choose(255); s->greet[1] = (unsigned char)n; s->greetn = 2 + n;
        for (int i = 0; i < n; i++) s->greet[2 + i] = (unsigned char)choose(256);
        s->greet[2 + choose(n)] = 0;
    }
    sess_build_request(s);
    switch (choose(16)) {
    case 10: s->req[1] = (unsigned char)(choose(2) ? 2 + choose(2) : 4 + choose(252)); bad(s, "other command"); break;
    case 11: s->req[0] = (unsigned char)(choose(2) ? 4 : 6 + choose(250)); bad(s, "other version"); break;
    case 12: {
        unsigned char *r = s->req; r[3] = 4; for (int i = 0; i < 16; i++) r[4 + i] = (unsigned char)choose(256);
        r[20] = s->port >> 8; r[21] = s->port & 255; s->reqn = 22; bad(s, "IPv6 target"); break;
    }
    case 13: s->req[3] = (unsigned char)(choose(2) ? 0 : choose(2) ? 2 : 5 + choose(251)); bad(s, "other address type"); break;
    case 14: if (choose(2)) { s->greet[1] = 0; s->greetn = 2; s->deny = 0; any(s, "no methods"); } else { s->req[3] = 3; s->req[4] = 0; s->req[5] = s->port >> 8; s->req[6] = s->port & 255; s->reqn = 7; bad(s, "empty name"); } break;
    default: break;
    }
}
static int settled(void) {
    for (int i = 0; i < nsess; i++) { sess_t *s = sess[i]; if (s->expect == EXP_ANY || s->loss_ok) continue; if (!sess_complete(s)) return 0; }
    return 1;
}
void scn_p04(void) {
    world_defaults();
    world_net_profile(0);
    W.use_c = choose(3) == 2; W.mode_s = choose(4) == 3 ? 3 : 2;
    prof.eintr = choose(4) == 3 ? 30 : 0; prof.faults_on = 1;
    dnsprof.cname = choose(3) == 2 ? 300 : 0; dnsprof.loss = 0;
    world_boot();
    int n = 1 + (int)choose(12), ok = 0, no = 0; usec_t last = now;
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(3) == 2) s->direct = 1;
        make_request(s);
        sess_random_traffic(s, 2000); s->app_gap = s->org_gap = 0;
        usec_t t = now + delay_us(0, 5 * SEC); if (t > last) last = t;
        sess_start_at(s, t);
    }
    run_until(last);
    run_until_cond(settled, now + 45 * SEC);
    for (int i = 0; i < nsess; i++) {
        sess_t *s = sess[i];
        if (s->expect == EXP_ANY) continue;
        if (s->expect == EXP_FAIL) {
            no++;
            if (!s->app->ended) violate("left-open", "session %d cannot succeed (%s) but is still open %lld s after it began", s->id, s->deny_why ? s->deny_why : "target", (long long)((now - s->start_at) / SEC));
        } else { ok++; if (!sess_complete(s)) report_incomplete(s->state < ST_DATA ? "not-connected" : "stalled", s); }
    }
    if (ok + no > 1) nontrivial();
    sample("%d sessions to reachable targets, %d that must fail ", ok, no);
}
