/* P05 and P06: name lookups. */
#include "world.h"

/* ---------------- P05: how long an address is used ---------------- */
#define TOL (500 * MS)
#define CAP (3 * 3600 * SEC)
typedef struct { const char *name; uint32_t ip, ttl; usec_t at; int weak; } learned_t;
static learned_t lrn[4096]; static int nlrn;
static usec_t life(uint32_t ttl) { usec_t l = (usec_t)ttl * SEC; return l > CAP ? CAP : l; }
static int reused, asked, again_after;

void cache_delivered(const char *name, uint32_t ip, uint32_t ttl) {
    if (nlrn == 4096) sim_error("too many answers");
    learned_t *l = &lrn[nlrn]; l->name = name; l->ip = ip; l->ttl = ttl; l->at = now; l->weak = ttl >= 0x80000000u;
    /* an answer that arrives while another one is fresh may be remembered or not */
    for (int i = 0; i < nlrn; i++) if (!strcmp(lrn[i].name, name) && lrn[i].at + life(lrn[i].ttl) + TOL > now) l->weak = 1;
    nlrn++;
}
void cache_query(const char *name, sock_t *from) {
    asked++;
    for (int i = 0; i < nlrn; i++) {
        learned_t *l = &lrn[i];
        if (strcmp(l->name, name)) continue;
        if (!l->weak && now > l->at + TOL && now < l->at + life(l->ttl) - TOL)
            violate("needless-query", "%s is looked up again %.1f s after an answer valid for %u s", name, (now - l->at) / 1e6, l->ttl);
        if (l->ttl) again_after = 1;
    }
}
void cache_target(sess_t *s, uint32_t ip) {
    if (s->dst != DST_NAME) return;
    usec_t best = NEVER; learned_t *b = NULL;
    for (int i = 0; i < nlrn; i++) {
        learned_t *l = &lrn[i];
        if (strcmp(l->name, s->name) || l->ip != ip) continue;
        if (now <= l->at + life(l->ttl) + TOL) { if (now > l->at + TOL) reused++; return; }
        if (now - l->at < best) { best = now - l->at; b = l; }
    }
    if (b) violate("expired-address", "session %d uses an address of %s learned %.1f s ago with a lifetime of %u s", s->id, s->name, best / 1e6, b->ttl);
    violate("wrong-target", "session %d uses an address that no answer gave for %s", s->id, s->name);
}
static uint32_t rnd_ttl(void) {
    switch (choose(9)) {
    case 0: case 1: return 60;
    case 2: return 1 + choose(10);
    case 3: return 1 + (uint32_t)skewed(0, 20000);
    case 4: return 29 + choose(4);
    case 5: return 10800 - 2 + choose(5);
    case 6: if (choose(4) == 3) return (uint32_t)(((uint64_t)(1 + choose(choose(2) ? 2 : 900)) << 31) / 1000) + choose(choose(2) ? 10 : 9000);     /* wraps in milliseconds */
        return 20000 + choose(2) * (uint32_t)skewed(0, 2147463646);
    case 7: return choose(3) == 2 ? 0x7fffffff : 2147483 + choose(5);
    default: return 0;
    }
}
static rec_t *mine[400]; static int nmine, steps, crowd, rounds; static void make_crowd(void);
static void change(rec_t *r) {
    if (r->nhist < 64) r->hist[r->nhist++] = r->ip;
    r->ip = IP(198, 51, 100 + choose(100), 1 + choose(250)); r->ttl = rnd_ttl();
}
static void step(void *a) {
    rec_t *r = mine[crowd ? crowd++ % nmine : (int)choose(nmine)];
    if (!crowd && r->nhist < 63 && choose(3) == 2) change(r);
    int burst = rounds < 2 && choose(6) == 5 ? 2 + (int)choose(3) : 1;
    for (int i = 0; i < burst; i++) {
        sess_t *s = sess_new();
        s->ip = 0; sess_set_name(s, r->name, (int)strlen(r->name));
        s->pattern = PAT_REQRESP; s->up = 20; s->down = 50;
        sess_start_at(s, now + (i ? delay_us(1, 300 * MS) : 0));
    }
    if (--steps <= 0) {
        if (!crowd || --rounds <= 0) return;
        make_crowd(); after(10900 * SEC, step, NULL); probe("another crowd"); return;       /* when the first names are over */
    }
    usec_t d = 0;
    if (crowd) { after(delay_us(10 * MS, 2 * SEC), step, NULL); return; }
    switch (choose(5)) {
    case 0: d = delay_us(1 * SEC, 20 * SEC); break;
    case 1: case 2: case 3:
        if (nlrn) {                               /* around the end of something learned */
            learned_t *l = &lrn[nlrn - 1 - choose(nlrn < 6 ? nlrn : 6)];
            usec_t t = l->at + life(l->ttl) + (usec_t)choose(70) * 100 * MS - 3500 * MS;
            if (choose(4) == 3) t += choose(40) * SEC;
            if (t > now && t < now + 4 * 3600 * SEC) { d = t - now; for (int i = 0; i < nmine; i++) if (!strcmp(mine[i]->name, l->name) && choose(4)) { rec_t *x = mine[0]; mine[0] = mine[i]; mine[i] = x; } break; }
        }
        d = delay_us(1 * SEC, 60 * SEC); break;
    default: d = delay_us(1 * SEC, 14000 * SEC);
    }
    after(d, step, NULL);
}
static void make_crowd(void) {
    static int first; int len = 3 + (int)choose(12); first += 300 + (int)choose(10000); nmine = 60 + (int)choose(190); steps = 2 * nmine; crowd = 1;
    int brief = choose(2); if (brief) { nmine = 60 + (int)choose(70); steps = 3 * nmine; }      /* some are over each time they are asked for */
    for (int i = 0; i < nmine; i++) { char nm[64]; snprintf(nm, sizeof nm, "%.*s%d.example.net", len, "samelengthhost", 10000 + (first + i) % 90000); mine[i] = rec_add(nm, IP(198, 51, 100 + i / 200, 1 + i % 200), brief && choose(2) ? 5 + choose(60) : 1500 + choose(9000)); }
}
static int steps_done(void) { return steps <= 0 && all_complete(); }
extern void clock_steps_begin(void);
void p05_body(int with_steps) {
    world_defaults();
    world_net_profile(0);
    if (prof.seg_mode == 2) prof.seg_mode = 1;
    W.use_c = choose(6) == 5; W.gw = choose(4) != 3;
    dnsprof.cname = choose(3) == 2 ? 300 : 0; dnsprof.dup = choose(4) == 3 ? 200 : 0;
    world_boot();
    dns_delivered_hook = cache_delivered; dns_query_hook = cache_query; target_hook = cache_target;
    nmine = choose(3) == 2 ? 1 + (int)choose(50) : 1 + (int)choose(4);
    for (int i = 0; i < nmine; i++) { char nm[64]; snprintf(nm, sizeof nm, "h%d.example%s", i * 7, choose(2) ? "" : ".org"); mine[i] = rec_add(nm, IP(198, 51, 100, 1 + i), rnd_ttl()); }
    steps = 3 + (int)choose(40);
    crowd = !with_steps && choose(12) == 11;
    if (crowd) {                                  /* many names much alike, all remembered at once */
        rounds = choose(3) == 2 ? 2 + (int)choose(2) : 1; make_crowd(); probe("many names at once");
    }
    if (with_steps) clock_steps_begin();
    step(NULL);
    run_until_cond(steps_done, 1000000 * SEC);
    for (int i = 0; i < nsess; i++) if (!sess_complete(sess[i])) report_incomplete(sess[i]->state < ST_DATA ? "not-connected" : "stalled", sess[i]);
    if (reused) probe("address reused while fresh");
    if (again_after) probe("looked up again after expiry");
    if (reused && again_after) nontrivial();
    sample("%d sessions, %d queries, %d reuses over %.0f s ", nsess, asked, reused, now / 1e6);
}
void scn_p05(void) { p05_body(0); }

/* ---------------- P06: disturbed lookups ---------------- */
#define POISON IP(198, 18, 0, 1)
static int w16(unsigned char *p, int v) { p[0] = v >> 8; p[1] = v; return 2; }
static int w32(unsigned char *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; return 4; }
static int rr(unsigned char *o, int owner, int type, int cls, int len, const void *data, int n) {
    int k = w16(o, 0xc000 | owner); k += w16(o + k, type); k += w16(o + k, cls); k += w32(o + k, 300); k += w16(o + k, len);
    memcpy(o + k, data, n); return k + n;
}
/* something that is not a well-formed answer to the question; it names an address that must not be used */
int malformed(const unsigned char *q, int qn, unsigned char *o) {
    unsigned char bad[1600]; for (int i = 0; i < 1600; i += 4) w32(bad + i, POISON + choose(200));
    int n = qn; memcpy(o, q, qn); o[2] = 0x81; o[3] = 0x80; w16(o + 6, 1);
    int kind = (int)choose(17);
    char pn[40]; snprintf(pn, sizeof pn, "malformed answer %d", kind); probe(pn); fault(F_DNS_MALFORMED);
    switch (kind) {
    case 0: n += rr(o + n, 12, 1, 1, 4, bad, 4); n = (int)choose(n); break;                       /* cut short */
    case 1: { int l = choose(2) ? (int)choose(4) : 5 + (int)choose(60); n += rr(o + n, 12, 1, 1, l, bad, l); break; }   /* address of a wrong size */
    case 2: n += rr(o + n, 12, 1, 1, choose(2) ? 65535 : 5 + (int)choose(2000), bad, 4); break;   /* longer than the datagram */
    case 3: n += rr(o + n, 12, choose(2) ? 28 : (int)choose(4) * 16 + 16, 1, 4, bad, 4); break;   /* other type */
    case 4: n += rr(o + n, 12, 1, choose(2) ? 3 : 0, 4, bad, 4); break;                           /* other class */
    case 5: n += rr(o + n, 12, 1, 1, 4, bad, 4); o[choose(2)] ^= 1 << choose(8); break;           /* other query's id */
    case 6: n += rr(o + n, 12, 1, 1, 4, bad, 4); o[2] &= 0x7f; break;                             /* not a response */
    case 7: n += rr(o + n, 12, 1, 1, 4, bad, 4); o[13 + choose(q[12])] ^= 1 + choose(15); break;  /* other question, same length */
    case 8: {                                                                                     /* other question, other length */
        unsigned char x[600]; memcpy(x, o, 12); int k = 12; const char *nm = choose(2) ? "\1a\0" : "\7another\7example\3org\0";
        int l = (int)strlen(nm) + 1; memcpy(x + k, nm, l); k += l; k += w16(x + k, 1); k += w16(x + k, 1);
        k += rr(x + k, 12, 1, 1, 4, bad, 4); memcpy(o, x, k); n = k; break;
    }
    case 9: n += rr(o + n, 12, 1, 1, 4, bad, 4); w16(o + 4, choose(2) ? 0 : 2 + (int)choose(3)); break;   /* wrong number of questions */
    case 10: n += rr(o + n, 12, 1, 1, 4, bad, 4); w16(o + 6, 0); w16(o + 8, 1); break;            /* only in the authority section */
    case 11: {                                                                                    /* answer is an alias, the address belongs to the next section */
        n += rr(o + n, 12, 5, 1, 9, "\4cdnx\2ex\0", 9); n += rr(o + n, 12, 1, 1, 4, bad, 4); w16(o + 10, 1); break;
    }
    case 12: {                                                                                    /* address of some other name */
        memcpy(o + n, "\5other\4name\0", 12); n += 12; n += w16(o + n, 1); n += w16(o + n, 1); n += w32(o + n, 300); n += w16(o + n, 4); memcpy(o + n, bad, 4); n += 4; break;
    }
    case 13: n += rr(o + n, choose(2) ? n : 2000 + (int)choose(10000), 1, 1, 4, bad, 4); break;   /* name pointing at itself or nowhere */
    case 14: n = (int)choose(1500); for (int i = 0; i < n; i++) o[i] = (unsigned char)choose(256); if (n) o[0] &= 0x7f; break;
    case 15: n = 0; break;
    default: n = qn; for (int i = 0, k = (int)choose(1400); i < k && n < 1480; i++) o[n++] = (unsigned char)(choose(3) ? 192 + choose(64) : choose(256)); if (n < 1490) { memcpy(o + n, bad, 8); n += 8; } break;
    }
    return n;
}
static int lookups, disturbed, answered;
static unsigned char stale[8][600]; static int stalen[8], nstale;       /* answers to earlier queries */
static void overdue(void *a) {
    sess_t *s = a;
    if (s->connects || s->app->ended || s->app->closed) return;
    violate("lookup-overdue", "session %d: neither connected nor closed %.1f s after its query (limit 5 s)", s->id, (now - s->lookup_at) / 1e6);
}
static void leave_ev(void *a) { sess_t *s = a; if (s->app && !s->app->closed && s->state < ST_DATA) { probe("client left during lookup"); sess_leave(s, (int)choose(2)); } }
static int dns_fault_rate;
static int answer_hook(sock_t *from, const char *name, const unsigned char *q, int qn, unsigned char *out) {
    sess_t *s = sess_by_name(name, (int)strlen(name)); rec_t *r = rec_find(name); uint32_t sip = DNS_IP;
    lookups++;
    if (!s || !r) return -1;
    if (s->lookup_sent++) violate("second-query", "session %d: a second query for its name", s->id);
    s->lookup_at = now; after(8 * SEC, overdue, s);
    unsigned char good[1600], b[1600]; int gn = dns_build_answer(q, qn, r, good);
    if (nstale < 8) { stalen[nstale] = gn < 600 ? gn : 600; memcpy(stale[nstale++], good, gn < 600 ? gn : 600); }
    if (!chance(dns_fault_rate)) { if (choose(4) == 3) { fault(F_DNS_DUP); dns_send(from, r, good, gn, net_delay() * 2, sip, 53); } answered++; dns_send(from, r, good, gn, net_delay() * 2, sip, 53); return 0; }
    disturbed++; s->expect = EXP_ANY; s->loss_ok = 1;
    usec_t t = net_delay(); int k = 1 + (int)choose(4);
    for (int i = 0; i < k; i++) {
        switch (choose(6)) {
        case 0: fault(F_DNS_LOSS); break;
        case 1: dns_send(from, NULL, b, malformed(q, qn, b), t, sip, 53); break;
        case 2: {                                                     /* right form, wrong sender */
            rec_t p = *r; p.ip = POISON + choose(100); int n = dns_build_answer(q, qn, &p, b); fault(F_DNS_FOREIGN);
            if (choose(2)) dns_send(from, NULL, b, n, t, sip ^ 1 << choose(24), 53); else dns_send(from, NULL, b, n, t, sip, 54 + choose(1000)); break;
        }
        case 3: if (nstale > 1) { int j = (int)choose(nstale - 1); fault(F_DNS_FOREIGN); probe("answer to an earlier query"); dns_send(from, NULL, stale[j], stalen[j], t, sip, 53); } break;
        case 4: fault(F_DNS_DELAY); t += delay_us(100 * MS, 6 * SEC); dns_send(from, r, good, gn, t, sip, 53); break;
        default: dns_send(from, r, good, gn, t, sip, 53); if (choose(2)) { fault(F_DNS_DUP); dns_send(from, r, good, gn, t + delay_us(1, 3 * SEC), sip, 53); }
        }
        t += delay_us(1, 4 * SEC);
    }
    if (choose(4) == 3) after(delay_us(1, 6 * SEC), leave_ev, s);
    return 0;
}
static int p06_done(void) {
    for (int i = 0; i < nsess; i++) { sess_t *s = sess[i]; if (s->loss_ok ? !(s->app && (s->app->ended || s->app->closed)) : !sess_complete(s)) return 0; }
    return 1;
}
void scn_p06(void) {
    world_defaults();
    world_net_profile(0);
    if (prof.seg_mode == 2) prof.seg_mode = 1;
    prof.eintr = choose(4) == 3 ? 40 : 0; prof.faults_on = 1;
    W.use_c = choose(5) == 4; W.gw = choose(4) != 3; W.mode_s = choose(4) == 3 ? 3 : 2;
    dnsprof.cname = choose(3) == 2 ? 400 : 0; dnsprof.multi = choose(3) == 2 ? 300 : 0;
    dns_fault_rate = 200 + (int)choose(4) * 250;
    world_boot();
    dns_delivered_hook = cache_delivered; target_hook = cache_target; dns_answer_hook = answer_hook;
    int n = 1 + (int)choose(14); usec_t last = now;
    for (int i = 0; i < n; i++) {
        sess_t *s = sess_new();
        if (W.use_c && choose(3) == 2) s->direct = 1;
        if (choose(6) != 5) {
            static const char *form[] = { "host%d.test", "h%d", "a.b.c.d.e.f%d.long-label-here.example.org", "x%d.very-long-label-very-long-label-very-long-label-very-long.example" };
            char nm[260]; snprintf(nm, sizeof nm, form[choose(4)], s->id);
            if (choose(4) == 3) {                            /* anything up to the longest name there can be */
                int l = 0, want = 100 + (int)choose(154), lab = 0; l = snprintf(nm, sizeof nm, "s%d.", s->id);
                int max = choose(2) ? 63 : 1 + (int)choose(63);
                while (l < want) { if (lab == max && l < want - 1) { nm[l++] = '.'; lab = 0; } else if (lab == 63) break; else { nm[l++] = "abcdefghijklmnopqrstuvwxyz0123456789-"[choose(37)]; lab++; } }
                nm[l] = 0; probe("long name");
            }
            sess_set_name(s, nm, (int)strlen(nm)); rec_add(nm, s->ip, 1 + choose(300)); s->ip = 0;
        }
        if (choose(7) == 6) { s->loss_ok = 1; s->expect = EXP_ANY; s->leave_at = 1; }
        sess_random_traffic(s, 3000); s->app_gap = s->org_gap = 0;
        usec_t t = now + delay_us(0, 8 * SEC); if (t > last) last = t;
        sess_start_at(s, t);
        if (s->leave_at) at(t + delay_us(1 * MS, 7 * SEC), leave_ev, s);
    }
    run_until(last);
    run_until_cond(p06_done, now + 40 * SEC);
    run_until(now + 9 * SEC);
    for (int i = 0; i < nsess; i++) {
        sess_t *s = sess[i];
        if (s->loss_ok) { if (!s->app->ended && !s->app->closed && s->state < ST_DATA) violate("left-open", "session %d is still waiting %.1f s after it began", s->id, (now - s->start_at) / 1e6); continue; }
        if (!sess_complete(s)) report_incomplete(s->state < ST_DATA ? "not-connected" : "stalled", s);
    }
    if (disturbed) nontrivial();
    sample("%d sessions, %d lookups, %d of them disturbed ", nsess, lookups, disturbed);
}
