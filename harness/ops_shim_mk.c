/* builds the events that the encrypted-message readers take, from plaintext (so that plaintext can be varied freely) */
#include "driver.h"
static char *enc(int how, const nostr_privkey *k, const nostr_key *p, const char *t) {
    char *c = NULL; int r = how == 4 ? nostr_nip04_encrypt(k, p, t, &c) : how == 44 ? nostr_nip44_encrypt(k, p, t, strlen(t), &c) : !(c = strdup(t));
    if (r) { free(c); die("enc"); }
    char *d = d_alloc(strlen(c) + 1); strcpy(d, c); free(c); return d;
}
static nostr_event *mk(int kind, const nostr_privkey *k, const char *c) {
    nostr_event *e = NULL; nostr_privkey kk = *k; if (nostr_event_create(&e)) die("event"); e->kind = (uint16_t)kind; e->created_at = 1700000000;
    if (nostr_event_set_content(e, c) || nostr_event_sign(e, &kk)) { nostr_event_destroy(e); die("sign"); }
    return e;
}
/* slot, encryption (0, 4, 44), kind, sender's secret key, recipient's key, plaintext */
OP("sx.ev") { UNUSED; nostr_privkey k; nostr_key p; a_fix(v, 3, k.data, 32); a_fix(v, 4, p.data, 32); char *t = a_str(v, 5); int s = (int)a_int(v, 0);
    char *c = enc((int)a_int(v, 1), &k, &p, t); nostr_event *e = mk((int)a_int(v, 2), &k, c); if (EV[s]) nostr_event_destroy(EV[s]); EV[s] = e; o_ret(0); }
/* slot, sender's secret key, wrapper's secret key, recipient's key, rumor text, or (n > 5) seal text */
OP("sx.wrap") { UNUSED; nostr_privkey k, w; nostr_key p; a_fix(v, 1, k.data, 32); a_fix(v, 2, w.data, 32); a_fix(v, 3, p.data, 32); char *t = a_str(v, 4); int s = (int)a_int(v, 0); char *c, *j = NULL; nostr_event *e;
    if (n > 5) j = t; else { c = enc(44, &k, &p, t); e = mk(13, &k, c); int r = nostr_event_to_json(e, &j); nostr_event_destroy(e); if (r) die("json"); char *x = d_alloc(strlen(j) + 1); strcpy(x, j); free(j); j = x; }
    c = enc(44, &w, &p, j); e = mk(1059, &w, c); if (EV[s]) nostr_event_destroy(EV[s]); EV[s] = e; o_ret(0); }
