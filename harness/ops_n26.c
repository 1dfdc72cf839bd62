#include "driver.h"
static VFT nostr_delegation *DG;
static void dg_free(void) { if (DG) { nostr_delegation_free(DG); nostr_delegation_free(DG); free(DG); DG = NULL; } }
RESET_HOOK(dg_free)
static void o_dg(nostr_delegation *d) { o_hex("delegator", d->delegator_pubkey.data, 32); o_str("cond", d->conditions); o_hex("token", d->token, 64);
  o_arr("kinds"); for (size_t i = 0; i < d->parsed_conditions.kind_count; i++) o_int(NULL, d->parsed_conditions.kinds[i]); o_aend();
  if (d->parsed_conditions.has_created_after) o_int("after", d->parsed_conditions.created_after); if (d->parsed_conditions.has_created_before) o_int("before", d->parsed_conditions.created_before); }
OP("n26.create") { (void)n; nostr_privkey k; nostr_key q; a_fix(v, 0, k.data, 32); a_fix(v, 1, q.data, 32); char *c = a_str(v, 2); dg_free(); DG = malloc(sizeof *DG); memset(DG, 0xA5, sizeof *DG); int r; LIB(r = nostr_delegation_create(&k, &q, c, DG));
  o_ret(r); if (r) { free(DG); DG = NULL; } else o_dg(DG); }
OP("n26.verify") { (void)n; nostr_delegation d; memset(&d, 0, sizeof d); nostr_key q; a_fix(v, 0, d.delegator_pubkey.data, 32); a_fix(v, 1, q.data, 32); d.conditions = a_str(v, 2); a_fix(v, 3, d.token, 64); int r; LIB(r = nostr_delegation_verify(&d, &q)); o_ret(r); }
OP("n26.check") { (void)n; int r; LIB(r = nostr_delegation_check_conditions(DG, (uint16_t)a_int(v, 0), a_int(v, 1))); o_ret(r); }
OP("n26.add") { (void)n; int r; LIB(r = nostr_event_add_delegation(ev(v, 0), DG)); o_ret(r); }
OP("n26.get") { (void)n; nostr_delegation *d = b_out(sizeof *d); int r; LIB(r = nostr_event_get_delegation(ev(v, 0), d)); o_ret(r); if (!r) { o_dg(d); LIB(nostr_delegation_free(d)); } }
OP("n26.everify") { (void)n; int r; LIB(r = nostr_event_verify_delegation(ev(v, 0))); o_ret(r); }
