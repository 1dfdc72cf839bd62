#include "driver.h"
OP("n13.diff") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); int r; LIB(r = nostr_nip13_calculate_difficulty(b)); o_ret(r); }
OP("n13.verify") { (void)n; int r; LIB(r = nostr_nip13_verify_pow(ev(v, 0), (int)a_int(v, 1))); o_ret(r); }
OP("n13.add") { (void)n; int r; LIB(r = nostr_nip13_add_nonce_tag(ev(v, 0), a_u64(v, 1), (int)a_int(v, 2))); o_ret(r); }
OP("n13.mine") { (void)n; int r; LIB(r = nostr_nip13_mine_event(ev(v, 0), (int)a_int(v, 1), a_u64(v, 2))); o_ret(r); }
#ifdef VF_NOJSON
OP("n13.minet") { (void)n; (void)v; o_ret(NOSTR_ERR_NOT_SUPPORTED); }      /* built without threads */
#else
/* threads, jitter */
OP("n13.minet") { (void)n; int r; vf_jitter = (int)a_int(v, 4); LIB(r = nostr_nip13_mine_event_threaded(ev(v, 0), (int)a_int(v, 1), (int)a_int(v, 2), a_u64(v, 3))); vf_jitter = 0; o_ret(r); }
#endif
