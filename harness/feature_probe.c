/* what a library built by its own build system says about itself, and whether that is so: one operation of every feature */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "nostr.h"
#include "nostr_features.h"
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
#include "nostr_relay_protocol.h"
#endif
#define X64 "abababababababababababababababababababababababababababababababab"
static void works(const char *f, int ok) { printf("works %s %d\n", f, ok); }
int main(void) {
  for (int n = -3; n < 70000; n++) if (nostr_feature_nip_supported(n)) printf("nip %d %d\n", n, nostr_feature_nip_supported(n));
  printf("list %s\nlist %s\n", nostr_feature_list_enabled(), nostr_feature_list_enabled());
  printf("avail relay %d\navail hd-keys %d\navail json-enhanced %d\navail relay-protocol %d\n", nostr_feature_relay_available(), nostr_feature_hd_keys_available(), nostr_feature_json_enhanced_available(), nostr_feature_relay_protocol_available());
  printf("backend %s\n", nostr_feature_crypto_backend_info());
#define FLAG(x) printf("flag " x " 1\n")
#ifdef NOSTR_FEATURE_THREADING
  FLAG("threading");
#endif
  nostr_event *e = NULL; nostr_privkey k; nostr_key p; memset(&k, 0x11, sizeof k); nostr_keypair kp;
  works("std", nostr_init() == NOSTR_OK);
  works("keys", nostr_keypair_from_private_key(&kp, &k) == NOSTR_OK); p = *nostr_keypair_public_key(&kp);
  works("events", nostr_event_create(&e) == NOSTR_OK && nostr_event_set_content(e, "x") == NOSTR_OK && (e->kind = 1, e->created_at = 1700000000, nostr_event_sign(e, &k) == NOSTR_OK) && nostr_event_verify(e) == NOSTR_OK);
#ifdef NOSTR_FEATURE_ENCODING
  { char b[120]; works("encoding", nostr_key_to_bech32(&p, "npub", b, sizeof b) == NOSTR_OK); }
#endif
#ifdef NOSTR_FEATURE_JSON_ENHANCED
  { char *j = NULL; nostr_event *q = NULL; works("json-enhanced", nostr_event_to_json(e, &j) == NOSTR_OK && nostr_event_from_json(j, &q) == NOSTR_OK && !memcmp(q->id, e->id, 32)); }
#endif
#ifdef NOSTR_FEATURE_NIP05
  { char n[65], d[256]; works("nip05", nostr_nip05_parse("bob@example.com", n, sizeof n, d, sizeof d) == NOSTR_OK); }
#endif
#ifdef NOSTR_FEATURE_NIP10
  { nostr_event *q = NULL; char id[65]; nostr_event_create(&q); works("nip10", nostr_event_add_reply_tags(q, X64, NULL, NULL, NULL, NULL, NULL) == NOSTR_OK && nostr_event_get_root_id(q, id, sizeof id, NULL, 0) == NOSTR_OK && !strcmp(id, X64)); }
#endif
#ifdef NOSTR_FEATURE_NIP13
  { nostr_event *q = NULL; nostr_event_create(&q); nostr_event_set_content(q, "w"); q->kind = 1; works("nip13", nostr_nip13_mine_event(q, 3, 0) == NOSTR_OK && nostr_nip13_calculate_difficulty(q->id) >= 3); }
#endif
#ifdef NOSTR_FEATURE_NIP18
  { nostr_event *q = NULL; works("nip18", nostr_repost_create(&q, X64, X64, "wss://r.example", 1, NULL, NULL) == NOSTR_OK && q->kind == 6); }
#endif
#ifdef NOSTR_FEATURE_NIP25
  { nostr_event *q = NULL; works("nip25", nostr_reaction_create(&q, "+", X64, X64, NULL, 1) == NOSTR_OK && q->kind == 7); }
#endif
#ifdef NOSTR_FEATURE_NIP26
  { nostr_delegation g; memset(&g, 0, sizeof g); works("nip26", nostr_delegation_create(&k, &p, "kind=1", &g) == NOSTR_OK && nostr_delegation_verify(&g, &p) == NOSTR_OK); }
#endif
#ifdef NOSTR_FEATURE_NIP49
  { char b[300]; nostr_privkey q; works("nip49", nostr_ncryptsec_encrypt(&k, "pw", 16, b, sizeof b) == NOSTR_OK && nostr_ncryptsec_decrypt(b, "pw", &q) == NOSTR_OK && !memcmp(&q, &k, 32)); }
#endif
#ifdef NOSTR_FEATURE_NIP51
  { nostr_list *l = NULL; nostr_event *q = NULL; works("nip51", nostr_list_create(&l, 10000) == NOSTR_OK && nostr_list_add_pubkey(l, X64, NULL, NULL, 0) == NOSTR_OK && nostr_list_to_event(l, NULL, &q) == NOSTR_OK && q->tags_count == 1); }
#endif
#ifdef NOSTR_FEATURE_NIP57
  { nostr_event *q = NULL; const char *r[] = { "wss://r.example" }; works("nip57", nostr_zap_create_request(&q, 1000, &p, NULL, NULL, r, 1) == NOSTR_OK && q->kind == 9734); }
#endif
#ifdef NOSTR_FEATURE_NIP65
  { nostr_relay_list *l = NULL; works("nip65", nostr_relay_list_create(&l) == NOSTR_OK && nostr_relay_list_add(l, "wss://a.example", 1, 0) == NOSTR_OK && nostr_relay_list_count(l) == 1); }
#endif
#ifdef NOSTR_FEATURE_HD_KEYS
  { nostr_hd_key h; uint8_t s[32] = { 7 }; works("hd-keys", nostr_hd_key_from_seed(s, 32, &h) == NOSTR_OK); }
#endif
#ifdef NOSTR_FEATURE_RELAY
  { nostr_relay *r = NULL; works("relay", nostr_relay_create(&r, "ws://127.0.0.1:9/") == NOSTR_OK); nostr_relay_destroy(r); }
#endif
#ifdef NOSTR_FEATURE_RELAY_PROTOCOL
  works("relay-protocol", nostr_validate_hex64(X64) && nostr_kind_is_ephemeral(20000)); printf("version %s\n", nostr_version());
#endif
  nostr_event_destroy(e); return 0; }
