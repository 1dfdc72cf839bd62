"""C39: missing (NULL) arguments are refused cleanly; optional ones may be missing."""
import json, os
# pointer arguments that may be missing (all others are required); functions not named here require every pointer
OPT = {
 "init_with_config": "config", "config_set_callback": "callback user_data", "mnemonic_to_seed": "passphrase", "mnemonic_to_keypair": "passphrase",
 "zap_create_request": "lnurl content", "zap_validate_lnurl": "nostr_pubkey allows_nostr", "zap_parse_receipt": "amount bolt11 preimage zap_request",
 "event_get_root_id": "relay_hint", "event_get_reply_id": "relay_hint", "event_add_mention_tag": "relay_hint",
 "reaction_create": "reaction_content relay_hint", "reaction_parse": "reaction_content target_event_id target_pubkey target_kind",
 "repost_create": "d_tag embedded_json", "repost_parse": "reposted_event_id reposted_pubkey relay_hint reposted_kind",
 "nip05_parse_response": "relays relay_count", "nip05_verify": "user_data relays_out relay_count_out",
 "list_set_d_tag": "d_tag", "list_set_title": "title", "list_set_description": "description", "list_set_image": "image",
 "list_add_pubkey": "relay_hint petname", "list_add_event": "relay_hint", "list_add_reference": "relay_hint", "list_add_group": "group_name", "list_from_event": "keypair",
 "filter_matches_with_search": "user_data", "filters_match_with_search": "user_data",
 "relay_msg_serialize": "out_len", "event_serialize_canonical": "out_len", "event_serialize": "out_len", "event_get_tag_at": "out_count",
 "relay_info_serialize": "out_len", "relay_limitation_serialize": "out_len", "relay_info_set_nips": "nips", "tag_iterator_next": "tag_len",
 "filter_get_e_tags": "count", "filter_get_p_tags": "count", "filter_get_tag_values": "count", "filter_get_ids": "out_count", "filter_get_authors": "out_count", "filter_get_kinds": "out_count", "client_msg_get_filters": "out_count",
 "nip17_send_dm": "subject reply_to", "nip17_unwrap_dm": "sender_pubkey", "nip59_unwrap_event": "author_pubkey", "nip59_create_rumor": "content", "nip59_create_gift_wrap": "extra_tags",
 "nip47_free_connection": "connection", "nip47_parse_info_event": "capabilities cap_count notifications notif_count encryptions enc_count",
 "nip47_parse_response_event": "result_type result_json error_code error_message", "nip47_parse_notification_event": "notification_type notification_json",
 "nip47_create_pay_invoice_params": "amount_msats", "nip47_create_make_invoice_params": "description description_hash expiry_secs",
 "nip47_create_list_transactions_params": "from until limit offset unpaid type", "nip47_create_pay_keysend_params": "preimage tlv_records",
 "nip47_create_multi_pay_invoice_params": "invoice_ids amounts", "nip47_parse_pay_invoice_response": "preimage fees_paid",
 "nip47_parse_info_response": "alias color pubkey network block_height methods method_count",
 "relay_connect": "user_data", "subscribe": "callback user_data", "relay_set_message_callback": "callback user_data",
}
OPT = {f: set(v.split()) for f, v in OPT.items()}
def refused(f, gone):
    """must a call without the pointers `gone` be refused?"""
    if f == "event_add_reply_tags": return "event" in gone or {"root_id", "reply_id"} <= gone
    if f == "nip47_create_lookup_invoice_params": return not gone <= {"payment_hash", "invoice"} or {"payment_hash", "invoice"} <= gone
    return not gone <= OPT.get(f, set())
VERDICT = ("_Bool", "nostr_error_t", "nostr_relay_error_t")
NOTHING = {"hex_decode": -1, "client_msg_get_type": 5}
# these report why in the result they are given, also when something else is missing
FILL = {"filter_validate", "event_validate_full"}
# an otherwise required argument that is not looked at with empty objects: nothing private to encrypt, no search to run
IDLE = {("list_to_event", "keypair"), ("filter_matches_with_search", "search_cb"), ("filters_match_with_search", "search_cb")}
def run(ctx):
    r = ctx.rng
    ctx.rule = "call of a public function with a subset of its pointer arguments missing; distinct by (function, subset, what the other arguments hold, build)"
    ctx.assumptions = ["which arguments may be missing is taken from the header's documentation and, where that is silent, from the library's present behaviour", "noscrypt is not installed: its functions are provided by a stand-in; functions that need cJSON are only judged to refuse in the build without it", "functions without a verdict (void) are only judged not to crash and to leave their inputs alone"]
    P = json.load(open(os.path.join(os.path.dirname(__file__), "..", "oracle", "nullargs.json")))
    names = sorted(P)
    def accepted(f, o):
        if o["kind"] == 2: return None
        if o["kind"] == 1: return o["r"] != 0
        if P[f][0] in VERDICT: return bool(o["ok"])
        return o["r"] != NOTHING.get(f, 0)
    def function(d, cfg, f, variants, base):
        ps = P[f][1]; k = len(ps)
        for var in variants:
            masks = list(range(1 << k))
            if var and ctx.quick and len(masks) > 16: masks = r.sample(masks, 16)
            r.shuffle(masks)
            for m, o in zip(masks, d.many([["null.call", f, m, var] for m in masks])):
                gone = {p for i, p in enumerate(ps) if m >> i & 1}; what = lambda: "%s(%s), %s, variant %d: %s" % (f, ", ".join(p + "=NULL" if p in gone else p for p in ps), cfg, var, o)
                a = accepted(f, o); must = refused(f, gone); ctx.seen((f, m, var, cfg), "%s without %s" % (f, ", ".join(sorted(gone)) or "nothing"))
                if a is None:
                    ctx.check(not o["changed"] and not o["deep"], "null-changed:" + f, what, d); ctx.count("void_calls"); continue
                if must:
                    if (var & 8 or "shim" not in cfg) and not gone - OPT.get(f, set()) - {p for x, p in IDLE if x == f}: continue
                    ctx.count("missing_arguments_refused")
                    if not ctx.check(not a, "null-accepted:" + f, what, d): continue
                    ctx.check(not o["changed"] and not o["deep"], "null-changed:" + f, what, d); ctx.check(f in FILL or 2 not in o["outs"], "null-output:" + f, what, d)
                elif var == 0 and base and (o["kind"] == 1 or P[f][0] in VERDICT):
                    ctx.check(a, "optional-refused:" + f, what, d); ctx.count("optional_arguments_accepted")
    for cfg in ["asan", "shim", "nojson"] + ctx.n([], ["asan-mbed"]):
        if not ctx.has(cfg): continue
        d = ctx.driver(cfg); o = d.cmd("null.list")["f"]; have = {bytes.fromhex(o[i]).decode(): o[i + 1] for i in range(0, len(o), 2)}
        for f, k in have.items(): assert len(P[f][1]) == k, f
        order = sorted(have); r.shuffle(order)
        for f in order:
            ctx.guard(d, function, cfg, f, ctx.n([0, r.choice([1, 2, 4]), r.choice([8, 15, 10])] if cfg != "nojson" else [0, 15], range(16)), cfg != "nojson")
            ctx.leaks(d, f)
        ctx.extra.setdefault("functions", {})[cfg] = len(have)
    ctx.close_drivers()
