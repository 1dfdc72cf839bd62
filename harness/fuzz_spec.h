/* operations that mutated scripts may contain, with the class of each argument */
/* argument classes: k kept, s byte string, l list of strings, f fixed length bytes, z buffer size, i integer; last one repeats.
 * leading '!': needs an event in the slot of the first argument */
static const struct { const char *op, *spec; } SPEC[] = {
  {"ev.parse","ks"},{"ev.fromjson","ks"},{"ev.tojson","k"},{"ev.access","!k"},{"ev.tagq","ksz"},{"ev.binary","k"},{"ev.canon","kzk"},{"ev.serialize","kzk"},{"ev.id","k"},{"ev.verify","k"},{"ev.sig_check","ki"},
  {"ev.build","kfiksl"},{"ev.set","!kfikff"},{"ev.addtag","kl"},{"ev.setcontent","ks"},{"ev.get","!k"},{"ev.sign","kf"},{"ev.create","k"},{"ev.addtags","kl"},{"ev.setpub","!kf"},{"ev.setkind","!ki"},{"ev.settime","!ki"},{"ev.setid","!kf"},{"ev.setsig","!kf"},
  {"rp.full","kiz"},{"rp.exp","ki"},{"rp.del","kk"},{"rp.auth","kk"},{"rp.delfree","k"},{"rp.addr","s"},{"rp.cmp","!kk"},{"rp.ts","i"},
  {"n10.root","kzz"},{"n10.reply","kzz"},{"n10.isreply","k"},{"n10.add","ks"},{"n10.mention","ks"},{"n18.create","ksssiss"},{"n18.parse","kzzzk"},{"n18.quote","k"},{"n25.create","kssssi"},{"n25.parse","kzzzk"},{"n25.like","k"},
  {"zap.parse","kk"},{"zap.verify","kks"},{"zap.create","kifsslk"},{"zap.lnurl","s"},{"n26.get","k"},{"n26.everify","k"},{"n26.create","ffs"},{"n26.verify","ffsf"},
  {"ls.create","kk"},{"ls.fromev","kkf"},{"ls.dump","k"},{"ls.toev","kkk"},{"ls.add","kkkss"},{"ls.meta","kks"},{"ls.remove","ki"},{"rl.create","k"},{"rl.add","ksk"},{"rl.dump","k"},{"rl.views","k"},{"rl.toev","kk"},{"rl.fromev","kk"},
  {"fl.parse","ksk"},{"fl.validate","k"},{"fl.clone","kk"},{"fl.match","kk"},{"fl.get","k"},{"fl.free","k"},{"cm.parse","sk"},
  {"rm.ser","kzsis"},
  {"uri.parse","s"},{"n19.dec","ks"},{"n19.enc","kk"},{"uri.enc","kk"},{"b32.dkey","s"},{"b32.dpriv","s"},{"b32.dnote","s"},{"b32.key","fsz"},{"b32.priv","fz"},{"b32.note","fz"},
  {"n49.val","s"},{"n49.dec","ss"},{"n49.enc","fskz"},{"n5.parse","szz"},{"n5.url","ssz"},{"n5.resp","sszk"},{"n5.verify","sssk"},
  {"hd.path","fffs"},{"hd.seed","s"},{"hd.derive","fffi"},{"mn.validate","s"},{"mn.seed","ss"},{"hex.decode","sk"},{"hex.to_bytes","sk"},{"valid.hex","s"},{"key.fromhex","s"},{"priv.fromhex","s"},{"kp.fromhex","s"},{"key.tohex","fz"},{"priv.tohex","fz"},
  {"n13.diff","f"},{"n13.verify","ki"},{"n13.add","kii"},
  {"ri.new","k"},{"ri.str","ks"},{"ri.lim","ki"},{"ri.nips","kk"},{"ri.addnip","i"},{"ri.ret","kii"},{"ri.list","ks"},{"ri.fee","kisik"},{"ri.ser","zk"},{"ri.limser","zk"},{"ri.nipsget","k"},{"ri.free","k"},
  {"rl.new","ks"},{"rl.connect","k"},{"rl.disconnect","k"},{"rl.sub","kssk"},{"rl.unsub","ks"},{"rl.cb","k"},{"rl.inj","kks"},{"rl.log","k"},{"rl.wire","k"},{"rl.state","k"},{"rl.destroy","k"},{"rl.send","k"},
#ifdef VF_SHIM
  {"sx.ev","kkkffs"},{"sx.wrap","kfffsk"},{"nip44.enc","ffs"},{"nip44.dec","ffs"},{"nip04.enc","ffs"},{"nip04.dec","ffs"},{"g.wrap","kkff"},{"g.unwrap","kkfk"},{"g.rumor","kifs"},{"g.seal","k"},{"g.gift","kkfl"},{"d.rumor","kifsi"},{"d.send","ksffsfi"},{"d.unwrap","kkfk"},
  {"nw.uri","ks"},{"nw.req","kkssk"},{"nw.info","k"},{"nw.resp","kfk"},{"nw.notif","kfk"},{"nw.pay","si"},{"nw.make","issi"},{"nw.list","iiiiks"},{"nw.lookup","ss"},{"nw.keysend","issl"},{"nw.multi","lli"},{"nw.pbal","s"},{"nw.ppay","s"},{"nw.pinfo","s"},
  {"n46.parse","kf"},{"n46.resp","ksssff"},
#endif
  {"vf.time","k"} };
static unsigned char spec_idx[1024];
NOSAN static const char *spec_of(const char *l, size_t n) { static int once; if (!once) { once = 1; for (size_t i = 0; i < sizeof SPEC / sizeof *SPEC; i++) { unsigned h = op_slot(SPEC[i].op); if (!ops[h].f) abort(); spec_idx[h] = i + 1; } }
  char nm[40]; if (n >= sizeof nm) return NULL; for (size_t i = 0; i < n; i++) nm[i] = l[i]; nm[n] = 0; unsigned k = spec_idx[op_slot(nm)]; return k ? SPEC[k - 1].spec : NULL; }
/* may this line of a mutated script run? */
static int spec_allows(const char *l) { size_t k = strcspn(l, " "); const char *sp = spec_of(l, k); if (!sp) return 0; if (*sp != '!') return 1; int i = l[k] ? atoi(l + k + 1) : 0; return i >= 0 && i < NSLOT && EV[i]; }
