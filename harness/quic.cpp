// bnl-quic: key derivation, packet protection, handshake, streams, connection, timers.
#include "quicconn.h"
static const QC::aead AEADS[] = {QC::aead::aes_128_gcm, QC::aead::aes_256_gcm, QC::aead::chacha20_poly1305}; static const QC::hash HASHES[] = {QC::hash::sha256, QC::hash::sha384};
static const EVP_AEAD *evp_of(size_t a) { return a == 0 ? &a128 : a == 1 ? &a256 : &chacha; } static const EVP_MD *md_of(size_t h) { return h ? &md384 : &md256; }
// RFC 8446 7.1: struct { uint16 length; opaque label<7..255> = "tls13 " + Label; opaque context<0..255>; } HkdfLabel
static bytes hkdf_label(const char *label, size_t size) { bytes l; l.b[l.n++] = (uint8_t) (size >> 8); l.b[l.n++] = (uint8_t) size; size_t at = l.n++; l.str("tls13 "); l.str(label); l.b[at] = (uint8_t) (l.n - at - 1); l.b[l.n++] = 0; return l; }
// the output of the derivation with these inputs, or null when it was never made
static const bytes *derived(const EVP_MD *md, const bytes &secret, const char *label, size_t size) { bytes l = hkdf_label(label, size); const bytes *r = nullptr; for (size_t i = 0; i < W.hkdfs; i++) { auto &h = W.hkdf[i]; if (h.expand && h.md == md && h.out.n == size && h.other.is(l) && h.secret.is(secret)) r = &h.out; } return r; }
static void is_key(const bytes &key, const bytes &iv, const bytes *hp, const EVP_MD *md, size_t size, const bytes &secret) {
  const bytes *k = derived(md, secret, "quic key", size), *i = derived(md, secret, "quic iv", 12), *h = derived(md, secret, "quic hp", size);
  sym_check(k && key.is(*k), "the packet protection key is derived from its secret"); sym_check(i && iv.is(*i), "the packet protection IV is derived from its secret"); if (hp) sym_check(h && hp->is(*h), "the header protection key is derived from its secret"); }

// ---------------------------------------------------------------- C32: key schedule
ENTRY(key_schedule) {
  uint64_t live = sym_live(); {
    size_t a = pick(2, "aead"), h = pick(1, "hash"), n = sym_param("n", 32); const EVP_MD *md = md_of(h); QC c(AEADS[a], HASHES[h]); bytes s, salt; s.any(n, "secret"); salt.any(pick(2, "salt size") * 10, "salt"); W.fail_at = (unsigned) pick(3, "failing call");
    size_t op = pick(4, "operation"), hs = (size_t) md->id / 8; if (op == 0) W.fail_at = W.fail_at ? 1 : 0;
    if (op == 4) { auto r = c.packet_protection_key(s.view()); sym_check(bool(r) == !W.failed, "a failing derivation is an error"); if (r) { bytes k, i, p; auto &key = r.value(); k.add(key.data().data(), key.data().size()); i.add(key.iv().data(), key.iv().size()); p.add(key.hp().data(), key.hp().size()); is_key(k, i, &p, md, a == 0 ? 16 : 32, s); QC::key_view v = key; sym_check(same(v.data(), k) && same(v.iv(), i) && same(v.hp(), p), "a key view shows its key"); sym_reach("keys"); } else { sym_check(r.error() == QE::crypto, "a crypto error"); sym_reach("failure"); } }
    else { auto r = op == 0 ? c.initial_secret(s.view(), salt.view()) : op == 1 ? c.update_secret(s.view()) : op == 2 ? c.client_initial_secret(s.view()) : c.server_initial_secret(s.view()); sym_check(bool(r) == !W.failed, "a failing derivation is an error");
      if (r) { base::buffer_view out = r.value(); if (op == 0) { sym_check(W.hkdfs == 1 && !W.hkdf[0].expand && W.hkdf[0].md == md && W.hkdf[0].secret.is(s) && W.hkdf[0].other.is(salt) && same(out, W.hkdf[0].out) && out.size() == hs, "the initial secret is extracted from the connection id with the salt"); sym_reach("extract"); }
        else { const bytes *x = derived(md, s, op == 1 ? "traffic upd" : op == 2 ? "client in" : "server in", op == 1 ? n : hs); sym_check(x && same(out, *x), "a secret is expanded with the label and length of its purpose"); sym_reach(op == 1 ? "update" : "initial"); } }
      else { sym_check(r.error() == QE::crypto, "a crypto error"); sym_reach("failure"); } }
    sym_check(c.aead_overhead() == 16, "every AEAD adds a 16 byte tag"); sym_trace(W.hkdfs); }
  sym_check(sym_live() == live, "no key material leaks"); }

// ---------------------------------------------------------------- C33: packet protection primitives
ENTRY(packet_protection) {
  size_t a = pick(2, "aead"), h = pick(1, "hash"), op = pick(2, "operation"), n = sym_param("text", 0) ? sym_param("text", 0) : pick(sym_param("n", 4), "size"), room = pick(2, "extra room"); QC c(AEADS[a], HASHES[h]); W.fail_at = (unsigned) pick(2, "failing call"); size_t ks = evp_of(a)->key; bytes key, nonce, in, ad; key.any(ks, "key"); nonce.any(12, "nonce"); ad.any(pick(2, "associated data size"), "associated data");
  uint8_t *out = new uint8_t[n + 64];
  if (op == 2) { in.any(16, "sample"); auto r = c.hp_mask(base::buffer_view_mut(out, 16), key.view(), in.view()); sym_check(bool(r) == !W.failed, "a failing cipher is an error"); if (r) { sym_check(masks == 1 && M.key.is(key), "the mask uses the header protection key"); sym_check(out[0] == 0xa0 && out[4] == 0xa4, "the mask is the cipher's output");
      if (a == 2) { bool zero = M.n >= 5; for (size_t i = 0; i < M.in.n; i++) zero = zero && M.in.b[i] == 0; uint32_t ctr = in.b[0] | (uint32_t) in.b[1] << 8 | (uint32_t) in.b[2] << 16 | (uint32_t) in.b[3] << 24; sym_check(!M.aes && zero, "the ChaCha20 mask is the key stream: the encryption of zero bytes"); sym_check(M.counter == ctr && M.nonce.n == 12 && sym_eqmem(M.nonce.b, in.b + 4, 12), "counter and nonce come from the sample"); sym_reach("chacha"); }
      else { sym_check(M.aes && M.in.is(in), "the AES mask is the encryption of the sample"); sym_reach("aes"); } } else { sym_check(r.error() == QE::crypto, "a crypto error"); sym_reach("failure"); } }
  else { bool seal = op == 0; size_t size = seal ? n : n + 16; in.any(size, "text"); size_t need = seal ? n + 16 : n; if (!seal && flip("short")) { in.n = n; need = n; } auto r = seal ? c.encrypt(base::buffer_view_mut(out, need + (seal ? 0 : room)), in.view(), key.view(), nonce.view(), ad.view()) : c.decrypt(base::buffer_view_mut(out, need + room), in.view(), key.view(), nonce.view(), ad.view());
    bool shrt = !seal && in.n < 16; sym_check(bool(r) == (!W.failed && !shrt), "a failing cipher is an error"); if (!r) { sym_check(r.error() == QE::crypto, "a crypto error"); sym_reach("failure"); }
    if (W.aeads) { auto &x = W.aead[0]; sym_check(W.aeads == 1 && x.seal == seal && x.aead == evp_of(a) && x.key.is(key) && x.nonce.is(nonce) && x.in.is(in) && x.ad.is(ad), "the cipher gets key, nonce, text and associated data as given"); sym_check(x.tag == EVP_AEAD_DEFAULT_TAG_LENGTH || x.tag == 16, "with the full tag"); sym_check(x.out == out && x.max <= n + 64, "and writes to the destination"); if (r) sym_reach(seal ? "sealed" : "opened"); } }
  sym_check(W.ctx_live == 0, "every cipher context is released"); delete[] out; sym_trace(W.calls); }

// ---------------------------------------------------------------- C34: one stream, any history
ENTRY(stream_history) {
  static const size_t SIZES[] = {0, 1, 3, 21, 20}; uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); uint64_t id = sym_param("uni", 0) ? 2 : 0; auto &s = stream_of(id); unsigned depth = (unsigned) sym_param("depth", 4); size_t sizes = sym_param("sizes", 3); if (sym_param("blocked", 0)) W.bidi_limit = W.uni_limit = 0;
    for (unsigned d = 0; d < depth; d++) { W.mode = 1; size_t op = d == 0 ? 0 : pick(3, "operation"); if (s.fin && op < 2) continue;
      switch (op) {
        case 0: case 1: { size_t k = SIZES[pick(sizes, "size")]; bool fin = op == 1; sym_note(fin ? "add with fin" : "add"); base::buffer b = chunk(s, k); s.fin = fin; auto r = C->add(quic::event(quic::data{id, fin, std::move(b)})); sym_check(bool(r), "data is accepted"); break; }
        case 2: sym_note("send"); send_stream(s); break;
        default: { if (s.off == s.acked) break; size_t left = s.off - s.acked, n = left <= 3 ? pick(left, "acknowledged") : flip("all") ? left : left - 1; if (s.fin && s.finned && s.acked + n == s.data.n) break; sym_note("ack"); ack(s, n, 0); break; } }
      sym_check(N->cb.acked_stream_data_offset(N, (int64_t) id, s.acked, s.off - s.acked + 1, N->user, nullptr) != 0, "an acknowledgement of more than was sent is refused"); in_flight(); }
    W.mode = 0; W.bidi_limit = W.uni_limit = 9; if (!s.fin) { s.fin = true; sym_check(bool(C->add(quic::event(quic::data{id, true, base::buffer()}))), "the end is accepted"); }
    W.max_accept = sym_param("accept", 7); for (unsigned k = 0; s.off < s.data.n || !s.finned; k++) { if (k > 90) { sym_check(false, "a stream drains"); break; } send_stream(s); }
    send_stream(s); sym_check(s.finned && s.off == s.data.n, "everything is sent and the end is announced");
    size_t left = s.data.n - s.acked, first = pick(1, "in two steps") ? left / 2 : 0; if (first) ack(s, first, 0); if (left - first) ack(s, left - first, 0); sym_check(N->cb.acked_stream_data_offset(N, (int64_t) id, s.acked, 0, N->user, nullptr) == 0, "an acknowledgement of the end alone is accepted"); send_stream(s);
    if (s.data.n) sym_check(N->cb.acked_stream_data_offset(N, (int64_t) id, s.acked, 1, N->user, nullptr) != 0, "an acknowledgement of data that was never sent is refused"); sym_trace(s.off); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }

// ---------------------------------------------------------------- C35: handshake
static const EVP_MD *suite_md() { return the_cipher.id == 0x1302 || the_cipher.id == 0x03001302 ? &md384 : &md256; } static size_t suite_key() { return the_cipher.id == 0x03001301 ? 16 : 32; }
static const key_call *installed(int kind, size_t from) { const key_call *r = nullptr; for (size_t i = from; i < W.keys; i++) if (W.key[i].kind == kind) { sym_check(!r, "keys are installed once"); r = &W.key[i]; } return r; }
static void installed_from(int kind, size_t from, const bytes &secret) { auto *k = installed(kind, from); sym_check(k, "keys are installed for the direction and level of their secret"); if (k) is_key(k->key, k->iv, kind == UPDATE_TX || kind == UPDATE_RX ? nullptr : &k->hp, suite_md(), suite_key(), secret); }
ENTRY(handshake_start) {
  uint64_t live = sym_live(); { bool v6 = flip("ipv6"); setup z(v6, true); the_cipher.id = 0x03001301; bytes salt, dcid; { auto &s = the_conn.settings; auto &p = z.params; sym_check(s.max_stream_data_bidi_local == p.max_stream_data_bidi_local && s.max_stream_data_bidi_remote == p.max_stream_data_bidi_remote && s.max_stream_data_uni == p.max_stream_data_uni && s.max_data == p.max_data && s.max_streams_bidi == p.max_streams_bidi && s.max_streams_uni == p.max_streams_uni, "the transport gets the limits given"); sym_check(s.idle_timeout == (uint64_t) p.idle_timeout.count() && s.max_ack_delay == (uint64_t) p.max_ack_delay.count() && s.max_packet_size == p.max_packet_size && s.ack_delay_exponent == p.ack_delay_exponent && s.disable_migration == p.disable_migration, "the transport gets the parameters given"); } salt.str(NGTCP2_INITIAL_SALT); dcid.add(the_conn.dcid.data, the_conn.dcid.datalen);
    sym_check(W.conn_live == 1 && the_conn.user == z.c && the_conn.version == NGTCP2_PROTO_VER, "the transport is created for this connection"); sym_check(the_conn.local.is(z.local) && the_conn.remote.is(z.peer), "on the path it was given"); sym_check(dcid.n >= 8 && the_conn.scid.datalen <= 20, "connection ids have a legal length");
    const bytes *s = nullptr; for (size_t i = 0; i < W.hkdfs; i++) if (!W.hkdf[i].expand && W.hkdf[i].md == &md256 && W.hkdf[i].secret.is(dcid) && W.hkdf[i].other.is(salt)) s = &W.hkdf[i].out; sym_check(s, "initial secrets come from the destination connection id and the salt of this version");
    if (s) { const bytes *c = derived(&md256, *s, "client in", 32), *v = derived(&md256, *s, "server in", 32); sym_check(c && v, "client and server initial secrets are derived"); if (c && v) { installed_from(INITIAL_TX, 0, *c); installed_from(INITIAL_RX, 0, *v); } } sym_check(W.keys == 2, "nothing but initial keys is installed");
    sym_check(the_ssl.alpn.n == sizeof(NGTCP2_ALPN_H3) - 1 && sym_eqmem(the_ssl.alpn.b, NGTCP2_ALPN_H3, the_ssl.alpn.n), "HTTP/3 is the protocol offered"); sym_check(the_ssl.host.is(z.name), "the host is the server name"); sym_check(the_ssl.connect >= 1 && the_ssl.min == TLS1_3_VERSION && the_ssl.max == TLS1_3_VERSION, "a TLS 1.3 client"); sym_check(W.tp_encodes == 1 && the_ssl.tp.is(W.local_tp), "the transport parameters are offered"); sym_check(the_ssl.method != nullptr, "TLS hands its data to QUIC"); sym_check(the_conn.settings.initial_ts == W.now * 1000, "time is given in nanoseconds"); sym_trace(W.now); sym_reach("end"); }
  sym_check(W.conn_live == 0 && W.ssl_live == 0 && W.sslctx_live == 0, "the libraries' objects are released once"); sym_check(sym_live() == live, "nothing leaks"); }

static int level_of(int ssl) { return ssl == ssl_encryption_initial ? NGTCP2_CRYPTO_LEVEL_INITIAL : ssl == ssl_encryption_early_data ? NGTCP2_CRYPTO_LEVEL_EARLY : ssl == ssl_encryption_handshake ? NGTCP2_CRYPTO_LEVEL_HANDSHAKE : NGTCP2_CRYPTO_LEVEL_APP; }
static struct { int op; int level; bytes tx, rx; bool have = false, bad = false; size_t n; } T; // what TLS does during the next SSL_do_handshake, and the application secrets so far
static void tls_step() {
  auto level = (ssl_encryption_level_t) T.level; size_t k0 = W.keys, c0 = W.cryptos; bool was = W.failed;
  if (T.op == 1) { uint8_t *d = new uint8_t[T.n + 1]; bytes copy; copy.any(T.n, "handshake data"); for (size_t i = 0; i < T.n; i++) d[i] = copy.b[i]; int rv = the_ssl.method->add_handshake_data(&the_ssl, level, d, T.n); delete[] d; sym_check((rv == 1) == (W.failed == was), "TLS learns whether its data was accepted"); if (rv != 1) { T.bad = true; return; } sym_check(W.cryptos == c0 + 1 && W.crypto[c0].level == level_of(level) && W.crypto[c0].data.is(copy), "handshake data is submitted once, unchanged, at its level"); sym_reach("handshake data"); }
  else if (T.op == 2) { size_t n = (size_t) suite_md()->id / 8; bytes ws, rs; ws.unique(n, "write secret"); rs.unique(n, "read secret"); uint8_t *d = new uint8_t[2 * n]; for (size_t i = 0; i < n; i++) { d[i] = ws.b[i]; d[n + i] = rs.b[i]; } bool early = level == ssl_encryption_early_data, known = W.cipher && the_cipher.id >= 0x03001301 && the_cipher.id <= 0x03001303;
    int rv = the_ssl.method->set_encryption_secrets(&the_ssl, level, early ? nullptr : d + n, d, n); delete[] d; bool ok = W.failed == was && known && level != ssl_encryption_initial; sym_check((rv == 1) == ok, "TLS learns whether its secrets were usable"); if (rv != 1) { T.bad = true; return; }
    sym_check(W.overhead == 16, "the transport knows the AEAD overhead"); if (early) { installed_from(EARLY, k0, ws); sym_check(W.keys == k0 + 1, "a client has no read key for early data"); sym_reach("early"); } else if (level == ssl_encryption_handshake) { installed_from(HANDSHAKE_TX, k0, ws); installed_from(HANDSHAKE_RX, k0, rs); sym_check(W.keys == k0 + 2, "one key for each direction"); sym_reach("handshake keys"); } else { installed_from(APP_TX, k0, ws); installed_from(APP_RX, k0, rs); sym_check(W.keys == k0 + 2, "one key for each direction"); T.tx = ws; T.rx = rs; T.have = true; sym_reach("application keys"); } }
}
// what the next SSL_do_handshake does; true when the handshake goes on or is complete
static void tls_next(bool may_finish) { T.op = (int) pick(2, "TLS step"); T.bad = false; if (T.op) T.level = (int) pick(3, "level"); bool lean = sym_param("lean", 0); T.n = T.op == 1 ? (size_t) (!lean && flip("long") ? 21 : 2) : 0; W.script = tls_step;
  size_t o = pick(lean ? 2 : 3, "TLS outcome"); if (!may_finish && o == 0) o = 1; W.hs_rv = o == 0 ? 1 : -1; W.ssl_error = o == 1 ? SSL_ERROR_WANT_READ : o == 2 ? SSL_ERROR_SSL : SSL_ERROR_WANT_WRITE; }
static bool tls_failed() { if (T.bad) return true; return W.hs_rv <= 0 && W.ssl_error == SSL_ERROR_SSL; }
ENTRY(handshake_history) {
  uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; static const uint32_t ids[] = {0x03001301, 0x03001302, 0x03001303, 0x03001304}; the_cipher.id = ids[sym_param("suite", 0)]; W.cipher = sym_param("cipher", 1); bytes::plain = sym_param("plain", 0); unsigned depth = (unsigned) sym_param("depth", 2); W.calls = 0; W.fail_at = (unsigned) pick(sym_param("faults", 10), "failing call"); W.handshake_done = sym_param("done", 0); W.peer_tp.any(9, "peer parameters"); bool over = false; W.tls_bad = &T.bad;
    if (sym_param("secrets", 0)) { unsigned f = W.fail_at; W.fail_at = 0; T.op = 2; T.level = ssl_encryption_application; tls_step(); W.calls = 0; W.fail_at = f; }
    for (unsigned d = 0; d < depth && !over; d++) { unsigned dh = W.do_handshakes; size_t k0 = W.keys; bool done = W.handshake_done;
      size_t op = d == 0 && sym_param("op0", 9) != 9 ? (size_t) sym_param("op0", 9) : pick(4, "operation");
      switch (op) {
        case 0: { sym_note("client initial"); tls_next(true); int rv = N->cb.client_initial(N, N->user); sym_check(W.do_handshakes == dh + 1, "the handshake is driven"); sym_check((rv == 0) == !tls_failed(), "a failing handshake fails the callback"); over = rv != 0; if (rv == 0) sym_reach("started"); break; }
        case 1: { sym_note("crypto data"); bytes in; in.any(!sym_param("lean", 0) && flip("long") ? 21 : 1, "received"); int level = (int) pick(3, "received level"); unsigned p = W.provides, q = W.posts, r = W.remote_sets, c = W.done_calls; if (!done) tls_next(true); int rv = N->cb.recv_crypto_data(N, (ngtcp2_crypto_level) level_of(level), 0, in.b, in.n, N->user);
          if (W.provides == p) { sym_check(W.failed && rv == NGTCP2_ERR_CRYPTO, "refused data is a crypto error"); over = true; break; } sym_check(W.provided_level == level && W.provided.is(in), "TLS gets the data at its level");
          if (done) { sym_check(W.do_handshakes == dh, "a completed handshake is over"); sym_check(W.failed ? rv == NGTCP2_ERR_CRYPTO : rv == 0 && W.posts == q + 1, "later data is processed"); W.script = nullptr; over = rv != 0; sym_reach("post handshake"); break; }
          sym_check(W.do_handshakes == dh + 1, "the handshake is driven"); if (tls_failed()) { sym_check(rv == NGTCP2_ERR_CRYPTO, "a failing handshake is a crypto error"); over = true; sym_reach("crypto error"); break; }
          if (W.hs_rv <= 0) { sym_check(rv == 0 && !W.handshake_done, "an unfinished handshake goes on"); break; }
          if (W.failed) { sym_check(rv != 0, "unusable transport parameters fail the callback"); over = true; break; }
          sym_check(rv == 0 && W.done_calls == c + 1 && W.remote_sets == r + 1 && W.remote_tp.is(W.peer_tp), "completion is reported once, with the peer's transport parameters"); sym_reach("completed"); break; }
        case 2: { if (!T.have) break; sym_note("update key"); const EVP_MD *md = suite_md(); size_t n = (size_t) md->id / 8; int rv = N->cb.update_key(N, N->user); sym_check((rv == 0) == !W.failed, "a failing key update fails the callback"); over = rv != 0; if (rv) { sym_reach("failed update"); break; }
          const bytes *t = derived(md, T.tx, "traffic upd", n), *r = derived(md, T.rx, "traffic upd", n); sym_check(t && r, "the next secrets are derived from the current ones"); if (!t || !r) break; T.tx = *t; T.rx = *r; installed_from(UPDATE_TX, k0, T.tx); installed_from(UPDATE_RX, k0, T.rx); sym_check(W.keys == k0 + 2, "one key for each direction"); sym_reach("updated"); break; }
        case 3: { if (!W.cryptos) break; sym_note("ack"); size_t i = 0; while (i < W.cryptos && W.crypto[i].acked == W.crypto[i].data.n) i++; if (i == W.cryptos) break; int level = W.crypto[i].level; size_t total = 0; for (size_t k = 0; k < W.cryptos; k++) if (W.crypto[k].level == level) total += W.crypto[k].data.n - W.crypto[k].acked; size_t n = flip("all") ? total : 1;
          size_t m = n; for (size_t k = 0; k < W.cryptos && m; k++) if (W.crypto[k].level == level) { size_t x = W.crypto[k].data.n - W.crypto[k].acked; if (x > m) x = m; W.crypto[k].acked += x; m -= x; } int rv = N->cb.acked_crypto_offset(N, (ngtcp2_crypto_level) level, 0, n, N->user); sym_check(rv == 0, "an acknowledgement is accepted"); sym_check(n != total || N->cb.acked_crypto_offset(N, (ngtcp2_crypto_level) level, 0, 1, N->user) != 0, "an acknowledgement of data that was never submitted is refused"); sym_reach("acked"); break; }
        default: { sym_note("send"); tls_next(true); W.write_rv = 0; auto r = C->send(); sym_check(!r && (tls_failed() ? r.error() == QE::handshake : r.error() == QE::idle), "a failing handshake fails send"); over = tls_failed(); break; } }
      in_flight(); if (W.failed) over = true; }
    sym_trace(W.keys); sym_trace(W.cryptos); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }

// ---------------------------------------------------------------- C36: connection
struct seen { int kind; uint64_t id, value; bool fin; bytes data; }; static seen SEEN[8]; static size_t seen_n, read_steps;
static void packet_contents() { for (size_t i = 0; i < read_steps; i++) { int rv = 0; auto &e = SEEN[seen_n];
  switch (pick(4, "frame")) {
    case 0: { e.kind = 0; e.id = sym_int(8, "stream"); sym_assume(e.id < (1ull << 62)); e.fin = sym_int(1, "fin") & 1; static const size_t n[] = {2, 0, 21}; e.data.any(n[pick(2, "size")], "stream data"); uint8_t *d = new uint8_t[e.data.n + 1]; for (size_t k = 0; k < e.data.n; k++) d[k] = e.data.b[k]; rv = N->cb.recv_stream_data(N, (int64_t) e.id, e.fin, sym_int(4, "offset"), d, e.data.n, N->user, nullptr); delete[] d; seen_n++; break; }
    case 1: { e.kind = 1; e.id = sym_int(8, "stream"); sym_assume(e.id < (1ull << 62)); e.value = sym_int(8, "error code"); rv = N->cb.stream_reset(N, (int64_t) e.id, sym_int(4, "final size"), e.value, N->user, nullptr); seen_n++; break; }
    case 2: rv = N->cb.stream_open(N, (int64_t) sym_int(4, "stream"), N->user); break;
    case 3: rv = N->cb.stream_close(N, (int64_t) sym_int(4, "stream"), sym_int(4, "error code"), N->user, nullptr); break;
    default: { uint64_t v = sym_int(8, "limit"); switch (pick(5, "limit of")) { case 0: rv = N->cb.extend_max_local_streams_bidi(N, v, N->user); break; case 1: rv = N->cb.extend_max_local_streams_uni(N, v, N->user); break; case 2: rv = N->cb.extend_max_remote_streams_bidi(N, v, N->user); break; case 3: rv = N->cb.extend_max_remote_streams_uni(N, v, N->user); break; case 4: rv = N->cb.extend_max_stream_data(N, 0, v, N->user, nullptr); break; default: rv = N->cb.handshake_completed(N, N->user); } break; } }
  sym_check(rv == 0, "a legal frame is accepted"); } }
ENTRY(connection_events) { // everything the peer sends appears once, in order, unchanged
  uint64_t live = sym_live(); { bytes::plain = true; setup z(flip("ipv6")); C = z.c; established(); bytes::plain = false; W.on_read = packet_contents; unsigned packets = (unsigned) sym_param("packets", 2); size_t given = 0; bool errors[4] = {}; size_t after[4] = {}, k = 0, errs = 0;
    for (unsigned p = 0; p < packets; p++) { read_steps = pick(sym_param("frames", 2), "frames"); bytes in; in.any(p ? 3 : 30, "packet"); W.read_rv = flip("refused") ? NGTCP2_ERR_CRYPTO : 0; W.now = sym_int(6, "time"); size_t from = seen_n; (void) from; auto r = C->recv(in.view()); sym_check(bool(r), "reading a packet yields its events"); sym_check(W.reads == p + 1 && W.in.is(in) && W.ts == W.now * 1000, "the transport gets the packet as it arrived, with the time"); sym_check(W.path_local.is(z.local) && W.path_remote.is(z.peer), "and the path"); if (W.read_rv) { errors[errs] = true; after[errs++] = seen_n; }
      size_t take = p + 1 < packets ? pick(3, "events taken") : 99; auto &g = r.value(); for (size_t i = 0; i < take && g.next(); i++) { auto e = g.get();
        if (k < errs && after[k] == given) { sym_check(!e && e.error() == QE::ngtcp2, "a refused packet is reported in its place"); k++; sym_reach("refused"); continue; }
        sym_check(given < seen_n, "no event without a cause"); if (given >= seen_n) break; auto &s = SEEN[given++]; sym_check(bool(e), "an event"); if (!e) continue; auto &v = e.value(); sym_check(v.id() == s.id, "an event belongs to its stream");
        if (s.kind == 0) { sym_check(v == quic::event::type::data && v.data.id == s.id && v.data.fin == s.fin && s.data.is(v.data.buffer.data(), v.data.buffer.size()), "stream data arrives as it was received"); sym_reach("data"); } else { sym_check(v == quic::event::type::error && v.error.id == s.id && v.error.value == s.value && v.error.type == quic::application::error::rst_stream, "a reset is reported with its code"); sym_reach("reset"); } }
      if (take == 99) sym_check(!g.next() && given == seen_n && k == errs, "every event is reported once"); }
    sym_trace(given); sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }

ENTRY(connection_send) { // handshake and control packets first, then streams by id; one blocked stream does not hold up another
  static const uint64_t IDS[] = {0, 4, 2}; uint64_t live = sym_live(); { bytes::plain = true; setup z; C = z.c; established(); size_t streams = sym_param("streams", 2); bytes::plain = false;
    for (size_t i = 0; i < streams; i++) { auto &s = stream_of(IDS[i]); size_t k = i ? 2 : pick(2, "size"); s.fin = k == 0 || flip("fin"); /* streams are opened in ascending order: each has something to send */ base::buffer b = chunk(s, k); sym_check(bool(C->add(quic::event(quic::data{IDS[i], s.fin, std::move(b)}))), "data is accepted"); }
    W.bidi_limit = pick(2, "bidirectional limit"); W.uni_limit = pick(streams > 2 ? 1 : 0, "unidirectional limit"); unsigned depth = (unsigned) sym_param("depth", 2);
    for (unsigned d = 0; d < depth; d++) { W.handshake_done = !flip("handshake pending"); W.mode = 1; size_t w = pick(2, "control packet"); W.write_rv = w == 0 ? 0 : w == 1 ? 30 : NGTCP2_ERR_CRYPTO; W.now = sym_int(6, "time"); unsigned writes = W.writes, sw = W.stream_writes; W.last_id = -1; size_t off[4]; bool finned[4], pend[4]; for (size_t i = 0; i < 4; i++) { auto &s = W.s[i]; off[i] = s.off; finned[i] = s.finned; pend[i] = s.known && (s.off < s.data.n || (s.fin && !s.finned)); }
      auto r = C->send(); in_flight(); sym_check(W.writes == writes + 1 && W.ts == W.now * 1000, "the transport is asked for a packet, with the time"); sym_check(W.path_local.is(z.local) && W.path_remote.is(z.peer), "on its path");
      if (w == 1) { sym_check(bool(r) && W.packet.is(r.value().data(), r.value().size()) && W.stream_writes == sw, "the transport's packets go first, unchanged"); sym_reach("packet"); continue; }
      if (w == 2) { sym_check(!r && r.error() == QE::ngtcp2 && W.stream_writes == sw, "a transport failure is an error"); sym_reach("failure"); continue; }
      if (!W.handshake_done) { sym_check(!r && r.error() == QE::idle && W.stream_writes == sw, "stream data waits for the handshake"); sym_reach("waiting"); continue; }
      if (r) { sym_check(W.packet.is(r.value().data(), r.value().size()), "a packet is returned as the transport built it"); sym_check(W.last_outcome == 2 || W.last_outcome == 3, "a packet was built"); sym_reach("stream packet"); continue; }
      if (r.error() != QE::idle) { sym_check(r.error() == QE::ngtcp2 && W.last_outcome == 4, "a transport failure is an error"); sym_reach("stream failure"); continue; }
      size_t tried = W.stream_writes - sw, open = 0; for (size_t i = 0; i < 4; i++) { if (pend[i] && W.s[i].opened) open++; sym_check(W.s[i].off == off[i] && W.s[i].finned == finned[i], "an idle connection sent nothing"); } sym_check(tried == open, "every open stream with something to send is offered before the connection is idle"); sym_check((W.bidi_limit == 0 || [&] { for (auto &s : W.s) if (s.known && s.id % 4 == 0 && !s.opened && (s.off < s.data.n || s.fin)) return false; return true; }()), "streams are opened as far as the peer allows"); sym_reach("idle"); }
    W.mode = 0; W.write_rv = 0; W.bidi_limit = W.uni_limit = 9; W.handshake_done = true; unsigned n = 0; while (C->send()) { if (++n > 20) { sym_check(false, "a connection drains"); break; } }
    for (size_t i = 0; i < streams; i++) { auto &s = stream_of(IDS[i]); sym_check(s.off == s.data.n && s.finned == s.fin, "every stream is sent completely"); sym_trace(s.off); } sym_reach("end"); }
  sym_check(sym_live() == live, "nothing leaks"); }

// ---------------------------------------------------------------- C37: what the transport asks for
ENTRY(transport_services) {
  bytes::plain = true; bool v6 = flip("ipv6"); setup z(v6); C = z.c; established(); bytes::plain = false;
  switch (pick(5, "service")) {
    case 0: { uint8_t d[40]; for (auto &x : d) x = 0xee; uint8_t l[2] = {1, 2}, r[2] = {3, 4}; ngtcp2_path p; p.local = {2, l, nullptr}; p.remote = {2, r, nullptr}; bool ok = flip("validated"); int rv = N->cb.path_validation(N, &p, ok ? NGTCP2_PATH_VALIDATION_RESULT_SUCCESS : NGTCP2_PATH_VALIDATION_RESULT_FAILURE, N->user); sym_check((rv == 0) == ok, "a path that fails validation fails the callback"); sym_reach("path"); break; }
    case 1: { uint8_t rnd[8]; sym_fill(rnd, 8, "reset"); ngtcp2_pkt_stateless_reset s = {rnd, rnd, 8}; int rv = N->cb.recv_stateless_reset(N, (const ngtcp2_pkt_stateless_reset *) &s, N->user); sym_check(rv == NGTCP2_ERR_CALLBACK_FAILURE, "a stateless reset is not ignored"); ngtcp2_pkt_hd h = {}; ngtcp2_pkt_retry q = {}; sym_check(N->cb.recv_retry(N, &h, &q, N->user) == NGTCP2_ERR_CALLBACK_FAILURE, "a retry is not ignored"); sym_reach("unsupported"); break; }
    case 2: { ngtcp2_preferred_addr a = {}; sym_fill(a.ipv4_addr, 4, "ipv4"); sym_fill(a.ipv6_addr, 16, "ipv6"); a.ipv4_port = (uint16_t) sym_int(2, "port"); a.ipv6_port = (uint16_t) sym_int(2, "port"); size_t n = v6 ? 16 : 4; uint8_t *d = new uint8_t[n]; ngtcp2_addr dest = {n, d, nullptr}; int rv = N->cb.select_preferred_addr(N, &dest, &a, N->user); sym_check(rv == 0 && sym_eqmem(d, v6 ? a.ipv6_addr : a.ipv4_addr, n), "the preferred address of the path's family is chosen"); delete[] d; sym_reach("preferred"); break; }
    case 3: { size_t n = sym_param("text", 0) ? sym_param("text", 0) : pick(20, "size"); uint8_t *d = new uint8_t[n]; sym_poison(d, n); sym_check(N->cb.rand(N, d, n, NGTCP2_RAND_CTX_NONE, N->user) == 0, "random bytes are provided"); for (size_t i = 0; i < n; i++) sym_trace(d[i]); delete[] d; ngtcp2_cid c = {}; uint8_t *t = new uint8_t[16]; sym_poison(t, 16); size_t k = 4 + pick(14, "id size"); sym_check(N->cb.get_new_connection_id(N, &c, t, k, N->user) == 0 && c.datalen == k, "a connection id of the requested size"); for (size_t i = 0; i < 16; i++) sym_trace(t[i]); for (size_t i = 0; i < k; i++) sym_trace(c.data[i]); for (size_t i = k; i < NGTCP2_MAX_CIDLEN; i++) sym_check(c.data[i] == 0, "no more is written"); sym_check(N->cb.remove_connection_id(N, &c, N->user) == 0, "a connection id can be retired"); delete[] t; sym_reach("random"); break; }
    case 4: { W.idle_timeout = sym_int(8, "timeout"); W.expiry = sym_int(8, "expiry"); W.loss_expiry = sym_int(8, "loss detection"); W.ack_expiry = sym_int(8, "ack delay"); W.now = sym_int(6, "now"); W.loss_rv = flip("timer failure") ? NGTCP2_ERR_CRYPTO : 0;
      sym_check(C->timeout().count() == W.idle_timeout / 1000 && C->expiry().count() == W.expiry / 1000, "timers are given in microseconds"); bool loss = W.loss_expiry <= W.now * 1000, ack = W.ack_expiry <= W.now * 1000; auto r = C->expire(); sym_check(W.loss_calls == loss && (!loss || W.loss_ts == W.now * 1000), "the loss timer fires when it is due"); bool bad = loss && W.loss_rv; sym_check(bool(r) == !bad && (r || r.error() == QE::ngtcp2), "a failing timer is an error"); sym_check(bad || (W.ack_calls == ack && (!ack || W.ack_ts == W.now * 1000)), "the acknowledgement timer is cancelled when it is due"); sym_reach(loss ? "loss" : "no loss"); break; }
    default: { // packet protection with the suite in force
      static const uint32_t ids[] = {0x03001301, 0x03001302, 0x03001303, 0x03001304}; size_t suite = pick(4, "suite"); W.cipher = suite < 4; the_cipher.id = ids[suite < 4 ? suite : 0]; bool initial = flip("initial"); size_t a = initial ? 0 : suite; bool known = initial || suite < 3; size_t n = sym_param("text", 0) ? sym_param("text", 0) : pick(2, "size"); W.calls = 0; W.fail_at = (unsigned) pick(2, "failing call"); bytes key, nonce, in, ad, out; key.any(known ? evp_of(a)->key : 16, "key"); nonce.any(12, "nonce"); ad.any(pick(1, "associated") * 3, "associated data"); size_t op = pick(2, "operation"); in.any(op == 0 ? n : op == 1 ? n + 16 : 16, "text"); size_t room = op == 0 ? n + 16 : op == 1 ? n + 16 : 16; uint8_t *d = new uint8_t[room];
      ssize_t rv = op == 2 ? (initial ? N->cb.in_hp_mask : N->cb.hp_mask)(N, d, 16, key.b, key.n, in.b, 16, N->user) : (op == 0 ? initial ? N->cb.in_encrypt : N->cb.encrypt : initial ? N->cb.in_decrypt : N->cb.decrypt)(N, d, room, in.b, in.n, key.b, key.n, nonce.b, nonce.n, ad.b, ad.n, N->user);
      if (W.failed || !known) { sym_check(rv == NGTCP2_ERR_CALLBACK_FAILURE, "a failing cipher fails the callback"); sym_reach("cipher failure"); }
      else if (op == 2) { sym_check(rv == NGTCP2_HP_MASKLEN && masks == 1 && M.aes == (a != 2) && M.key.is(key), "the mask of the suite in force"); sym_reach("mask"); }
      else { auto &x = W.aead[0]; sym_check(rv == (ssize_t) (op == 0 ? n + 16 : n), "the size of the result is returned"); sym_check(W.aeads == 1 && x.seal == (op == 0) && x.aead == evp_of(a) && x.key.is(key) && x.nonce.is(nonce) && x.in.is(in) && x.ad.is(ad) && x.out == d, "initial packets use AES-128-GCM, others the negotiated suite"); sym_reach(op == 0 ? "encrypt" : "decrypt"); }
      sym_check(W.ctx_live == 0, "every cipher context is released"); delete[] d; break; } }
  sym_reach("end"); }

// ---------------------------------------------------------------- C40: texts of the libraries are logged as they are
namespace { struct text_logger final : bnl::base::log::api { mutable unsigned shown = 0;
  struct reader { bool ok = false; bool is(const char *p, size_t n) const { return library_text.is(p, n); } bool operator()(const char *p) const { size_t n = 0; while (p[n]) n++; return is(p, n); } bool operator()(fmt::string_view v) const { return is(v.data(), v.size()); } template <class T> bool operator()(T) const { return false; } };
  void log(bnl::base::log::level, const char *, const char *, int, const char *f, const fmt::format_args &a) const override {
    bool literal = a.get(0).type() == fmt::detail::type::none_type; size_t n = 0; while (f[n]) n++;
    if (literal) { for (size_t i = 0; i < n; i++) sym_check(f[i] != '{' && f[i] != '}', "the text of a library is not a format"); if (library_text.is(f, n)) shown++; } else if (fmt::visit_format_arg(reader(), a.get(0))) shown++; } }; }
ENTRY(log_text) {
  bytes::plain = true; setup z; C = z.c; bytes::plain = false; static text_logger l; l.shown = 0; bnl::base::logger = sym_param("quiet", 0) ? nullptr : &l; size_t n = sym_param("n", 3); library_text.any(n, "text"); for (size_t i = 0; i < n; i++) { sym_assume(library_text.b[i] != 0); if (n > 20) sym_assume(library_text.b[i] == (i + 1 == n ? '}' : 'x')); }
  if (flip("error queue")) { if (n > 99) return; unsigned k = tls_errors = 1 + (unsigned) pick(1, "errors"); W.hs_rv = -1; W.ssl_error = SSL_ERROR_SSL; auto r = C->send(); sym_check(!r && r.error() == QE::handshake, "a failing handshake fails send"); sym_check(tls_errors == 0 && tls_errors_named == k, "the error queue is emptied"); sym_check(!bnl::base::logger || l.shown == k, "every TLS error is logged"); sym_reach("error queue"); }
  else { char t[2100]; for (size_t i = 0; i < n; i++) t[i] = (char) library_text.b[i]; t[n] = 0; if (the_conn.settings.log_printf) { the_conn.settings.log_printf(the_conn.user, "%s", t); if (n > 1023) library_text.n = 1023; sym_check(!bnl::base::logger || n > 330 || l.shown == 1, "messages of the transport are logged"); sym_reach("transport"); } }
  sym_trace(l.shown); bnl::base::logger = nullptr; sym_reach("end"); }

// ---------------------------------------------------------------- C45: what values of the QUIC layer print as
#include <sstream>
template <class V> static bool prints(const V &v, const char *want) { std::ostringstream o; o << v; std::string s = o.str(); for (char c : s) sym_trace((uint8_t) c); return s == want; }
ENTRY(text_crypto) {
  using C = quic::crypto; static const struct { C::aead a; const char *n; } A[] = {{C::aead::aes_128_gcm, "AES_128_GCM"}, {C::aead::aes_256_gcm, "AES_256_GCM"}, {C::aead::chacha20_poly1305, "CHACHA_POLY1305"}}; static const struct { C::hash h; const char *n; } H[] = {{C::hash::sha256, "SHA256"}, {C::hash::sha384, "SHA384"}}; static const struct { C::level l; const char *n; } L[] = {{C::level::initial, "initial"}, {C::level::early_data, "early data"}, {C::level::handshake, "handshake"}, {C::level::application, "application"}};
  size_t a = pick(2, "aead"), h = pick(1, "hash"), l = pick(3, "level"); sym_check(prints(A[a].a, A[a].n) && prints(H[h].h, H[h].n) && prints(L[l].l, L[l].n), "algorithms and levels print their names"); C c(A[a].a, H[h].h); sym_check(prints(c, (std::string("AEAD: ") + A[a].n + ", HASH: " + H[h].n).c_str()), "a cipher suite prints both its algorithms"); sym_reach("end"); }
