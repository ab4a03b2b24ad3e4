// Recording model of the two libraries bnl-quic sits on (ngtcp2 and BoringSSL, absent here): every call is recorded,
// every outcome comes from the harness (mostly symbolic).  The code under test is everything between bnl-quic's public
// interface and this boundary.
#pragma once
#include "harness.h"
#include <bnl/quic/client/connection.hpp>
#include <bnl/quic/crypto.hpp>
#include <ngtcp2/ngtcp2.h>
#include <openssl/aead.h>
#include <openssl/aes.h>
#include <openssl/chacha.h>
#include <openssl/hkdf.h>
#include <openssl/ssl.h>
#include <cstdarg>
#include <cstdio>
#include <random>
#include <utility>
using namespace bnl;
#ifndef QM_BYTES // how much is recorded
#define QM_BYTES 336
#define QM_FRAMES 64
#define QM_STREAMS 4
#endif
static size_t pick(size_t bound, const char *name) { uint64_t k = sym_int(1, name); sym_assume(k <= bound); return (size_t) sym_concrete(k); }
static bool flip(const char *name) { return pick(1, name) != 0; }
struct bytes { static const size_t MAX = QM_BYTES; uint8_t b[MAX]; size_t n = 0;
  void add(const void *p, size_t k) { for (size_t i = 0; i < k && n < MAX; i++) b[n++] = ((const uint8_t *) p)[i]; }
  void str(const char *s) { while (*s) b[n++] = (uint8_t) *s++; }
  void any(size_t k, const char *name) { n = k; if (plain) for (size_t i = 0; i < k; i++) b[i] = ++tag; else sym_fill(b, k, name); }
  void unique(size_t k, const char *name) { any(k, name); if (k) b[0] = ++tag; } // distinct from every other such value
  static bool plain; static uint8_t tag; // plain: library outputs are distinct constants, where their values do not matter
  bool is(const void *p, size_t k) const { return k == n && (!n || sym_eqmem(b, p, n)); }
  bool is(const bytes &o) const { return is(o.b, o.n); } 
  base::buffer_view view() const { return base::buffer_view(b, n); } };
bool bytes::plain; uint8_t bytes::tag;
static bool same(base::buffer_view v, const bytes &x) { return x.is(v.data(), v.size()); }

// A deterministic seed for the connection's random generator.
namespace std { void random_device::_M_init(const std::string &) {} void random_device::_M_fini() {} random_device::result_type random_device::_M_getval() { return 0x5eed; } }

// ---- what was called
struct hkdf_call { bool expand; const EVP_MD *md; bytes secret, other, out; };
struct key_call { int kind; const uint8_t *p; bytes key, iv, hp; };
enum { INITIAL_TX, INITIAL_RX, EARLY, HANDSHAKE_TX, HANDSHAKE_RX, APP_TX, APP_RX, UPDATE_TX, UPDATE_RX };
struct crypto_call { int level; const uint8_t *p; bytes data; size_t acked = 0; };
struct aead_call { bool seal; const EVP_AEAD *aead; size_t tag; uint8_t *out; size_t max; bytes key, nonce, in, ad; };
struct frame_call { const uint8_t *p; size_t n, off; };
struct stream_model { bool known = false, fin = false, opened = false, finned = false; uint64_t id = 0; bytes data; size_t off = 0, acked = 0; frame_call f[QM_FRAMES]; size_t frames = 0; };
struct evp_md_st { int id; }; struct evp_aead_st { int id; size_t key; }; struct evp_aead_ctx_st { const EVP_AEAD *aead; size_t tag; bytes key; };
struct ssl_ctx_st { int refs; }; struct ssl_cipher_st { uint32_t id; };
struct ssl_st { void *ex; int connect, min, max; const SSL_QUIC_METHOD *method; bytes alpn, host, tp; };
struct ngtcp2_conn { ngtcp2_conn_callbacks cb; ngtcp2_settings settings; void *user; ngtcp2_cid dcid, scid; uint32_t version; bytes local, remote; };
static evp_md_st md256 = {256}, md384 = {384}; static evp_aead_st a128 = {1, 16}, a256 = {2, 32}, chacha = {3, 32}; static ssl_cipher_st the_cipher; static ssl_ctx_st the_ctx; static ssl_st the_ssl; static ngtcp2_conn the_conn; static evp_aead_ctx_st the_aead;
struct world {
  unsigned calls = 0, fail_at = 0; bool failed = false; // fault injection: the fail_at-th library call that can fail does
  hkdf_call hkdf[40]; size_t hkdfs = 0; key_call key[24]; size_t keys = 0; crypto_call crypto[8]; size_t cryptos = 0; aead_call aead[4]; size_t aeads = 0;
  unsigned ctx_live = 0, ssl_live = 0, conn_live = 0, sslctx_live = 0, overhead_calls = 0; size_t overhead = 0;
  bool handshake_done = false, cipher = false; unsigned done_calls = 0; uint64_t now = 0;
  // TLS: what the next SSL_do_handshake does
  void (*script)() = nullptr; const bool *tls_bad = nullptr; int hs_rv = 1, ssl_error = SSL_ERROR_NONE; unsigned do_handshakes = 0, provides = 0, posts = 0; ssl_encryption_level_t provided_level = ssl_encryption_initial; bytes provided, peer_tp, local_tp, remote_tp; unsigned remote_sets = 0, tp_encodes = 0;
  // packets
  bytes packet, in; ssize_t write_rv = 0; int read_rv = 0; void (*on_read)() = nullptr; unsigned writes = 0, reads = 0; bytes path_local, path_remote; uint64_t ts = 0; unsigned stream_writes = 0;
  // streams: mode 0 accepts everything, 1 is symbolic, 2 refuses
  unsigned mode = 0; stream_model s[QM_STREAMS]; uint64_t next_bidi = 0, next_uni = 2; size_t bidi_limit = 99, uni_limit = 99; unsigned last_outcome = 0; int64_t last_id = -1; size_t max_accept = 999;
  uint64_t idle_timeout = 0, expiry = 0, loss_expiry = 0, ack_expiry = 0; unsigned loss_calls = 0, ack_calls = 0; uint64_t loss_ts = 0, ack_ts = 0; int loss_rv = 0;
};
static world W;
static bool fault() { if (++W.calls == W.fail_at) { W.failed = true; return true; } return false; }
static stream_model &stream_of(uint64_t id) { for (auto &s : W.s) if (s.known && s.id == id) return s; for (auto &s : W.s) if (!s.known) { s.known = true; s.id = id; return s; } sym_check(false, "only streams that were given data are used"); return W.s[0]; }
// everything the transport may still have to retransmit is intact
static void in_flight() { for (auto &s : W.s) if (s.known) for (size_t i = 0; i < s.frames; i++) { auto &f = s.f[i]; size_t from = s.acked > f.off ? s.acked - f.off : 0; if (from < f.n) sym_check(sym_eqmem(f.p + from, s.data.b + f.off + from, f.n - from), "stream data in flight stays intact until it is acknowledged"); }
  for (size_t i = 0; i < W.cryptos; i++) { auto &c = W.crypto[i]; if (c.acked < c.data.n) sym_check(sym_eqmem(c.p + c.acked, c.data.b + c.acked, c.data.n - c.acked), "handshake data in flight stays intact until it is acknowledged"); } }

extern "C" {
// ---- libcrypto
const EVP_MD *EVP_sha256() { return &md256; } const EVP_MD *EVP_sha384() { return &md384; }
const EVP_AEAD *EVP_aead_aes_128_gcm() { return &a128; } const EVP_AEAD *EVP_aead_aes_256_gcm() { return &a256; } const EVP_AEAD *EVP_aead_chacha20_poly1305() { return &chacha; }
size_t EVP_AEAD_max_overhead(const EVP_AEAD *) { return 16; } size_t EVP_AEAD_key_length(const EVP_AEAD *a) { return a->key; } size_t EVP_AEAD_nonce_length(const EVP_AEAD *) { return 12; } size_t EVP_MD_size(const EVP_MD *m) { return (size_t) m->id / 8; }
EVP_AEAD_CTX *EVP_AEAD_CTX_new(const EVP_AEAD *a, const uint8_t *key, size_t n, size_t tag) { if (fault()) return nullptr; sym_check(n == a->key, "a key has the size its AEAD needs"); the_aead.aead = a; the_aead.tag = tag; the_aead.key = bytes(); the_aead.key.add(key, n); W.ctx_live++; return &the_aead; }
void EVP_AEAD_CTX_free(EVP_AEAD_CTX *c) { if (c) W.ctx_live--; }
static int aead(bool seal, const EVP_AEAD_CTX *c, uint8_t *out, size_t *out_len, size_t max, const uint8_t *nonce, size_t nn, const uint8_t *in, size_t n, const uint8_t *ad, size_t an) {
  sym_check(W.ctx_live == 1, "a context is used while it lives"); if (fault()) return 0; auto &a = W.aead[W.aeads++]; a.seal = seal; a.aead = c->aead; a.tag = c->tag; a.key = c->key; a.out = out; a.max = max; a.nonce.add(nonce, nn); a.in.add(in, n); a.ad.add(ad, an);
  size_t o = seal ? n + 16 : n >= 16 ? n - 16 : 0; if (max < o || (!seal && n < 16)) return 0; bytes r; r.any(o, "cipher output"); for (size_t i = 0; i < o; i++) out[i] = r.b[i]; *out_len = o; return 1; }
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *c, uint8_t *out, size_t *ol, size_t max, const uint8_t *nonce, size_t nn, const uint8_t *in, size_t n, const uint8_t *ad, size_t an) { return aead(true, c, out, ol, max, nonce, nn, in, n, ad, an); }
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX *c, uint8_t *out, size_t *ol, size_t max, const uint8_t *nonce, size_t nn, const uint8_t *in, size_t n, const uint8_t *ad, size_t an) { return aead(false, c, out, ol, max, nonce, nn, in, n, ad, an); }
static int hkdf(bool expand, uint8_t *out, size_t on, const EVP_MD *md, const uint8_t *a, size_t an, const uint8_t *b, size_t bn) {
  if (fault()) return 0; sym_check(W.hkdfs < 40, "no endless derivation"); auto &h = W.hkdf[W.hkdfs++]; h.expand = expand; h.md = md; h.secret = bytes(); h.other = bytes(); h.secret.add(a, an); h.other.add(b, bn); h.out.unique(on, "derived"); for (size_t i = 0; i < on; i++) out[i] = h.out.b[i]; return 1; }
int HKDF_extract(uint8_t *out, size_t *ol, const EVP_MD *md, const uint8_t *secret, size_t sn, const uint8_t *salt, size_t tn) { if (!hkdf(false, out, (size_t) md->id / 8, md, secret, sn, salt, tn)) return 0; *ol = (size_t) md->id / 8; return 1; }
int HKDF_expand(uint8_t *out, size_t on, const EVP_MD *md, const uint8_t *prk, size_t pn, const uint8_t *info, size_t in) { return hkdf(true, out, on, md, prk, pn, info, in); }
// AES and ChaCha20: the mask is recorded, not computed
struct mask_call { bool aes; bytes key, in, nonce; uint32_t counter; unsigned bits; size_t n; } ; static mask_call M; static unsigned masks;
int AES_set_encrypt_key(const uint8_t *key, unsigned bits, AES_KEY *k) { if (fault()) return -1; sym_check(bits == 128 || bits == 192 || bits == 256, "an AES key has an AES size"); M.key = bytes(); M.key.add(key, bits / 8); M.bits = bits; k->opaque[0] = 0x5a; return 0; }
void AES_ecb_encrypt(const uint8_t *in, uint8_t *out, const AES_KEY *k, int enc) { sym_check(k->opaque[0] == 0x5a && enc == AES_ENCRYPT, "the key is set up"); M.aes = true; M.in = bytes(); M.in.add(in, 16); for (int i = 0; i < 16; i++) out[i] = (uint8_t) (0xa0 + i); M.n = 16; masks++; }
void CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t n, const uint8_t key[32], const uint8_t nonce[12], uint32_t counter) { M.aes = false; M.key = bytes(); M.key.add(key, 32); M.in = bytes(); M.in.add(in, n); M.nonce = bytes(); M.nonce.add(nonce, 12); M.counter = counter; for (size_t i = 0; i < n; i++) out[i] = (uint8_t) (0xa0 + i); M.n = n; masks++; }
// ---- libssl
const SSL_METHOD *TLS_method() { return (const SSL_METHOD *) &the_ctx; } const SSL_METHOD *TLS_with_buffers_method() { return TLS_method(); }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *) { W.sslctx_live++; return &the_ctx; } void SSL_CTX_free(SSL_CTX *c) { if (c) W.sslctx_live--; } int SSL_CTX_set_default_verify_paths(SSL_CTX *) { return 1; }
SSL *SSL_new(SSL_CTX *) { W.ssl_live++; return &the_ssl; } void SSL_free(SSL *s) { if (s) W.ssl_live--; }
int SSL_set_ex_data(SSL *s, int i, void *p) { if (i == 0) s->ex = p; return 1; } void *SSL_get_ex_data(const SSL *s, int i) { return i == 0 ? s->ex : nullptr; }
uint32_t SSL_CIPHER_get_id(const SSL_CIPHER *c) { return c->id; } const char *SSL_CIPHER_standard_name(const SSL_CIPHER *) { return "suite"; } const SSL_CIPHER *SSL_get_current_cipher(const SSL *) { return W.cipher ? &the_cipher : nullptr; }
int SSL_set_alpn_protos(SSL *s, const uint8_t *p, unsigned n) { s->alpn.n = 0; s->alpn.add(p, n); return 0; } void SSL_set_connect_state(SSL *s) { s->connect++; }
int SSL_set_min_proto_version(SSL *s, uint16_t v) { s->min = v; return 1; } int SSL_set_max_proto_version(SSL *s, uint16_t v) { s->max = v; return 1; } int SSL_set_tlsext_host_name(SSL *s, const char *h) { s->host.n = 0; s->host.str(h); return 1; }
int SSL_set_quic_transport_params(SSL *s, const uint8_t *p, size_t n) { s->tp.n = 0; s->tp.add(p, n); return 1; } void SSL_get_peer_quic_transport_params(const SSL *, const uint8_t **p, size_t *n) { *p = W.peer_tp.b; *n = W.peer_tp.n; }
int SSL_set_quic_method(SSL *s, const SSL_QUIC_METHOD *m) { s->method = m; return 1; }
int SSL_do_handshake(SSL *) { W.do_handshakes++; if (W.script) { auto f = W.script; W.script = nullptr; f(); if (W.tls_bad && *W.tls_bad) { W.hs_rv = -1; W.ssl_error = SSL_ERROR_SSL; } } return W.hs_rv; }
int SSL_get_error(const SSL *, int) { return W.ssl_error; }
int SSL_provide_quic_data(SSL *, ssl_encryption_level_t l, const uint8_t *p, size_t n) { if (fault()) return 0; W.provides++; W.provided_level = l; W.provided.n = 0; W.provided.add(p, n); return 1; }
int SSL_process_quic_post_handshake(SSL *) { if (fault()) return 0; W.posts++; return 1; }
static unsigned tls_errors, tls_errors_named; static bytes library_text; // the texts the libraries produce
uint32_t ERR_get_error() { return tls_errors ? tls_errors-- : 0; } void ERR_error_string_n(uint32_t e, char *d, size_t n) { sym_check(e != 0 && n >= 100, "an error is named in a buffer that is big enough"); tls_errors_named++; for (size_t i = 0; i < library_text.n; i++) d[i] = (char) library_text.b[i]; d[library_text.n] = 0; }
#ifdef SYM_IR
int vsnprintf(char *d, size_t n, const char *, va_list) { size_t i = 0; for (; i < library_text.n && i + 1 < n; i++) d[i] = (char) library_text.b[i]; if (n) d[i] = 0; return (int) library_text.n; } // "%s" with library_text
#endif
// ---- libngtcp2
const char *ngtcp2_strerror(int) { return "error"; }
void ngtcp2_path_storage_init(ngtcp2_path_storage *s, const void *l, size_t ln, void *lu, const void *r, size_t rn, void *ru) { for (size_t i = 0; i < ln; i++) s->local_addrbuf[i] = ((const uint8_t *) l)[i]; for (size_t i = 0; i < rn; i++) s->remote_addrbuf[i] = ((const uint8_t *) r)[i]; s->path.local = {ln, s->local_addrbuf, lu}; s->path.remote = {rn, s->remote_addrbuf, ru}; }
void ngtcp2_settings_default(ngtcp2_settings *s) { *s = ngtcp2_settings(); }
static void take_path(const ngtcp2_path *p, bytes &l, bytes &r) { l.n = r.n = 0; if (p) { l.add(p->local.addr, p->local.addrlen); r.add(p->remote.addr, p->remote.addrlen); } }
int ngtcp2_conn_client_new(ngtcp2_conn **c, const ngtcp2_cid *d, const ngtcp2_cid *s, const ngtcp2_path *p, uint32_t v, const ngtcp2_conn_callbacks *cb, const ngtcp2_settings *st, const void *, void *user) { *c = &the_conn; the_conn.cb = *cb; the_conn.settings = *st; the_conn.user = user; the_conn.dcid = *d; the_conn.scid = *s; the_conn.version = v; take_path(p, the_conn.local, the_conn.remote); W.conn_live++; return 0; }
void ngtcp2_conn_del(ngtcp2_conn *c) { if (c) W.conn_live--; }
void ngtcp2_conn_set_aead_overhead(ngtcp2_conn *, size_t n) { W.overhead = n; W.overhead_calls++; }
int ngtcp2_conn_get_handshake_completed(ngtcp2_conn *) { return W.handshake_done; } void ngtcp2_conn_handshake_completed(ngtcp2_conn *) { W.handshake_done = true; W.done_calls++; }
void ngtcp2_conn_get_local_transport_params(ngtcp2_conn *, ngtcp2_transport_params *p) { p->opaque[0] = 0x77; }
ssize_t ngtcp2_encode_transport_params(uint8_t *d, size_t n, ngtcp2_transport_params_type t, const ngtcp2_transport_params *p) { sym_check(t == NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO && p->opaque[0] == 0x77 && n >= 40, "the client's own parameters are encoded"); W.local_tp.any(40, "local transport parameters"); for (size_t i = 0; i < 40; i++) d[i] = W.local_tp.b[i]; W.tp_encodes++; return 40; }
int ngtcp2_decode_transport_params(ngtcp2_transport_params *p, ngtcp2_transport_params_type t, const uint8_t *d, size_t n) { if (fault()) return NGTCP2_ERR_INVALID_ARGUMENT; sym_check(t == NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS, "the peer's parameters are decoded as the server's"); W.remote_tp.n = 0; W.remote_tp.add(d, n); p->opaque[0] = 0x33; return 0; }
int ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *, const ngtcp2_transport_params *p) { if (fault()) return NGTCP2_ERR_INVALID_ARGUMENT; sym_check(p->opaque[0] == 0x33, "decoded parameters are set"); W.remote_sets++; return 0; }
static int keys(int kind, const uint8_t *k, size_t kn, const uint8_t *i, size_t in, const uint8_t *h, size_t hn) { if (fault()) return NGTCP2_ERR_CRYPTO; sym_check(W.keys < 24, "no endless installation"); auto &c = W.key[W.keys++]; c.kind = kind; c.key.n = c.iv.n = c.hp.n = 0; c.key.add(k, kn); c.iv.add(i, in); c.hp.add(h, hn); return 0; }
#define KEYS(name, kind) int name(ngtcp2_conn *, const uint8_t *k, size_t kn, const uint8_t *i, size_t in, const uint8_t *h, size_t hn) { return keys(kind, k, kn, i, in, h, hn); }
KEYS(ngtcp2_conn_install_initial_tx_keys, INITIAL_TX) KEYS(ngtcp2_conn_install_initial_rx_keys, INITIAL_RX) KEYS(ngtcp2_conn_install_early_keys, EARLY) KEYS(ngtcp2_conn_install_handshake_tx_keys, HANDSHAKE_TX) KEYS(ngtcp2_conn_install_handshake_rx_keys, HANDSHAKE_RX) KEYS(ngtcp2_conn_install_tx_keys, APP_TX) KEYS(ngtcp2_conn_install_rx_keys, APP_RX)
int ngtcp2_conn_update_tx_key(ngtcp2_conn *, const uint8_t *k, size_t kn, const uint8_t *i, size_t in) { return keys(UPDATE_TX, k, kn, i, in, nullptr, 0); }
int ngtcp2_conn_update_rx_key(ngtcp2_conn *, const uint8_t *k, size_t kn, const uint8_t *i, size_t in) { return keys(UPDATE_RX, k, kn, i, in, nullptr, 0); }
int ngtcp2_conn_submit_crypto_data(ngtcp2_conn *, ngtcp2_crypto_level l, const uint8_t *p, size_t n) { if (fault()) return NGTCP2_ERR_CRYPTO; sym_check(W.cryptos < 8, "no endless submission"); auto &c = W.crypto[W.cryptos++]; c.level = l; c.p = p; c.data.n = 0; c.data.add(p, n); c.acked = 0; return 0; }
ssize_t ngtcp2_conn_write_pkt(ngtcp2_conn *, ngtcp2_path *p, uint8_t *d, size_t n, ngtcp2_tstamp ts) { W.writes++; W.ts = ts; take_path(p, W.path_local, W.path_remote); in_flight(); sym_check(n >= 1200, "a packet has room for a datagram"); if (W.write_rv > 0) { W.packet.any((size_t) W.write_rv, "packet"); for (size_t i = 0; i < W.packet.n; i++) d[i] = W.packet.b[i]; } return W.write_rv; }
ssize_t ngtcp2_conn_write_stream(ngtcp2_conn *, ngtcp2_path *, uint8_t *d, size_t dn, ssize_t *pn, uint32_t, int64_t id, uint8_t fin, const uint8_t *p, size_t n, ngtcp2_tstamp ts) {
  W.stream_writes++; W.ts = ts; W.last_id = id; in_flight(); auto &s = stream_of((uint64_t) id); sym_check(s.opened, "a stream is opened before it is written");
  sym_check(s.off + n <= s.data.n, "no more data is sent than was given"); sym_check(n == 0 || sym_eqmem(p, s.data.b + s.off, n), "data is sent in the order it was given"); sym_check(n > 0 || fin, "there is something to send");
  sym_check(!fin || (s.fin && s.off + n == s.data.n), "the end of a stream is announced with its last byte"); sym_check(!s.finned, "nothing is sent after the end of a stream"); sym_check(dn >= 1200, "a packet has room for a datagram");
  unsigned o = W.mode == 0 ? 3 : W.mode == 2 ? 1 : (unsigned) pick(4, "write outcome"); W.last_outcome = o; if (pn) *pn = -1; size_t k = n;
  switch (o) {
    case 0: return NGTCP2_ERR_STREAM_DATA_BLOCKED;
    case 1: return 0;
    case 4: return NGTCP2_ERR_STREAM_NOT_FOUND;
    case 3: if (W.mode && n) { k = 1 + pick(n - 1 < 3 ? n - 1 : 3, "accepted"); if (k == 4) k = n; } if (k > W.max_accept) k = W.max_accept; if (pn) *pn = (ssize_t) k; if (k) { sym_check(s.frames < QM_FRAMES, "progress"); s.f[s.frames++] = {p, k, s.off}; } s.off += k; if (fin && k == n) s.finned = true; break;
    default: break; } // a packet without a STREAM frame
  W.packet.any(8, "packet"); for (size_t i = 0; i < 8; i++) d[i] = W.packet.b[i]; return 8; }
int ngtcp2_conn_read_pkt(ngtcp2_conn *, const ngtcp2_path *path, const uint8_t *p, size_t n, ngtcp2_tstamp ts) { W.reads++; W.ts = ts; take_path(path, W.path_local, W.path_remote); W.in.n = 0; W.in.add(p, n); if (W.on_read) W.on_read(); return W.read_rv; }
const ngtcp2_cid *ngtcp2_conn_get_dcid(ngtcp2_conn *) { return &the_conn.dcid; }
ngtcp2_tstamp ngtcp2_conn_get_idle_timeout(ngtcp2_conn *) { return W.idle_timeout; } ngtcp2_tstamp ngtcp2_conn_get_expiry(ngtcp2_conn *) { return W.expiry; } ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *) { return W.loss_expiry; } ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *) { return W.ack_expiry; }
int ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *, ngtcp2_tstamp ts) { W.loss_calls++; W.loss_ts = ts; return W.loss_rv; } void ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *, ngtcp2_tstamp ts) { W.ack_calls++; W.ack_ts = ts; }
static int open_stream(uint64_t &next, size_t &limit, int64_t *id) { if (!limit) return NGTCP2_ERR_STREAM_ID_BLOCKED; limit--; *id = (int64_t) next; auto &s = stream_of(next); sym_check(!s.opened, "a stream is opened once"); s.opened = true; next += 4; return 0; }
int ngtcp2_conn_open_bidi_stream(ngtcp2_conn *, int64_t *id, void *) { return open_stream(W.next_bidi, W.bidi_limit, id); }
int ngtcp2_conn_open_uni_stream(ngtcp2_conn *, int64_t *id, void *) { return open_stream(W.next_uni, W.uni_limit, id); }
}
