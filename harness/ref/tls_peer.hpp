// A TLS server (OpenSSL) over memory buffers, and certificates of all kinds. Randomness of OpenSSL is replaced by a stream seeded by the case,
// so that histories replay byte by byte.
#pragma once
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace tls {

inline uint64_t &rnd_state() {
	static uint64_t s = 1;
	return s;
}
inline int rnd_bytes(unsigned char *buf, int n) {
	for (int i = 0; i < n; ++i) {
		uint64_t z = (rnd_state() += 0x9E3779B97F4A7C15ULL);
		z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		buf[i]     = static_cast<unsigned char>(z >> 56);
	}
	return 1;
}
inline int rnd_ok() { return 1; }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
inline void seed(uint64_t s) {
	static RAND_METHOD m = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_ok};
	static bool done     = false;
	if (!done)
		RAND_set_rand_method(&m), done = true;
	rnd_state() = s;
}
#pragma GCC diagnostic pop

enum Kind { GOOD, GOOD_CHAIN, GOOD_WILDCARD, GOOD_IP, GOOD_TLS12, SELF_SIGNED, OTHER_CA, EXPIRED, NOT_YET, OTHER_HOST, NO_INTERMEDIATE, LEAF_AS_CA, BROKEN_SIGNATURE, CLIENT_ONLY, NO_CERT, BAD_IP, WILDCARD_TOO_DEEP, PLAIN, KINDS };
inline const char *kind_name(int k) {
	static const char *n[] = {"good", "good with intermediate", "good wildcard", "good address", "good, TLS 1.2", "self-signed", "unknown authority", "expired", "not yet valid", "other host", "intermediate missing", "issued by a leaf", "broken signature",
	    "not for servers", "no certificate", "other address", "wildcard of another level", "no TLS at all"};
	return n[k];
}
inline bool good(int k) { return k <= GOOD_TLS12; }

struct Cert {
	X509 *x       = nullptr;
	EVP_PKEY *key = nullptr;
};
inline void need(bool b, const char *what) {
	if (!b) {
		fprintf(stderr, "harness: TLS set-up failed: %s\n", what);
		ERR_print_errors_fp(stderr);
		abort();
	}
}
struct Pki {
	Cert root, other, inter;
	SSL_CTX *ctx[KINDS] = {};
	long serial         = 1;
	void ext(X509 *x, X509 *issuer, int nid, const char *v) {
		X509V3_CTX c;
		X509V3_set_ctx(&c, issuer, x, nullptr, nullptr, 0);
		X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
		need(e, v);
		X509_add_ext(x, e, -1);
		X509_EXTENSION_free(e);
	}
	Cert make(const std::string &cn, const Cert *by, bool ca, const std::string &san, const char *from = "20000101000000Z", const char *to = "20990101000000Z", const char *eku = nullptr) {
		Cert c;
		c.key = EVP_EC_gen("P-256");
		need(c.key, "key");
		c.x = X509_new();
		X509_set_version(c.x, 2);
		ASN1_INTEGER_set(X509_get_serialNumber(c.x), serial++);
		ASN1_TIME_set_string(X509_getm_notBefore(c.x), from);
		ASN1_TIME_set_string(X509_getm_notAfter(c.x), to);
		X509_NAME_add_entry_by_txt(X509_get_subject_name(c.x), "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char *>(cn.c_str()), -1, -1, 0);
		X509_set_issuer_name(c.x, X509_get_subject_name(by ? by->x : c.x));
		X509_set_pubkey(c.x, c.key);
		X509 *issuer = by ? by->x : c.x;
		ext(c.x, issuer, NID_basic_constraints, ca ? "critical,CA:TRUE" : "CA:FALSE");
		ext(c.x, issuer, NID_subject_key_identifier, "hash");
		if (ca)
			ext(c.x, issuer, NID_key_usage, "critical,keyCertSign,cRLSign");
		if (!san.empty())
			ext(c.x, issuer, NID_subject_alt_name, san.c_str());
		if (eku)
			ext(c.x, issuer, NID_ext_key_usage, eku);
		need(X509_sign(c.x, by ? by->key : c.key, EVP_sha256()), "sign");
		return c;
	}
	void server(int k, const Cert &c, const Cert *extra = nullptr) {
		ctx[k] = SSL_CTX_new(TLS_server_method());
		need(SSL_CTX_use_certificate(ctx[k], c.x) == 1 && SSL_CTX_use_PrivateKey(ctx[k], c.key) == 1, "server certificate");
		if (extra) {
			X509_up_ref(extra->x);
			need(SSL_CTX_add_extra_chain_cert(ctx[k], extra->x) == 1, "chain");
		}
		SSL_CTX_set_mode(ctx[k], SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
		SSL_CTX_set_session_cache_mode(ctx[k], SSL_SESS_CACHE_OFF);
	}
	Pki() {
		seed(12345);
		root  = make("Test Root", nullptr, true, "");
		other = make("Test Root", nullptr, true, "");  // same name, another key, not trusted
		inter = make("Test Intermediate", &root, true, "");
		const std::string dns = "DNS:h0.example.org,DNS:h1.example.org";
		Cert good_leaf        = make("h0.example.org", &root, false, dns);
		Cert chain_leaf       = make("h0.example.org", &inter, false, dns);
		server(GOOD, good_leaf);
		server(GOOD_CHAIN, chain_leaf, &inter);
		server(GOOD_WILDCARD, make("x", &root, false, "DNS:*.example.org"));
		server(GOOD_IP, make("y", &root, false, "IP:10.1.2.3"));
		server(GOOD_TLS12, good_leaf);
		SSL_CTX_set_max_proto_version(ctx[GOOD_TLS12], TLS1_2_VERSION);
		server(SELF_SIGNED, make("h0.example.org", nullptr, false, dns));
		server(OTHER_CA, make("h0.example.org", &other, false, dns));
		server(EXPIRED, make("h0.example.org", &root, false, dns, "20000101000000Z", "20100101000000Z"));
		server(NOT_YET, make("h0.example.org", &root, false, dns, "20900101000000Z", "20990101000000Z"));
		server(OTHER_HOST, make("h0.example.org", &root, false, "DNS:h0.example.com,DNS:example.org,DNS:xh0.example.org,DNS:h0.example.org.evil.com"));
		server(NO_INTERMEDIATE, chain_leaf);
		server(LEAF_AS_CA, make("h0.example.org", &good_leaf, false, dns), &good_leaf);
		Cert broken = make("h0.example.org", &root, false, dns);
		const ASN1_BIT_STRING *sig = nullptr;
		X509_get0_signature(&sig, nullptr, broken.x);
		const_cast<unsigned char *>(sig->data)[sig->length - 1] ^= 1;
		server(BROKEN_SIGNATURE, broken);
		server(CLIENT_ONLY, make("h0.example.org", &root, false, dns, "20000101000000Z", "20990101000000Z", "clientAuth"));
		ctx[NO_CERT] = SSL_CTX_new(TLS_server_method());
		SSL_CTX_set_security_level(ctx[NO_CERT], 0);
		SSL_CTX_set_max_proto_version(ctx[NO_CERT], TLS1_2_VERSION);
		need(SSL_CTX_set_cipher_list(ctx[NO_CERT], "ALL:aNULL:eNULL") == 1, "ciphers");
		SSL_CTX_set_dh_auto(ctx[NO_CERT], 1);
		server(BAD_IP, make("10.1.2.3", &root, false, "IP:10.1.2.4,DNS:10.1.2.3"));
		server(WILDCARD_TOO_DEEP, make("h0.example.org", &root, false, "DNS:*.org,DNS:*.h0.example.org,DNS:*"));
		// the only authority that the client is told to trust, besides the ones built into the library
		int fd = memfd_create("ca", 0);
		BIO *b = BIO_new(BIO_s_mem());
		PEM_write_bio_X509(b, root.x);
		char *p = nullptr;
		long n  = BIO_get_mem_data(b, &p);
		need(fd >= 0 && ::write(fd, p, size_t(n)) == n, "file of authorities");
		BIO_free(b);
		setenv("SSL_CERT_FILE", ("/proc/self/fd/" + std::to_string(fd)).c_str(), 1);
		setenv("SSL_CERT_DIR", "/nonexistent", 1);
	}
	static Pki &get() {
		static Pki *p = new Pki;
		return *p;
	}
};

struct Server {
	SSL *ssl = nullptr;
	BIO *in = nullptr, *out = nullptr;
	std::string got;         // application data received
	bool closed   = false;   // close_notify received
	bool failed   = false;   // handshake or record error
	explicit Server(int kind) {
		ERR_clear_error();
		ssl = SSL_new(Pki::get().ctx[kind]);
		in  = BIO_new(BIO_s_mem());
		out = BIO_new(BIO_s_mem());
		BIO_set_mem_eof_return(in, -1);
		BIO_set_mem_eof_return(out, -1);
		SSL_set_bio(ssl, in, out);
		SSL_set_accept_state(ssl);
	}
	Server(const Server &) = delete;
	~Server() {
		SSL_free(ssl);
		ERR_clear_error();
	}
	std::string asked() const {  // host name the client asked for (SNI)
		const char *n = SSL_get_servername(ssl, TLSEXT_NAMETYPE_host_name);
		return n ? n : "";
	}
	bool tls13() const { return SSL_version(ssl) == TLS1_3_VERSION; }
	bool ready() const { return SSL_is_init_finished(ssl); }
	std::string take() {  // bytes to send
		std::string r;
		char b[16384];
		int n;
		while ((n = BIO_read(out, b, sizeof(b))) > 0)
			r.append(b, size_t(n));
		ERR_clear_error();
		return r;
	}
	void feed(const std::string &d) {
		size_t pos = 0;
		while (pos != d.size()) {
			int n = BIO_write(in, d.data() + pos, int(d.size() - pos));
			need(n > 0, "BIO_write");
			pos += size_t(n);
		}
		step();
	}
	void step() {
		while (!failed && !closed) {
			ERR_clear_error();
			char b[16384];
			int n = SSL_read(ssl, b, sizeof(b));
			if (n > 0) {
				got.append(b, size_t(n));
				continue;
			}
			int e = SSL_get_error(ssl, n);
			if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE)
				break;
			(e == SSL_ERROR_ZERO_RETURN ? closed : failed) = true;
		}
		ERR_clear_error();
	}
	size_t write(const std::string &d) {  // application data accepted
		if (!ready() || failed || d.empty())
			return 0;
		ERR_clear_error();
		int n = SSL_write(ssl, d.data(), int(d.size()));
		ERR_clear_error();
		return n > 0 ? size_t(n) : 0;
	}
	void close_notify() {
		if (ready() && !failed)
			SSL_shutdown(ssl);
		ERR_clear_error();
	}
	bool key_update(bool want) {
		if (!ready() || failed || SSL_version(ssl) != TLS1_3_VERSION)
			return false;
		bool r = SSL_key_update(ssl, want ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED) == 1 && SSL_do_handshake(ssl) == 1;
		ERR_clear_error();
		return r;
	}
};

}  // namespace tls
