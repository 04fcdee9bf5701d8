// C11: Base64 against an independent reference; every length, triplet, position and character.
#include "positions.hpp"
#include <sys/mman.h>
namespace P = persistence;

static std::string hex(const bytes& b) { std::string s; char t[4]; for (auto x : b) { std::snprintf(t, 4, "%02x", unsigned(x)); s += t; if (s.size() >= 600) break; } return s + " (" + std::to_string(b.size()) + " bytes)"; }

/** A buffer whose end (or begin) touches an inaccessible page, so any read outside faults even without a sanitizer. */
struct Fenced {
    char* base; std::size_t page = 4096, pages;
    explicit Fenced(std::size_t most) : pages((most + 4095) / 4096) {
        base = static_cast<char*>(mmap(nullptr, (pages + 2) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED || mprotect(base + page, pages * page, PROT_READ | PROT_WRITE)) { std::perror("mmap"); std::exit(3); }
    }
    ~Fenced() { munmap(base, (pages + 2) * page); }
    char* at_end(const void* p, std::size_t n) { char* q = base + (pages + 1) * page - n; if (n) std::memcpy(q, p, n); return q; }
    char* at_begin(const void* p, std::size_t n) { char* q = base + page; if (n) std::memcpy(q, p, n); return q; }
};
static Fenced& fence() { static Fenced f(std::size_t(48) << 20); return f; }

static void encode(const bytes& b) {
    mon.doing("base64_encode", hex(b));
    std::string want = b64_ref(b), a = "dirty", c, d = "x";
    auto say = [&](const char* how, const std::string& got) { mon.fail(std::string("encode|") + how, std::string(how) + " of " + hex(b) + " gives " + show(got, 300) + ", expected " + show(want, 300)); };
    const std::byte* end = reinterpret_cast<const std::byte*>(fence().at_end(b.data(), b.size()));
    if (!P::base64_encode(P::byte_view(end, b.size()), a) || a != want) say("base64_encode(view at the end of a page)", a);
    const std::byte* beg = reinterpret_cast<const std::byte*>(fence().at_begin(b.data(), b.size()));
    if (!P::base64_encode(P::byte_view(beg, b.size()), d) || d != want) say("base64_encode(view at the begin of a page)", d);
    if (!P::base64_encode(b, c) || c != want) say("base64_encode(vector)", c);
    std::string text(reinterpret_cast<const char*>(b.data()), b.size()), e;
    if (!P::base64_encode(std::string_view(text), e) || e != want) say("base64_encode(string_view)", e);
    bytes back{ std::byte(1), std::byte(2) };
    const char* p = fence().at_end(want.data(), want.size());
    if (!P::base64_decode(std::string_view(p, want.size()), back) || back != b) mon.fail("decode|round trip", "decoding " + show(want, 300) + " gives " + hex(back) + ", expected " + hex(b));
    mon.count("encoded");
    mon.saw(fnv(text), b.size() > 1);
}
static void decode(const std::string& s) {
    mon.doing("base64_decode", s);
    bytes want, got{ std::byte(9) };
    bool ok = b64_dec_ref(s, want);
    const char* p = fence().at_end(s.data(), s.size());
    bool r = P::base64_decode(std::string_view(p, s.size()), got);
    if (r != ok) mon.fail(std::string("decode|") + (r ? "accepts" : "rejects"), std::string("base64_decode ") + (r ? "accepts " : "rejects ") + show(s, 300));
    else if (ok && got != want) mon.fail("decode|value", "base64_decode of " + show(s, 300) + " gives " + hex(got) + ", expected " + hex(want));
    mon.count(ok ? "decoded_valid" : "decoded_invalid");
    mon.saw(fnv("d" + s), s.size() > 1);
}
static std::string jquote(const std::string& s) { std::string o; mj::put_string(o, s, mj::Style{}); return o; }
static void everywhere(const std::string& s, bool few) {
    bytes want;
    bool ok = b64_dec_ref(s, want);
    mon.doing("bytes everywhere", s);
    read_everywhere<bytes>(jquote(s), [&](const char* op, bool got, const bytes* v, bool shape) {
        if (got != ok) mon.fail(std::string(op) + "|outcome", std::string(op) + (got ? " accepts " : " rejects ") + show(s, 300));
        else if (ok && (!shape || *v != want)) mon.fail(std::string(op) + "|value", std::string(op) + " of " + show(s, 300) + " gives " + (v ? hex(*v) : "a container of another shape") + ", expected " + hex(want));
    }, few);
    if (ok) { std::string lit = "\"" + b64_ref(want) + "\""; write_everywhere(want, &lit, hex(want), few); }
    mon.saw(fnv("e" + s), s.size() > 1);
}
static bytes random_bytes(Rng& r, std::size_t n) { bytes b(n); for (auto& x : b) x = std::byte(r.next()); return b; }

void special(Rng& r) {
    if (mon.only >= 0) return;
    bool thorough = mon.tier == "thorough";
    const std::uint64_t S = mon.shards, K = mon.shard;
    // every length, several contents
    std::size_t longest = thorough ? 4000 : 700;
    for (std::size_t n = K; n <= longest && !mon.enough(); n += S) {
        encode(random_bytes(r, n)); encode(random_bytes(r, n)); encode(bytes(n, std::byte(0))); encode(bytes(n, std::byte(0xff)));
        bytes seq(n); for (std::size_t i = 0; i < n; ++i) seq[i] = std::byte(i * 7 + n); encode(seq);
    }
    mon.count("every_length_up_to", K == 0 ? longest : 0);
    for (std::size_t n : { std::size_t(65535), std::size_t(65536), std::size_t(100001), std::size_t(1 << 18) }) encode(random_bytes(r, n + r.below(7)));
    // around every power of two (and three times it) up to 32 MiB
    std::uint64_t turn = 0;
    for (unsigned k = 9; k <= (thorough ? 25u : 24u) && !mon.enough(); ++k) for (std::size_t m : { std::size_t(1), std::size_t(3) }) {
        std::size_t n = (m << k) / (m == 3 ? 4 : 1);
        int w = k <= 18 ? 3 : k <= 21 ? 1 : 0;
        for (int d = -w; d <= w; ++d) if (turn++ % S == K) { encode(random_bytes(r, n + std::size_t(d))); mon.count("around_powers_of_two"); }
        if (k > 21 && turn++ % S == K) { encode(random_bytes(r, n + 1 + r.below(5000))); mon.count("around_powers_of_two"); }
    }
    // each bit pattern of each byte at each place of the fast path, the slow path and the tail
    for (std::size_t len = 1; len <= 30 && !mon.enough(); ++len) for (std::size_t at = 0; at < len; ++at) for (unsigned v = 0; v < 256; ++v)
        if ((len * 31 + at * 7 + v) % S == K) { bytes b = random_bytes(r, len); b[at] = std::byte(v); encode(b); }
    // all triplets (quick: a lattice of them), several at a time so that every path sees them
    std::uint64_t step = thorough ? 1 : 5;
    bytes run;
    for (std::uint64_t t = K + (thorough ? 0 : mon.seed % step * S); t < (1u << 24) && !mon.enough(); t += S * step) {
        run.push_back(std::byte(t >> 16)); run.push_back(std::byte(t >> 8)); run.push_back(std::byte(t));
        mon.count("triplets");
        if (run.size() >= 3 * (1 + t % 11)) { encode(run); run.clear(); if (mon.late()) break; }
    }
    // every character at every place of valid texts
    for (std::size_t q = 1; q <= 5; ++q) for (std::size_t cut = 0; cut < 3; ++cut) {
        std::string base = b64_ref(random_bytes(r, 3 * q - cut));
        for (std::size_t at = 0; at < base.size(); ++at) for (unsigned c = 0; c < 256; ++c) {
            if ((at * 256 + c) % S != K) continue;
            std::string s = base; s[at] = char(c); decode(s);
            // through the operations: only texts JSON can carry
            if (c < 0x80 && (at * 256 + c) / S % (thorough ? 1 : 3) == 0) everywhere(s, q > 2);
        }
        if (mon.enough()) return;
    }
    // every pair of characters in the last quadruplet (thorough), padding in all combinations of places
    const std::string probe = "AZaz09+/=-_ \n";
    for (std::size_t lead = 0; lead <= 2; ++lead) {
        std::uint64_t n = 0;
        for (char a : probe) for (char b : probe) for (char c : probe) for (char d : probe)
            if (n++ % S == K) { std::string s = std::string("QUJDREVG").substr(0, lead * 4) + a + b + c + d; decode(s); if (n / S % (thorough ? 2 : 17) == 0) everywhere(s, true); }
    }
    for (unsigned mask = K; mask < 4096 && !mon.enough(); mask += S) { std::string s = "QUJDREVGSElK"; for (int i = 0; i < 12; ++i) if (mask >> i & 1) s[i] = '='; decode(s); }
    // random texts, wrong lengths
    for (int n = 0, m = thorough ? 2000000 : 60000; n < m && !mon.enough(); ++n) {
        std::string s = b64_ref(random_bytes(r, r.below(r.chance(1, 20) ? 200 : 24)));
        switch (r.below(6)) {
            case 0: break;
            case 1: if (!s.empty()) s.pop_back(); break;
            case 2: s += "="; break;
            case 3: s.insert(r.below(s.size() + 1), 1, "=\n A-_\0"[r.below(7)]); break;
            case 4: if (!s.empty()) s[r.below(s.size())] = char(r.next()); break;
            default: s += std::string(r.below(5), '='); break;
        }
        decode(s);
        bool ascii = true;
        for (unsigned char c : s) ascii = ascii && c < 0x80;
        if (ascii && n % 4 == 0) everywhere(s, n % 32 != 0);
        if (n % 64 == 0 && mon.late()) break;
    }
}
