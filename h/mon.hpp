// Monitor: records what was observed, violations with their witness, and the case in progress.
#pragma once
#include "ops.hpp"
#include "docs.hpp"
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>

struct Mon {
    std::string prop, out, tier = "quick";
    std::uint64_t seed = 1, cases = 1000, shard = 0, shards = 1;
    bool quiet = false;      // only the sanitizers decide
    std::int64_t only = -1;
    char* cur = nullptr;
    static constexpr std::size_t CUR = 1 << 16;
    std::map<std::string, std::uint64_t> counts;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    struct Viol { std::string key, detail; std::uint64_t n; };
    std::vector<Viol> viols;
    std::uint64_t evaluations = 0, case_no = 0;

    void open_cur(const char* path) {
        int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, CUR)) return;
        void* p = mmap(nullptr, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (p != MAP_FAILED) cur = static_cast<char*>(p);
    }
    bool mine(std::uint64_t i) const { return only >= 0 ? i == std::uint64_t(only) : i % shards == shard; }
    void begin(std::uint64_t i) { case_no = i; }
    /** Notes what is about to run, so that a crash or hang has a witness. */
    void doing(std::string_view what, std::string_view input) {
        if (!cur) return;
        std::size_t n = 0;
        auto put = [&](std::string_view s) { n = std::min(CUR - 64, n); auto k = std::min(s.size(), CUR - 64 - n); std::memcpy(cur + n, s.data(), k); n += k; };
        put("case "); put(std::to_string(case_no)); put("\n"); put(what); put("\n"); put(input.substr(0, 20000));
        cur[n] = 0;
    }
    /** One observation of the oracle. */
    void saw(std::uint64_t hash, bool nontrivial) { ++evaluations; if (nontrivial) distinct.insert(hash); }
    std::uint64_t offered = 0;
    void sample(const std::string& s) {
        ++offered;
        if (samples.size() < 3) { samples.push_back(s.substr(0, 400)); return; }
        std::uint64_t k = mix(offered, seed) % offered; // a uniform sample of what was offered
        if (k < 3) samples[k] = s.substr(0, 400);
    }
    void count(const std::string& k, std::uint64_t n = 1) { counts[k] += n; }
    void fail(const std::string& key, const std::string& detail) {
        if (quiet) { count("functional disagreements, which other checks decide"); return; }
        count("violations_observed");
        if (viols.size() < 30) viols.push_back({ key, detail.substr(0, 6000), case_no });
    }
    static std::string esc(const std::string& s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o;
    }
    void finish() {
        FILE* f = std::fopen(out.c_str(), "w");
        if (!f) { std::perror("out"); std::exit(3); }
        std::fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"counts\":{", (unsigned long long)evaluations, (unsigned long long)distinct.size());
        bool first = true;
        for (auto& [k, v] : counts) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k).c_str(), (unsigned long long)v); first = false; }
        std::fprintf(f, "},\"samples\":[");
        first = true;
        for (auto& s : samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
        std::fprintf(f, "],\"violations\":[");
        first = true;
        for (auto& v : viols) { std::fprintf(f, "%s{\"key\":\"%s\",\"case\":%llu,\"detail\":\"%s\"}", first ? "" : ",", esc(v.key).c_str(), (unsigned long long)v.n, esc(v.detail).c_str()); first = false; }
        std::fprintf(f, "],\"known\":{");
        first = true;
        for (auto& [k, v] : knowns) { std::fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", esc(k).c_str(), esc(v).c_str()); first = false; }
        std::fprintf(f, "}}\n");
        if (std::fclose(f)) std::exit(3);
    }
    std::map<std::string, std::string> knowns;
    void known(const std::string& id, const std::string& what) { knowns[id] = what; }
    double deadline = 1e9;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); }
    bool late() const { return elapsed() > deadline; }
    bool enough() const { return viols.size() >= 30; }
};

inline bool trivial(const std::string& text) { return text.size() <= 4; }
extern Mon mon;

inline std::string show(const std::string& s, std::size_t n = 1500) {
    std::string o;
    for (unsigned char c : s.substr(0, n)) { if (c == 0) o += "<NUL>"; else o += char(c); }
    if (s.size() > n) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}
inline std::string res_text(const Res& r) {
    std::string o = out_name(r.o);
    if (r.o == EPARSE) o += " at offset " + std::to_string(r.offset);
    if (r.o == EDESER) o += " at path " + r.path;
    if (!r.what.empty()) o += " (" + r.what + ")";
    return o;
}
