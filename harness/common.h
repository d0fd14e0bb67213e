// Shared by all harnesses: deterministic randomness, verdicts, counters, samples.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <time.h>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
	uint64_t s[2];
	static uint64_t mix(uint64_t& x)
	{
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1)
	{
		s[0] = mix(seed);
		s[1] = mix(seed);
	}
	__attribute__((no_sanitize("undefined"))) uint64_t next()
	{
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
		return s[1] + b;
	}
	// 0..n-1
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	// a..b inclusive
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1u); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	bool flip() { return next() & 1u; }
	template <typename C>
	auto& pick(C& c) { return c[(size_t)below(c.size())]; }
	// skewed size: mostly small, sometimes up to max
	size_t size(size_t max)
	{
		if(max == 0) return 0;
		switch(below(6)) {
		case 0: return (size_t)below(std::min<size_t>(max, 2) + 1);
		case 1:
		case 2: return (size_t)below(std::min<size_t>(max, 9) + 1);
		case 3: return (size_t)below(std::min<size_t>(max, 40) + 1);
		case 4: return (size_t)below(std::min<size_t>(max, 300) + 1);
		default: return (size_t)below(max + 1);
		}
	}
	std::string bytes(size_t n)
	{
		std::string r(n, '\0');
		unsigned mode = (unsigned)below(5);
		for(auto& c : r) {
			switch(mode) {
			case 0: c = (char)below(256); break;
			case 1: c = (char)(' ' + below(95)); break;
			case 2: c = (char)below(3); break;
			case 3: { // bytes that mean something to some layer
				static char const special[] = "\x1b_\\\x7f\x00\xff\x80\x40\x3f\x05\x06\x1f\n\r~^A?@!sSrwt/0fCE\xc0";
				c = special[below(sizeof(special) - 1)];
				break;
			}
			default: c = below(4) ? (char)below(256) : (char)below(0x20); break;
			}
		}
		return r;
	}
};

inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	auto b = static_cast<unsigned char const*>(p);
	for(size_t i = 0; i < n; i++) {
		h ^= b[i];
		h = (h * 1099511628211ull);
	}
	return h;
}

inline std::string hex(void const* p, size_t n, size_t max = 64)
{
	std::string r;
	char b[4];
	for(size_t i = 0; i < n && i < max; i++) {
		snprintf(b, sizeof b, "%02x", static_cast<unsigned char const*>(p)[i]);
		r += b;
	}
	if(n > max) r += "...(" + std::to_string(n) + ")";
	return r;
}
inline std::string hex(std::string const& s, size_t max = 64) { return hex(s.data(), s.size(), max); }
inline std::string show(std::string const& s, size_t max = 80)
{
	std::string r;
	char b[8];
	for(size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = (unsigned char)s[i];
		if(c >= 0x20 && c < 0x7f && c != '\\') r += (char)c;
		else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	if(s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
	return r;
}

inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const* f, ...)
{
	va_list a;
	va_start(a, f);
	char* p = nullptr;
	int n = vasprintf(&p, f, a);
	va_end(a);
	std::string r(p ? p : "", n > 0 ? (size_t)n : 0);
	free(p);
	return r;
}

inline std::string jsonStr(std::string const& s)
{
	std::string r = "\"";
	char b[8];
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if(c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}

struct Status { // shared with the driver through a file; survives a crash
	uint64_t caseNo;
	uint64_t active;
	char label[4080];
};

struct Ctx {
	uint64_t seed = 1, cases = 1, from = 0, shard = 0, shards = 1;
	int64_t only = -1;
	bool thorough = false, verbose = false;
	std::map<std::string, std::string> args;
	FILE* out = nullptr;
	Status* status = nullptr;
	uint64_t caseNo = 0;
	std::map<std::string, uint64_t> counts;
	std::unordered_set<uint64_t> sigs;
	std::set<std::string> violKeys;
	uint64_t evaluations = 0;
	int samples = 0;
	bool caseViolated = false;

	std::string arg(char const* k, char const* def = "") const
	{
		auto it = args.find(k);
		return it == args.end() ? def : it->second;
	}
};

inline Ctx& ctx()
{
	static Ctx c;
	return c;
}

inline void count(std::string const& k, uint64_t n = 1) { ctx().counts[k] += n; }
inline void countMax(std::string const& k, uint64_t n)
{
	auto& x = ctx().counts["max:" + k];
	if(n > x) x = n;
}
// Marks this case as non-trivial, with its signature.
inline void sig(uint64_t h) { ctx().sigs.insert(h); }
inline void sig(std::string const& s) { sig(hashBytes(s.data(), s.size())); }
inline void label(std::string const& s)
{
	if(ctx().verbose) fprintf(stdout, "-- %.200s\n", s.c_str());
	auto* st = ctx().status;
	if(!st) return;
	size_t n = std::min(s.size(), sizeof(st->label) - 1);
	memcpy(st->label, s.data(), n);
	st->label[n] = 0;
}
inline void sample(std::string const& s)
{
	auto& c = ctx();
	if(c.samples >= 3) return;
	c.samples++;
	fprintf(c.out, "{\"t\":\"sample\",\"case\":%" PRIu64 ",\"text\":%s}\n", c.caseNo, jsonStr(s.substr(0, 1500)).c_str());
}
// Reports that the property is violated. key: stable identification of what is wrong.
inline void violation(std::string const& key, std::string const& msg)
{
	auto& c = ctx();
	c.caseViolated = true;
	count("violations");
	if(!c.violKeys.insert(key).second && c.only < 0) return;
	fprintf(c.out, "{\"t\":\"viol\",\"case\":%" PRIu64 ",\"key\":%s,\"msg\":%s}\n", c.caseNo, jsonStr(key).c_str(),
		jsonStr(msg.substr(0, 4000)).c_str());
	fflush(c.out);
	if(c.verbose || c.only >= 0) fprintf(stderr, "VIOLATION [%s] %s\n", key.c_str(), msg.c_str());
}
[[noreturn]] inline void harnessError(std::string const& msg)
{
	fprintf(stderr, "HARNESS-ERROR: %s\n", msg.c_str());
	if(ctx().out) fflush(ctx().out);
	_exit(99);
}

#define VERBOSE(...)                                    \
	do {                                            \
		if(::vf::ctx().verbose)                 \
			fprintf(stderr, __VA_ARGS__);   \
	} while(0)

inline Rng caseRng(uint64_t salt = 0)
{
	uint64_t x = ctx().seed * 0x9E3779B97F4A7C15ull ^ (ctx().caseNo + 1) * 0xD1B54A32D192ED03ull ^ salt * 0x2545F4914F6CDD1Dull;
	return Rng(x);
}

inline int runMain(int argc, char** argv, std::function<void(Rng&)> const& runCase, std::function<void()> const& atEnd = nullptr)
{
	auto& c = ctx();
	std::string outf = "/dev/null", statusf, sigf;
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 0);
		else if(a == "--cases") c.cases = strtoull(val().c_str(), nullptr, 0);
		else if(a == "--from") c.from = strtoull(val().c_str(), nullptr, 0);
		else if(a == "--shard") { auto v = val(); sscanf(v.c_str(), "%" SCNu64 "/%" SCNu64, &c.shard, &c.shards); }
		else if(a == "--only") c.only = (int64_t)strtoull(val().c_str(), nullptr, 0);
		else if(a == "--out") outf = val();
		else if(a == "--status") statusf = val();
		else if(a == "--sigs") sigf = val();
		else if(a == "--thorough") c.thorough = true;
		else if(a == "-v") c.verbose = true;
		else if(a.substr(0, 2) == "--") { auto v = val(); c.args[a.substr(2)] = v; }
	}
	c.out = outf == "-" ? stdout : fopen(outf.c_str(), "a");
	if(!c.out) { fprintf(stderr, "cannot open %s\n", outf.c_str()); return 99; }
	static Status local;
	c.status = &local;
	if(!statusf.empty()) {
		int fd = open(statusf.c_str(), O_RDWR | O_CREAT, 0644);
		if(fd < 0 || ftruncate(fd, sizeof(Status)) != 0) return 99;
		void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if(p == MAP_FAILED) return 99;
		c.status = static_cast<Status*>(p);
		close(fd);
	}
	time_t firstViolation = 0;
	for(uint64_t i = c.shard; i < c.cases; i += c.shards) {
		if(i < c.from) continue;
		if(c.only >= 0 && (uint64_t)c.only != i) continue;
		c.caseNo = i;
		c.status->caseNo = i;
		c.status->label[0] = 0;
		c.status->active = 1;
		c.caseViolated = false;
		Rng r = caseRng();
		runCase(r);
		c.evaluations++;
		c.status->active = 0;
		// Violations may take long, when these involve timeouts. Do not let all other cases do so too.
		if(c.caseViolated && !firstViolation) firstViolation = time(nullptr);
		if(firstViolation && time(nullptr) - firstViolation > 45) break;
	}
	if(atEnd) atEnd();
	std::string s = "{\"t\":\"stat\",\"evaluations\":" + std::to_string(c.evaluations) + ",\"counts\":{";
	bool first = true;
	for(auto& k : c.counts) {
		if(!first) s += ",";
		first = false;
		s += jsonStr(k.first) + ":" + std::to_string(k.second);
	}
	fprintf(c.out, "%s}}\n", s.c_str());
	fflush(c.out);
	if(!sigf.empty()) {
		if(FILE* f = fopen(sigf.c_str(), "ab")) {
			for(uint64_t h : c.sigs) fwrite(&h, 8, 1, f);
			fclose(f);
		}
	}
	c.status->active = 2; // finished; what goes wrong from here is at exit (leaks)
	return 0;
}

} // namespace vf
#endif
