// Fixed-width integer and IEEE 754 byte codecs against big-endian references.
// BUILD: hot
#include "pbt.hpp"
#include <pion/algorithm.hpp>
#include <cmath>
#include <limits>
using pion::algorithm;

template <typename T> static std::string be(T v, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)((uint64_t)v >> (8 * (n - 1 - i))); return s; }

static uint64_t gen_u64(pbt::Src& s) {
    switch (s.choose(5)) {
        case 0: return s.u64();
        case 1: { uint64_t v = 0; for (int i = 0; i < 8; ++i) { static const unsigned char e[] = {0, 0xff, 0x80, 0x7f, 1}; v = v << 8 | s.pick(e); } return v; }
        case 2: return 1ULL << s.choose(64);
        case 3: return (1ULL << s.choose(64)) - 1;
        default: return ~(1ULL << s.choose(64));
    }
}

// Byte = char or unsigned char
template <typename Byte> static void ints(uint64_t v, Byte guard) {
    Byte b[12];
#define CHK(W, BYTES, UT, ST) do { \
        UT u = (UT)(v & ((BYTES) == 8 ? ~0ULL : ((1ULL << (8 * (BYTES))) - 1))); ST sg = (ST)u; \
        for (auto& x : b) x = guard; \
        algorithm::from_uint##W(b + 1, u); \
        PBT_EQ(std::string((const char*)b + 1, BYTES), be(u, BYTES), "from_uint" #W); \
        PBT_CHECK(b[0] == guard && b[1 + BYTES] == guard, "from_uint" #W " wrote outside its field"); \
        PBT_EQ((uint64_t)algorithm::to_uint##W(b + 1), (uint64_t)u, "to_uint" #W "(from_uint" #W "(x))"); \
        for (auto& x : b) x = guard; \
        algorithm::from_int##W(b + 1, sg); \
        PBT_EQ(std::string((const char*)b + 1, BYTES), be(u, BYTES), "from_int" #W); \
        PBT_CHECK(b[0] == guard && b[1 + BYTES] == guard, "from_int" #W " wrote outside its field"); \
        if ((BYTES) != 3) PBT_EQ((int64_t)algorithm::to_int##W(b + 1), (int64_t)sg, "to_int" #W "(from_int" #W "(x))"); \
        else PBT_EQ((uint64_t)algorithm::to_int##W(b + 1) & 0xffffff, (uint64_t)u, "to_int24 modulo 2^24"); \
    } while (0)
    CHK(8, 1, uint8_t, int8_t);
    CHK(16, 2, uint16_t, int16_t);
    CHK(24, 3, uint32_t, int32_t);
    CHK(32, 4, uint32_t, int32_t);
    CHK(64, 8, uint64_t, int64_t);
#undef CHK
    // explicit-bytes overloads agree with the buffer overloads
    for (int i = 0; i < 8; ++i) b[i] = (Byte)(v >> (8 * (7 - i)));
    PBT_EQ(algorithm::to_uint16(b[0], b[1]), algorithm::to_uint16(b), "");
    PBT_EQ(algorithm::to_uint24(b[0], b[1], b[2]), algorithm::to_uint24(b), "");
    PBT_EQ(algorithm::to_uint32(b[0], b[1], b[2], b[3]), algorithm::to_uint32(b), "");
    PBT_EQ(algorithm::to_int16(b[0], b[1]), algorithm::to_int16(b), "");
    PBT_EQ(algorithm::to_int32(b[0], b[1], b[2], b[3]), algorithm::to_int32(b), "");
    PBT_EQ(algorithm::to_uint64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]), v, "");
    PBT_EQ(algorithm::to_int64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]), (int64_t)v, "");
}
static void integers(pbt::Src& s, pbt::Case& c) {
    uint64_t v = gen_u64(s); bool sg = s.flip();
    std::ostringstream os; os << "v=" << v << (sg ? " char" : " uchar"); c.note(os.str()); c.key(os.str());
    if (sg) ints<char>(v, (char)0xa5); else ints<unsigned char>(v, 0x5a);
    c.nontrivial(v > 255); c.label(v >> 63 ? "top bit" : "no top bit");
}

template <typename F, typename U> static void ieee(U bits, void (*from)(unsigned char*, F), F (*to)(const unsigned char*), pbt::Case& c) {
    F f; memcpy(&f, &bits, sizeof f);
    unsigned char buf[sizeof(F) + 2]; memset(buf, 0xa5, sizeof buf);
    std::string want = be(bits, sizeof(F));
    F back = to((const unsigned char*)want.data());
    if (f != f) { c.label("nan"); PBT_CHECK(back != back, "NaN bytes decode to " << back); }
    else PBT_CHECK(back == f, "bytes " << pbt::show(want) << " decode to " << back << ", expected " << f);
    from(buf + 1, f);
    PBT_CHECK(buf[0] == 0xa5 && buf[sizeof(F) + 1] == 0xa5, "wrote outside the field");
    if (f != f) { F again = to(buf + 1); PBT_CHECK(again != again, "NaN does not survive"); }
    else {
        if (f == 0) { F z = to(buf + 1); PBT_CHECK(z == 0, "zero does not survive"); }   // the sign of zero is not kept
        else PBT_EQ(std::string((char*)buf + 1, sizeof(F)), want, "encoding of " << f << " is not IEEE 754 big-endian");
        c.label(std::fpclassify(f) == FP_SUBNORMAL ? "subnormal" : std::isinf(f) ? "infinite" : f == 0 ? "zero" : "normal");
    }
    c.nontrivial(f != 0);
}
static void d_from(unsigned char *p, double d) { algorithm::from_double(p, d); }
static double d_to(const unsigned char *p) { return algorithm::to_double(p); }
static void f_from(unsigned char *p, float d) { algorithm::from_float(p, d); }
static float f_to(const unsigned char *p) { return algorithm::to_float(p); }

static void float32(pbt::Src& s, pbt::Case& c) {
    uint32_t b = s.chance(1, 3) ? (uint32_t)s.choose(1ULL << 32)
        : ((uint32_t)s.choose(2) << 31) | ((uint32_t)(s.flip() ? s.choose(256) : s.pick({0u, 1u, 2u, 126u, 127u, 128u, 253u, 254u, 255u})) << 23)
          | (s.flip() ? (uint32_t)s.choose(1 << 23) : s.pick({0u, 1u, (1u << 22), (1u << 23) - 1, (1u << 22) - 1, (1u << 22) + 1}));
    std::ostringstream os; os << "float bits " << std::hex << b; c.note(os.str()); c.key(os.str());
    ieee<float, uint32_t>(b, f_from, f_to, c);
}
static void float64(pbt::Src& s, pbt::Case& c) {
    uint64_t m = s.flip() ? s.u64() >> 12 : s.pick({0ull, 1ull, 1ull << 51, (1ull << 52) - 1, (1ull << 51) - 1, (1ull << 51) + 1});
    uint64_t b = ((uint64_t)s.choose(2) << 63) | ((uint64_t)(s.flip() ? s.choose(2048) : s.pick({0ull, 1ull, 2ull, 1022ull, 1023ull, 1024ull, 2045ull, 2046ull, 2047ull})) << 52) | m;
    std::ostringstream os; os << "double bits " << std::hex << b; c.note(os.str()); c.key(os.str());
    ieee<double, uint64_t>(b, d_from, d_to, c);
}
// quad: native long double (x87, 64-bit significand) to binary128 and back
static void float128(pbt::Src& s, pbt::Case& c) {
    uint64_t sig = (s.flip() ? s.u64() : s.pick({0ull, 1ull, ~0ull})) | (1ull << 63);
    int e = s.flip() ? (int)s.range(-16381, 16383) : (int)s.range(-80, 80); bool neg = s.flip();
    long double v = ldexpl((long double)sig, e - 63); if (neg) v = -v;
    std::ostringstream os; os << (neg ? "-" : "") << sig << "*2^" << e - 63; c.note(os.str()); c.key(os.str());
    unsigned char buf[18]; memset(buf, 0xa5, sizeof buf);
    algorithm::from_long_double(buf + 1, v);
    PBT_CHECK(buf[0] == 0xa5 && buf[17] == 0xa5, "wrote outside the field");
    uint64_t frac = sig << 1;                                   // drop the implicit bit
    std::string want = be((uint64_t)((neg ? 0x8000 : 0) | (e + 16383)), 2) + be(frac, 8) + std::string(6, '\0');
    PBT_EQ(std::string((char*)buf + 1, 16), want, "not the binary128 encoding");
    long double back = algorithm::to_long_double(buf + 1);
    PBT_CHECK(back == v, "round trip gives " << back << " for " << v);
    c.nontrivial(); c.label(e < 0 ? "small" : "large");
}

int main(int argc, char **argv) {
    pbt::Config cfg;
    cfg.property = "P09"; cfg.level = "exploration";
    cfg.rule = "random and boundary bit patterns for every width/format and both byte types; non-trivial: value above 255 (integers), non-zero (floats)";
    cfg.assumptions = {"the sign of the result of the 24-bit signed decoder is pinned by an existing test and only checked modulo 2^24", "the sign of zero is not kept by the float encoder"};
    cfg.subs = {
        {"integers", integers, 1000000, 20000000, 10, 3, 2, 0},
        {"float32", float32, 1500000, 30000000, 10, 3, 2, 0},
        {"float64", float64, 800000, 15000000, 10, 3, 2, 0},
        {"float128", float128, 300000, 6000000, 10, 3, 2, 0},
    };
    return pbt::main(argc, argv, cfg);
}
