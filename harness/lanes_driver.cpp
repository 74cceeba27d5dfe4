// The arithmetic helpers: vectors of lanes, single floats, integers.
#include "common.h"
#include "TSMath.h"
#include "TSBasic.h"
#include <cmath>
#include <functional>
#include <map>
using namespace vh;
using namespace Terathon;

struct Call { double scale; std::vector<std::vector<long>> x; std::string out; };
static void put(Call& c, double v) { char b[64]; snprintf(b, sizeof b, "%.17g,", v + 0.0); c.out += b; }
static std::map<std::string, std::function<void(Call&)>> ops;

#ifndef TERATHON_NO_SIMD
typedef vec_float V;
struct alignas(32) Mem { float f[8]; };
static Mem mem(const Call& c, size_t i) { Mem m = {}; for (size_t k = 0; k < c.x[i].size() && k < 8; k++) m.f[k] = float(c.x[i][k] / c.scale); return m; }
static V arg(const Call& c, size_t i) { Mem m = mem(c, i); return VecLoad(m.f); }
static void show(Call& c, const V& v) { Mem m = {}; VecStore(v, m.f); for (int i = 0; i < 4; i++) put(c, m.f[i] * c.scale); }
static void show(Call& c, bool b) { put(c, b); }
static void mask(Call& c, const V& v) { Mem m = {}; VecStore(v, m.f); for (int i = 0; i < 4; i++) { uint32_t u; memcpy(&u, &m.f[i], 4); put(c, u == 0 ? 0 : u == 0xFFFFFFFFu ? 1 : 99); } }
#define U(name) ops[#name] = [](Call& c) { show(c, Vec##name(arg(c, 0))); }
#define B(name) ops[#name] = [](Call& c) { show(c, Vec##name(arg(c, 0), arg(c, 1))); }
#define T3(name) ops[#name] = [](Call& c) { show(c, Vec##name(arg(c, 0), arg(c, 1), arg(c, 2))); }
#define MASK(name) ops[#name] = [](Call& c) { mask(c, Vec##name(arg(c, 0), arg(c, 1))); }
#define OUT2(name) ops[#name] = [](Call& c) { V f, g; Vec##name(arg(c, 0), &f, &g); show(c, f); show(c, g); }
#define OUT2S(name) ops[#name] = [](Call& c) { V f, g; Vec##name(arg(c, 0), &f, &g); float a, b; VecStoreX(f, &a); VecStoreX(g, &b); put(c, a * c.scale); put(c, b * c.scale); }
#define SHUF(p3, p2, p1, p0) ops["Shuffle" #p3 #p2 #p1 #p0] = [](Call& c) { show(c, VecShuffle<p3, p2, p1, p0>(arg(c, 0), arg(c, 1))); }
#define LOAD(name, off) ops[#name] = [](Call& c) { Mem m = mem(c, 0); float u[6]; memcpy(u + off, m.f, 16); show(c, Vec##name(off ? u + off : m.f)); }
#define LOAD1(name) ops[#name] = [](Call& c) { float f = float(c.x[0][0] / c.scale); show(c, Vec##name(&f)); }
#define STORE(name, n) ops[#name] = [](Call& c) { float u[8]; for (auto& e : u) e = 77; Vec##name(arg(c, 0), u + 1); \
    for (int i = 0; i < 7; i++) if (i < n) put(c, u[i + 1] * c.scale); else if (u[i + 1] != 77) c.out += "outside"; if (u[0] != 77) c.out += "outside"; }

// bits
static V bits(const Call& c, size_t i) { alignas(16) uint32_t u[4]; for (int k = 0; k < 4; k++) u[k] = uint32_t(c.x[i][k]) * 0x01010101u; return VecLoad(reinterpret_cast<float*>(u)); }
static void showBits(Call& c, const V& v) { alignas(16) float f[4]; VecStore(v, f); for (int i = 0; i < 4; i++) { uint32_t u; memcpy(&u, &f[i], 4); put(c, u == (u & 255) * 0x01010101u ? double(u & 255) : -1.0); } }
#define BITS(name, expr) ops[name] = [](Call& c) { V a = bits(c, 0), b = bits(c, 1); showBits(c, expr); }

#ifdef TERATHON_SSE
template <class E> static vec_int8 ints(const Call& c, size_t i) { alignas(16) E e[16 / sizeof(E)] = {}; for (size_t k = 0; k < 16 / sizeof(E) && k < c.x[i].size(); k++) e[k] = E(c.x[i][k]); return _mm_load_si128(reinterpret_cast<const __m128i*>(e)); }
template <class E> static void showInts(Call& c, const vec_int8& v) { alignas(16) E e[16 / sizeof(E)]; _mm_store_si128(reinterpret_cast<__m128i*>(e), v); for (size_t k = 0; k < 16 / sizeof(E); k++) put(c, double(e[k])); }
#define II(name, from, to) ops[#name] = [](Call& c) { showInts<to>(c, Vec##name(ints<from>(c, 0))); }
#define III(name, from, to) ops[#name] = [](Call& c) { showInts<to>(c, Vec##name(ints<from>(c, 0), ints<from>(c, 1))); }
#define ILOAD(name, el) ops[#name "Load"] = [](Call& c) { alignas(16) el e[16 / sizeof(el)]; for (size_t k = 0; k < 16 / sizeof(el); k++) e[k] = el(c.x[0][k]); showInts<el>(c, Vec##name##Load(e)); }; \
    ops[#name "LoadUnaligned"] = [](Call& c) { alignas(16) el e[16 / sizeof(el) + 1]; for (size_t k = 0; k < 16 / sizeof(el); k++) e[k + 1] = el(c.x[0][k]); showInts<el>(c, Vec##name##LoadUnaligned(e + 1)); }
#define ISTORE(l) ops["Int32Store" #l] = [](Call& c) { int32 i[3] = {77, 77, 77}; VecInt32Store##l(ints<int32>(c, 0), i + 1); put(c, i[1]); if (i[0] != 77 || i[2] != 77) c.out += "outside"; }
#endif

#ifdef TERATHON_AVX
static exv_float arg8(const Call& c, size_t i) { Mem m = mem(c, i); return ExvLoad(m.f); }
static void show(Call& c, const exv_float& v) { Mem m = {}; ExvStore(v, m.f); for (int i = 0; i < 8; i++) put(c, m.f[i] * c.scale); }
#define E1(name) ops[#name] = [](Call& c) { show(c, name(arg8(c, 0))); }
#define ESTORE(l) ops["ExvStore" #l] = [](Call& c) { float u[3] = {77, 77, 77}; ExvStore##l(arg8(c, 0), u + 1); put(c, u[1] * c.scale); if (u[0] != 77 || u[2] != 77) c.out += "outside"; }
#endif

static void vectors()
{
    U(SmearX); U(SmearY); U(SmearZ); U(SmearW);
    LOAD(Load, 0); LOAD(LoadUnaligned, 1); LOAD1(LoadSmearScalar); LOAD1(LoadScalar);
    ops["Store"] = [](Call& c) { show(c, arg(c, 0)); };
    STORE(StoreUnaligned, 4); STORE(StoreX, 1); STORE(StoreY, 1); STORE(StoreZ, 1); STORE(StoreW, 1); STORE(Store3D, 3);
    SHUF(0, 1, 2, 3); SHUF(3, 2, 1, 0); SHUF(1, 3, 0, 2);
    U(Negate); B(Min); B(Max); B(MinScalar); B(MaxScalar); B(Add); B(AddScalar); B(Sub); B(SubScalar); B(Mul); B(MulScalar);
    T3(Madd); T3(MaddScalar); T3(Nmsub); T3(NmsubScalar);
    ops["Neg"] = [](Call& c) { show(c, -arg(c, 0)); };
    ops["Plus"] = [](Call& c) { show(c, arg(c, 0) + arg(c, 1)); };
    ops["Minus"] = [](Call& c) { show(c, arg(c, 0) - arg(c, 1)); };
    ops["Star"] = [](Call& c) { show(c, arg(c, 0) * arg(c, 1)); };
    // quotients of products, so that they are exact
    auto product = [](const Call& c) { Mem a = mem(c, 0), b = mem(c, 1); for (int i = 0; i < 4; i++) a.f[i] = b.f[i] == 0 ? a.f[i] : a.f[i] * b.f[i]; return a; };
    auto divisor = [](const Call& c) { Mem b = mem(c, 1); for (float& f : b.f) f = f == 0 ? 1 : f; return b; };
    ops["Div"] = [=](Call& c) { show(c, VecDiv(VecLoad(product(c).f), VecLoad(divisor(c).f))); };
    ops["Slash"] = [=](Call& c) { show(c, VecLoad(product(c).f) / VecLoad(divisor(c).f)); };
    ops["DivScalar"] = [=](Call& c) { show(c, VecDivScalar(VecLoad(product(c).f), VecLoad(divisor(c).f))); };
    MASK(MaskCmpeq); MASK(MaskCmplt); MASK(MaskCmpgt);
    ops["SelectLess"] = [](Call& c) { show(c, VecSelect(arg(c, 0), arg(c, 1), VecMaskCmplt(arg(c, 0), arg(c, 1)))); };
    B(CmpeqScalar); B(CmpltScalar); B(CmpgtScalar); B(CmpltAny3D); B(CmpgtAny3D);
    U(Fsgn); U(Fnsgn); U(NonzeroFsgn); U(NonzeroFnsgn);
    U(HorizontalSum3D); B(Dot3D); B(Dot4D); B(PlaneDotPoint3D); B(Project3D); B(Reject3D); B(Cross3D);
    ops["TransformVector3D"] = [](Call& c) { show(c, VecTransformVector3D(arg(c, 0), arg(c, 1), arg(c, 2), arg(c, 3))); };
    ops["TransformPoint3D"] = [](Call& c) { show(c, VecTransformPoint3D(arg(c, 0), arg(c, 1), arg(c, 2), arg(c, 3), arg(c, 4))); };
    U(Floor); U(PositiveFloor); U(NegativeFloor); U(Ceil); U(PositiveCeil); U(NegativeCeil);
    U(FloorScalar); U(PositiveFloorScalar); U(NegativeFloorScalar); U(CeilScalar); U(PositiveCeilScalar); U(NegativeCeilScalar);
    OUT2(FloorCeil); OUT2(PositiveFloorCeil); OUT2(NegativeFloorCeil); OUT2S(FloorCeilScalar); OUT2S(PositiveFloorCeilScalar); OUT2S(NegativeFloorCeilScalar);
    ops["TruncateConvert"] = [](Call& c) { put(c, VecTruncateConvert(arg(c, 0)) * c.scale); };
    BITS("And", VecAnd(a, b)); BITS("Andc", VecAndc(a, b)); BITS("Or", VecOr(a, b)); BITS("Xor", VecXor(a, b)); BITS("Select", VecSelect(a, b, bits(c, 2)));
    BITS("Ampersand", a & b); BITS("Bar", a | b); BITS("Hat", a ^ b);
    // roots of squares
    auto square = [](Call& c, double k) { Mem m = mem(c, 0); for (float& f : m.f) f *= f; c.scale *= k; return m; };
    ops["VecSqrt"] = [=](Call& c) { Mem m = square(c, 65536); show(c, VecSqrt(VecLoad(m.f))); };
    ops["VecSqrtScalar"] = [=](Call& c) { Mem m = square(c, 65536); show(c, VecSqrtScalar(VecLoad(m.f))); };
    ops["VecInverseSqrt"] = [=](Call& c) { Mem m = square(c, 65536.0 * 16384); show(c, VecInverseSqrt(VecLoad(m.f))); };
    ops["VecInverseSqrtScalar"] = [=](Call& c) { Mem m = square(c, 65536.0 * 16384); show(c, VecInverseSqrtScalar(VecLoad(m.f))); };
    // constants, without arguments that matter
    ops["Constants"] = [](Call& c)
    {
        uint32_t u[4];
        auto raw = [&](const V& v) { alignas(16) float f[4]; VecStore(v, f); memcpy(u, f, 16); for (uint32_t e : u) put(c, e); };
        raw(VecFloatGetZero()); raw(VecFloatGetMinusZero()); raw(VecLoadVectorConstant<0x3F812345>()); raw(VecSmearX(VecLoadScalarConstant<0x7F812345>()));
    };
#ifdef TERATHON_SSE
    ILOAD(Int8, int8); ILOAD(UInt8, uint8); ILOAD(Int16, int16); ILOAD(UInt16, uint16);
    ISTORE(X); ISTORE(Y); ISTORE(Z); ISTORE(W);
    II(Int32PackSaturate, int32, int16); II(Int16PackSaturate, int16, int8); II(Int16PackUnsignedSaturate, int16, uint8);
    ops["Int32PackSaturate2"] = [](Call& c) { showInts<int16>(c, VecInt32PackSaturate(ints<int32>(c, 0), ints<int32>(c, 1))); };
    II(Int8UnpackA, int8, int16); II(Int8UnpackB, int8, int16); II(UInt8UnpackA, uint8, uint16); II(UInt8UnpackB, uint8, uint16);
    II(Int16UnpackA, int16, int32); II(Int16UnpackB, int16, int32); II(UInt16UnpackA, uint16, uint32); II(UInt16UnpackB, uint16, uint32);
    III(Int8MergeA, uint8, uint8); III(Int8MergeB, uint8, uint8); III(UInt8MergeA, uint8, uint8); III(UInt8MergeB, uint8, uint8);
    II(Int16Deinterleave, int16, int16);
    III(Int32Add, int32, int32); III(Int32Sub, int32, int32);
    ops["Int32ConvertFloat"] = [](Call& c) { show(c, VecInt32ConvertFloat(ints<int32>(c, 0))); };
    ops["ConvertInt32"] = [](Call& c) { vec_int32 v = VecConvertInt32(arg(c, 0)); alignas(16) int32 e[4]; _mm_store_si128(reinterpret_cast<__m128i*>(e), v); for (int32 i : e) put(c, i * c.scale); };
    ops["IntConstants"] = [](Call& c) { showInts<uint8>(c, VecInt8GetZero()); showInts<uint8>(c, VecInt16GetZero()); showInts<uint8>(c, VecInt32GetZero()); showInts<uint8>(c, VecInt8GetInfinity()); };
#endif
#ifdef TERATHON_AVX
    E1(ExvSmearX); E1(ExvSmearY); E1(ExvSmearZ); E1(ExvSmearW); E1(ExvSmearVecLo); E1(ExvSmearVecHi);
    ESTORE(X); ESTORE(Y); ESTORE(Z); ESTORE(W);
    ops["ExvLoad"] = ops["ExvStore"] = [](Call& c) { show(c, arg8(c, 0)); };
    ops["ExvFloat"] = [](Call& c) { show(c, ExvFloat(arg(c, 0), arg(c, 1))); };
    ops["ExvLoadSmearScalar"] = [](Call& c) { float f = float(c.x[0][0] / c.scale); show(c, ExvLoadSmearScalar(&f)); };
    ops["ExvMul"] = [](Call& c) { show(c, ExvMul(arg8(c, 0), arg8(c, 1))); };
    ops["ExvStar"] = [](Call& c) { show(c, arg8(c, 0) * arg8(c, 1)); };
    ops["ExvMadd"] = [](Call& c) { show(c, ExvMadd(arg8(c, 0), arg8(c, 1), arg8(c, 2))); };
    ops["ExvConstants"] = [](Call& c) { Mem m; uint32_t u[8]; for (int k = 0; k < 2; k++) { ExvStore(k ? ExvFloatGetMinusZero() : ExvFloatGetZero(), m.f); memcpy(u, m.f, 32); for (uint32_t e : u) put(c, e); } };
#endif
}
#endif

static float fl(const Call& c, size_t i) { return float(c.x[0][i] / c.scale); }
#define M1(opname, name) ops[opname] = [](Call& c) { put(c, name(fl(c, 0)) * c.scale); }
#define M2(opname, name) ops[opname] = [](Call& c) { float f = 77, g = 77; name(fl(c, 0), &f, &g); put(c, f * c.scale); put(c, g * c.scale); }
static void floats()
{
    M1("MathFloor", Floor); M1("MathCeil", Ceil); M1("MathPositiveFloor", PositiveFloor); M1("MathNegativeFloor", NegativeFloor);
    M1("MathPositiveCeil", PositiveCeil); M1("MathNegativeCeil", NegativeCeil);
    M2("MathFloorCeil", FloorCeil); M2("MathPositiveFloorCeil", PositiveFloorCeil); M2("MathNegativeFloorCeil", NegativeFloorCeil);
    M1("MathFrac", Frac); M1("MathPositiveFrac", PositiveFrac); M1("MathNegativeFrac", NegativeFrac);
    M1("Fabs", Fabs); M1("Fnabs", Fnabs); M1("MathFsgn", Fsgn); M1("MathFnsgn", Fnsgn); M1("MathNonzeroFsgn", NonzeroFsgn); M1("MathNonzeroFnsgn", NonzeroFnsgn);
    M1("FminZero", FminZero); M1("FmaxZero", FmaxZero); M1("Saturate", Saturate);
    ops["Fmin2"] = [](Call& c) { put(c, Fmin(fl(c, 0), fl(c, 1)) * c.scale); };
    ops["Fmax2"] = [](Call& c) { put(c, Fmax(fl(c, 0), fl(c, 1)) * c.scale); };
    ops["Fmin3"] = [](Call& c) { put(c, Fmin(fl(c, 0), fl(c, 1), fl(c, 2)) * c.scale); };
    ops["Fmax3"] = [](Call& c) { put(c, Fmax(fl(c, 0), fl(c, 1), fl(c, 2)) * c.scale); };
    ops["Fmin4"] = [](Call& c) { put(c, Fmin(fl(c, 0), fl(c, 1), fl(c, 2), fl(c, 3)) * c.scale); };
    ops["Fmax4"] = [](Call& c) { put(c, Fmax(fl(c, 0), fl(c, 1), fl(c, 2), fl(c, 3)) * c.scale); };
    ops["Clamp"] = [](Call& c) { float a = fl(c, 1), b = fl(c, 2); put(c, Clamp(fl(c, 0), a < b ? a : b, a < b ? b : a) * c.scale); };
    ops["Sqrt"] = [](Call& c) { float f = float(c.x[0][0]); put(c, double(Sqrt(f * f)) * 65536); };
    ops["InverseSqrt"] = [](Call& c) { float f = float(c.x[0][0]); put(c, double(InverseSqrt(f * f)) * 65536 * 16384); };
}

static uint64_t word(const Call& c, size_t i) { uint64_t v = 0; for (long b : c.x[i]) v = v * 2 + uint64_t(b); return v; }
static void binary(Call& c, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) put(c, double(v >> i & 1)); }
static void integers()
{
#define I1(opname, expr) ops[opname] = [](Call& c) { int32 a = int32(c.x[0][0]), b = int32(c.x[0][1]); (void)b; put(c, expr); }
    I1("Abs", Abs(a)); I1("Sgn", Sgn(a)); I1("IMin", Min(a, b)); I1("IMax", Max(a, b)); I1("MinZero", MinZero(a)); I1("MaxZero", MaxZero(a));
    I1("IncMod7", IncMod<7>(a)); I1("DecMod7", DecMod<7>(a)); I1("OverflowZero", OverflowZero(a, b));
    ops["Exchange"] = [](Call& c)
    {
        int32 a = int32(c.x[0][0]), b = int32(c.x[0][1]); Exchange(a, b); put(c, a); put(c, b);
        float f = float(c.x[0][0]), g = float(c.x[0][1]); Exchange(f, g); if (f != float(c.x[0][1]) || g != float(c.x[0][0])) c.out += "floats";
        uint64 x = uint64(c.x[0][0]) << 20, y = uint64(c.x[0][1]) << 20; Exchange(x, y); if (x != uint64(c.x[0][1]) << 20 || y != uint64(c.x[0][0]) << 20) c.out += "wide";
    };
    ops["ExchangeSelf"] = [](Call& c)
    {
        int32 a = int32(c.x[0][0]); int32& r = a; Exchange(a, r); put(c, a);
        float f = float(c.x[0][0]); float& s = f; Exchange(f, s); if (f != float(c.x[0][0])) c.out += "floats";
    };
    ops["Cntlz"] = [](Call& c) { put(c, Cntlz(uint32(word(c, 0)))); };
    ops["IntLog2"] = [](Call& c) { put(c, IntLog2(uint32(word(c, 0)))); };
    ops["Pow2Floor"] = [](Call& c) { binary(c, Pow2Floor(uint32(word(c, 0))), 32); };
    ops["Pow2Ceil"] = [](Call& c) { binary(c, Pow2Ceil(uint32(word(c, 0))), 32); };
    ops["Abs64"] = [](Call& c) { binary(c, uint64(Abs64(int64(word(c, 0)))), 64); };
    ops["Sgn64"] = [](Call& c) { binary(c, uint64(Sgn64(int64(word(c, 0)))), 64); };
    ops["Min64"] = [](Call& c) { binary(c, uint64(Min64(int64(word(c, 0)), int64(word(c, 1)))), 64); };
    ops["Max64"] = [](Call& c) { binary(c, uint64(Max64(int64(word(c, 0)), int64(word(c, 1)))), 64); };
    ops["MinZero64"] = [](Call& c) { binary(c, uint64(MinZero64(int64(word(c, 0)))), 64); };
    ops["MaxZero64"] = [](Call& c) { binary(c, uint64(MaxZero64(int64(word(c, 0)))), 64); };
}

int main()
{
#ifndef TERATHON_NO_SIMD
    vectors();
#endif
    floats();
    integers();
    std::string line;
    while (std::getline(std::cin, line))
    {
        auto w = split(line, ' ');
        Call c{atof(w[1].c_str()), {}, ""};
        for (size_t i = 2; i < w.size(); i++) { std::vector<long> v; for (auto& s : split(w[i], ',')) v.push_back(atol(s.c_str())); c.x.push_back(v); }
        auto it = ops.find(w[0]);
        if (it == ops.end()) c.out = "none"; else it->second(c);
        puts(c.out.c_str());
        fflush(stdout);
    }
}
