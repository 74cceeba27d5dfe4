// Displaying floats (D) and the elementary functions (E).
#include "common.h"
#include "TSMath.h"
#include "TSString.h"
#include <memory>
using namespace vh;
using namespace Terathon;

static float flt(const std::string& h) { uint32_t u = uint32_t(strtoul(h.c_str(), nullptr, 16)); float f; memcpy(&f, &u, 4); return f; }
static std::string bits(float f) { uint32_t u; memcpy(&u, &f, 4); char b[16]; snprintf(b, sizeof b, "%08x", u); return b; }

// exactly as much room as the conversion may use
static std::string limited(float f, int max)
{
    std::unique_ptr<char[]> b(new char[size_t(max) + 1]);
    memset(b.get(), 0x55, size_t(max) + 1);
    int n = Text::FloatToString(f, b.get(), max);
    if (n < 0 || n > max || b[n] != 0 || memchr(b.get(), 0, size_t(n))) return "length " + std::to_string(n);
    return std::string(b.get());
}

static std::string display(float f)
{
    std::string full = limited(f, 40);
    auto same = [&](const char* s) { return full == s; };
    std::string flags;
    { TS::String<0> s(f); flags += same(s) && size_t(s.GetStringLength()) == full.size() ? '1' : '0'; }
    { TS::String<0> s("something that is longer than any number, to be replaced by one, and stored elsewhere"); s = f; flags += same(s) && size_t(s.GetStringLength()) == full.size() ? '1' : '0'; }
    { TS::String<0> s; s = f; flags += same(s) ? '1' : '0'; }
    { TS::String<15> s(f); flags += same(s) ? '1' : '0'; }
    { TS::String<31> s("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"); s = f; flags += same(s) ? '1' : '0'; }
    { flags += same(Text::FloatToString(f)) ? '1' : '0'; }
    flags += limited(f, 16) == full && limited(f, 100) == full ? '1' : '0';
    { TS::String<7> s(f); flags += limited(f, 7) == (const char*)s ? '1' : '0'; }
    { char out[48]; int n = Text::ReadFloat((full + ",").c_str(), out, 47); flags += isdigit((unsigned char)full[full.size() - 1]) == 0 || (size_t(n) == full.size() && full == out) ? '1' : '0'; }
    std::string r = hex(full) + " " + flags + " ";
    for (int max = 0; max <= int(full.size()) + 1; max++) { std::string t = limited(f, max); r += (max ? "," : "") + (t.compare(0, 6, "length") == 0 ? t : hex(t)); }
    return r;
}

static std::string answer(const std::vector<std::string>& a)
{
    if (a[0] == "D") return display(flt(a[1]));
    if (a[0] == "K")
    {
#define K(name) if (a[1] == #name) return bits(Math::name);
        K(four_over_tau) K(four_pi) K(four_pi_over_3) K(infinity) K(ln_10) K(ln_2)
        K(ln_256) K(max_float) K(min_float) K(minus_infinity) K(one_over_four_pi) K(one_over_ln_10)
        K(one_over_ln_2) K(one_over_pi) K(one_over_tau) K(one_over_two_pi) K(one_over_two_tau) K(pi)
        K(pi_over_12) K(pi_over_2) K(pi_over_20) K(pi_over_3) K(pi_over_4) K(pi_over_6)
        K(pi_over_8) K(sqrt_2) K(sqrt_2_over_2) K(sqrt_2_over_3) K(sqrt_3) K(sqrt_3_over_2)
        K(sqrt_3_over_3) K(tau) K(tau_over_12) K(tau_over_16) K(tau_over_2) K(tau_over_24)
        K(tau_over_3) K(tau_over_4) K(tau_over_40) K(tau_over_6) K(tau_over_8) K(three_pi_over_2)
        K(three_pi_over_4) K(three_tau_over_4) K(three_tau_over_8) K(two_over_tau) K(two_pi) K(two_pi_over_3)
        K(two_tau) K(two_tau_over_3)
        return "?";
    }
    float x = flt(a[2]), y = a.size() > 3 ? flt(a[3]) : 0;
    const std::string& op = a[1];
    if (op == "Sin") return bits(Sin(x));
    if (op == "Cos") return bits(Cos(x));
    if (op == "Tan") return bits(Tan(x));
    if (op == "CosSin") { float c = 77, s = 77; CosSin(x, &c, &s); return bits(c) + " " + bits(s); }
    if (op == "Arcsin") return bits(Arcsin(x));
    if (op == "Arccos") return bits(Arccos(x));
    if (op == "Arctan") return bits(Arctan(x));
    if (op == "Arctan2") return bits(Arctan(x, y));
    if (op == "Exp") return bits(Exp(x));
    if (op == "Log") return bits(Log(x));
    if (op == "Pow") return bits(Pow(x, y));
    return "?";
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) { puts(answer(split(line)).c_str()); fflush(stdout); }
}
