// Argument values, damage to stored numbers, and the result sink.
#include "rt.h"
#include <cmath>

namespace sim
{
Ov ovs[Ov::COUNT];
void args_init(Args &a, int op, uint32_t aseed, uint32_t dseed)
{
    a.op    = op;
    a.aseed = aseed;
    a.ov    = nullptr;
    if (aseed & OVBIT)
    {
        a.ov    = &ovs[((aseed & ~OVBIT) >> 4) % Ov::COUNT];
        a.aseed = (a.ov->aseed & ~15u) | (aseed & 15);
    }
    a.dseed = dseed;
    a.vals  = Rng(1);
    a.dmg   = Rng(mix(dseed, 0xdada));
    a.nscal = a.ninteg = 0;
    memset(a.skind, 255, sizeof a.skind);
    a.clean_twin       = false;
    a.dscal            = 0;
    memset(a.delem, 0, sizeof a.delem);
    a.nblocks = 0;
    a.dother  = false;
    a.hash    = FNV0;
    a.nout = a.kept = 0;
}

static float pick(Rng &r, const float *p, int n) { return p[r.below(n)]; }
template <int N> static float pick(Rng &r, const float (&p)[N]) { return pick(r, p, N); }

static float gen_value(Kind k, Rng &r)
{
    const bool  sp = r.chance(1, 3);
    const float u  = (float)r.unit();
    switch (k)
    {
    case K_UNIT: {
        static const float s[] = {0.f, 1.f, 0.5f, 0.0031308f, 0.04045f, 0.018f, 0.081f, 0.0833333f, 0.25f, 0.75f, 0.18f,
            -0.1f, 1.5f, -0.f, 1e-6f, 0.9999f, 0.03f, 0.0308f, 0.16729f, 0.01125f};
        return sp ? pick(r, s) : u;
    }
    case K_XYZ: {
        static const float s[] = {0.f, 1.f, 0.9642f, 0.8249f, 0.95047f, 1.08883f, 0.008856f, 0.2f, 0.5f, -0.05f, 2.f,
            1e-5f, 0.00885645f};
        return sp ? pick(r, s) : u * 1.2f;
    }
    case K_CHROMA: {
        static const float s[] = {0.3127f, 0.3290f, 0.64f, 0.33f, 0.3f, 0.6f, 0.15f, 0.06f, 0.3333333f, 0.21f, 0.71f};
        return sp ? pick(r, s) : 0.05f + u * 0.7f;
    }
    case K_L: {
        static const float s[] = {0.f, 100.f, 8.f, 50.f, 7.9996f, 50.f};
        return sp ? pick(r, s) : u * 100.f;
    }
    case K_AB: {
        static const float s[] = {0.f, 1.f, -1.f, 0.f, 50.f, -50.f};
        return sp ? pick(r, s) : (u - 0.5f) * 200.f;
    }
    case K_TEMP: {
        static const float s[] = {1667.f, 2222.f, 4000.f, 6500.f, 6504.f, 7000.f, 5000.f, 25000.f, 2856.f, 1000.f, 3000.f};
        return sp ? pick(r, s) : 1000.f + u * 24000.f;
    }
    case K_DUV: {
        static const float s[] = {0.f, 0.01f, -0.01f, 0.003f};
        return sp ? pick(r, s) : (u - 0.5f) * 0.1f;
    }
    case K_HUE: {
        static const float s[] = {0.f, 60.f, 120.f, 180.f, 240.f, 300.f, 360.f, -30.f, 400.f, 720.f, 59.9999f};
        return sp ? pick(r, s) : u * 360.f;
    }
    case K_NM: {
        static const float s[] = {380.f, 779.f, 780.f, 555.f, 555.5f, 400.f, 500.f, 379.5f, 778.5f, 830.f, 360.f};
        return sp ? pick(r, s) : 370.f + u * 420.f;
    }
    case K_GAMMA: {
        static const float s[] = {1.f, 2.2f, 2.4f, 1.8f, 2.6f, 0.45f};
        return sp ? pick(r, s) : 1.f + u * 2.f;
    }
    case K_COEF: {
        static const float s[] = {0.f, 1.f, -1.f, 2.f, 0.5f};
        return sp ? pick(r, s) : (u - 0.5f) * 4.f;
    }
    case K_SCALE: {
        static const float s[] = {0.f, 1.f, 2.f, 0.5f, 10.f, 683.f, 100.f};
        return sp ? pick(r, s) : u * 4.f;
    }
    case K_NITS: {
        static const float s[] = {0.f, 100.f, 1.f, 10.f, 0.01f};
        return sp ? pick(r, s) : u * 100.f;
    }
    default: return sp ? 1.f : 0.5f + u * 1.5f;
    }
}
static float ulp(float v, int d)
{
    uint32_t b;
    memcpy(&b, &v, 4);
    if ((b & 0x7fffffff) > 0x7f000000 || (b & 0x7fffffff) < 0x00900000)
        return v + (float)d * 1e-7f;
    b += (uint32_t)d;
    memcpy(&v, &b, 4);
    return v;
}
float arg_f(Args &a, Kind k)
{
    const uint32_t n = a.nscal++, base = a.aseed >> 4, var = a.aseed & 15;
    uint32_t       at = n;
    if (var == 15 && n < 2)
        at = 1 - n;
    Rng   r(mix((uint64_t)base * 64 + at, 31 + (uint64_t)k));
    float v = gen_value(k, r);
    // some calls get arguments from one unusual region
    const uint32_t where = (uint32_t)(mix(base, 0x7e91) % 14);
    if (where < 4 && (k == K_UNIT || k == K_XYZ) && r.chance(3, 4))
        v = where == 0 ? 1.f + 3.f * std::fabs(v) : where == 1 ? -v : where == 2 ? v * 1e-3f : 1.f - v * 1e-3f;
    // some calls get arguments that stand in a simple relation to each other
    const uint32_t style = (uint32_t)(mix(base, 0x5e1a7e) % 8);
    if (style >= 4)
    {
        const uint32_t back = style == 6 ? 1 : 3;
        if (n >= back && n - back < 16 && a.skind[n - back] == (uint8_t)k && r.chance(style == 7 ? 4 : 2, style == 7 ? 5 : 3))
        {
            const float w = a.sval[n - back];
            v             = style == 5 || (style == 7 && k == K_AB) ? -w : w;
        }
        else if (style == 4 && r.chance(1, 3))
            v *= (float)std::pow(10.0, r.unit() * 8.0 - 5.0); // unusual magnitude
    }
    if (a.ov)
        for (uint32_t i = 0; i < a.ov->n; i++)
            if (a.ov->at[i] == n)
                v = a.ov->v[i];
    if (var >= 1 && var <= 3 && n == var - 1)
        v = ulp(v, 1 + (int)r.below(2));
    else if (var >= 4 && var <= 6 && n == var - 4)
        v = v + (v == 0.f ? 1e-4f : v * (r.chance(1, 2) ? 1e-3f : 3e-5f));
    else if ((var >= 7 && var <= 12 && n == var - 7) || (var == 14 && n == 8))
    {
        Rng q(mix((uint64_t)base * 64 + at + 0x5000000, 31 + (uint64_t)k));
        v = gen_value(k, q);
    }
    if (n < 16)
        a.sval[n] = v, a.skind[n] = (uint8_t)k;
    return v;
}
unsigned arg_u(Args &a, unsigned n)
{
    const uint32_t k = a.ninteg++, base = a.aseed >> 4, var = a.aseed & 15;
    Rng            r(mix((uint64_t)base * 64 + k + ((var == 13 && k == 0) ? 0x7000000u : 0u), 0xabcdef));
    r.next();
    return r.below(n);
}
bool arg_damaged(const Args &a) { return a.dseed != 0; }

static uint32_t bad_pattern(Rng &r, uint32_t old)
{
    static const uint32_t pats[] = {0x7fc00000u, 0xffc00000u, 0x7f800000u, 0xff800000u, 0x7f7fffffu, 0xff7fffffu, 1u,
        0x80000001u, 0x80000000u, 0u, 0x7149f2cau /*1e30*/, 0x4e6e6b28u /*1e9*/, 0xce6e6b28u, 0x60ad78ecu /*1e20*/,
        0xe0ad78ecu, 0x4b800000u /*2^24*/, 0xcb800001u, 0x4f000000u /*2^31*/, 0xcf000000u, 0x7f800001u, 0xffffffffu,
        0x00800000u, 0x007fffffu, 0x3f800001u, 0x49742400u /*1e6*/, 0xc9742400u};
    switch (r.below(5))
    {
    case 4: return pats[r.below(6)];
    case 0: return pats[r.below(sizeof pats / sizeof pats[0])];
    case 1: return (uint32_t)r.next();
    case 2: return old ^ (1u << r.below(32));
    default: return old ^ (0x80u << (8 * r.below(4))) ^ (1u << r.below(32)) ^ (1u << r.below(32));
    }
}
size_t arg_damage(Args &a, unsigned char *bytes, size_t n)
{
    Rng &r = a.dmg;
    if (n == 4)
    {
        const uint32_t k   = a.nscal ? a.nscal - 1 : 0;
        const uint32_t den = 1 + (a.dseed % 4);
        const bool again = k >= 3 && k < 16 && (a.dscal >> (k - 3) & 1) && a.skind[k] == a.skind[k - 3] && memcmp(&a.sval[k], &a.sval[k - 3], 4) == 0 && (a.dseed & 3);
        if (!r.chance(1, den + 1) && !again)
            return n;
        uint32_t old, nw;
        size_t   len = n;
        memcpy(&old, bytes, 4);
        if (!again && r.chance(1, 10))
        {
            len = 1 + r.below(3);
            nw  = old & ((1u << (8 * len)) - 1);
        }
        else
            nw = again ? a.dval[k - 3] : bad_pattern(r, old); // equal numbers, equally damaged
        if (k < 16)
            a.dval[k] = nw;
        if (nw != old)
        {
            if (k < 64)
                a.dscal |= 1ull << k;
            shm->faults[FK_DAMAGE]++;
        }
        if (a.clean_twin)
            return n;
        memcpy(bytes, &nw, 4);
        return len;
    }
    unsigned char save[4800];
    const size_t  keep = n < sizeof save ? n : sizeof save;
    memcpy(save, bytes, keep);
    size_t len = n;
    const int acts = 1 + (int)r.below(3);
    for (int i = 0; i < acts; i++)
    {
        switch (r.below(5))
        {
        case 0: { // single elements become arbitrary patterns
            const int c = 1 + (int)r.below(4);
            for (int j = 0; j < c; j++)
            {
                const size_t e = r.below((uint32_t)(n / 4)) * 4;
                uint32_t     v;
                memcpy(&v, bytes + e, 4);
                v = bad_pattern(r, v);
                memcpy(bytes + e, &v, 4);
            }
            break;
        }
        case 1: { // zeroed range
            const size_t s = r.below((uint32_t)n), c = r.below((uint32_t)(n - s)) + 1;
            memset(bytes + s, 0, c > 512 ? 512 : c);
            break;
        }
        case 2: { // torn: tail replaced by garbage or ones
            const size_t s = r.below((uint32_t)n);
            if (r.chance(1, 2))
                rt_fill(bytes + s, n - s, 256, r.next());
            else
                memset(bytes + s, r.chance(1, 2) ? 0xff : 0x7f, n - s);
            break;
        }
        case 3: // truncated
            if (r.chance(1, 3))
                len = r.below((uint32_t)n + 1);
            break;
        default: { // flipped bits
            const int c = 1 + (int)r.below(6);
            for (int j = 0; j < c; j++)
                bytes[r.below((uint32_t)n)] ^= (unsigned char)(1u << r.below(8));
        }
        }
    }
    shm->faults[FK_DAMAGE]++;
    if (n == 1600)
    {
        for (size_t e = 0; e < 400; e++)
            if (memcmp(bytes + 4 * e, save + 4 * e, 4) != 0 || 4 * e + 4 > len)
                a.delem[e / 64] |= 1ull << (e % 64);
        a.nblocks++;
    }
    else
        a.dother = true;
    if (a.clean_twin)
    {
        memcpy(bytes, save, keep);
        return n;
    }
    return len;
}

// ------------------------------------------------------------------ fixed shared data
static float curves_[CURVES][400];
static float prims_[PRIMS][8];
static float pread_[READINGS][48 * 3], tread_[READINGS][48 * 3];
static int   nread_[READINGS];
static bool  made_;
static void  make_data()
{
    if (made_)
        return;
    made_ = true;
    Rng r(20240607);
    for (int i = 0; i < CURVES; i++)
    {
        const float a = (float)r.unit(), b = (float)r.unit() * 0.1f, c = (float)r.unit() * 6.f;
        for (int k = 0; k < 400; k++)
        {
            float x = (float)k / 399.f, v = 0.f;
            switch (i % 6)
            {
            case 0: v = 0.5f + 0.4f * std::sin(c + 7.f * x) * a; break;
            case 1: v = std::exp(-(x - a) * (x - a) / (0.01f + b)); break;
            case 2: v = x * a + b; break;
            case 3: v = (float)r.unit(); break;
            case 4: v = k >= 150 && k < 260 ? a : b; break;
            default: v = k == 200 + i ? 1.f : 0.f; break;
            }
            if (i >= 12)
                switch (i)
                {
                case 12: v = 1.f; break;
                case 13: v = 0.f; break;
                case 14: v = 100.f * curves_[0][k]; break;
                case 15: v = curves_[0][k] + (k == 257 ? 0.25f : 0.f); break; // one sample away from curve 0
                case 16: v = curves_[3][399 - k]; break;                     // same samples, other order
                default: v = 2.f * curves_[1][k]; break;
                }
            curves_[i][k] = v;
        }
    }
    static const float p[PRIMS][8] = {{0.64f, 0.33f, 0.30f, 0.60f, 0.15f, 0.06f, 0.3127f, 0.3290f},
        {0.68f, 0.32f, 0.265f, 0.69f, 0.15f, 0.06f, 0.314f, 0.351f},
        {0.7347f, 0.2653f, 0.1596f, 0.8404f, 0.0366f, 0.0001f, 0.3457f, 0.3585f},
        {0.61f, 0.34f, 0.29f, 0.58f, 0.16f, 0.09f, 0.31f, 0.32f}, {0.7f, 0.3f, 0.2f, 0.7f, 0.14f, 0.05f, 0.333f, 0.333f}};
    memcpy(prims_, p, sizeof p);
    static const int cnt[READINGS] = {24, 24, 24, 12, 6, 4, 3, 24, 10, 2, 24, 48, 1, 0, 24, 24};
    for (int i = 0; i < READINGS; i++)
    {
        nread_[i] = cnt[i];
        float m[9];
        for (int k = 0; k < 9; k++)
            m[k] = (k % 4 == 0 ? 1.f : 0.f) + ((float)r.unit() - 0.5f) * 0.6f;
        for (int k = 0; k < cnt[i]; k++)
        {
            float *q = &pread_[i][3 * k], *t = &tread_[i][3 * k];
            for (int c = 0; c < 3; c++)
                q[c] = 0.02f + 0.96f * (float)r.unit();
            for (int c = 0; c < 3; c++)
                t[c] = m[3 * c] * q[0] + m[3 * c + 1] * q[1] + m[3 * c + 2] * q[2];
            if (i == 7) // noisy chart
                t[k % 3] += ((float)r.unit() - 0.5f) * 0.02f;
            if (i == 11 && k >= 24) // every reading twice
                memcpy(q, q - 72, 12), memcpy(t, t - 72, 12);
            if (i == 10 || i == 14)
                for (int c = 0; c < 3; c++)
                    q[c] *= i == 10 ? 100.f : 1e-3f;
            if (i == 15) // target equals reading
                memcpy(t, q, 12);
        }
    }
}
const float *arg_curve(Args &, int i)
{
    make_data();
    return curves_[i];
}
const float *arg_prims(Args &, int i)
{
    make_data();
    return prims_[i];
}
int arg_readings(Args &, int i, const float **p, const float **t)
{
    make_data();
    *p = pread_[i];
    *t = tread_[i];
    return nread_[i];
}

// ------------------------------------------------------------------ results
static void keep(Args &a, uint32_t v)
{
    if (a.kept < OUT_KEEP)
        a.keep[a.kept++] = v;
}
void out_f(Args &a, float v)
{
    uint32_t b;
    memcpy(&b, &v, 4);
    if (v != v)
        b = 0x7fc00000u;
    a.hash = fnv1(a.hash, &b, 4);
    a.nout++;
    keep(a, b);
}
void out_d(Args &a, double v)
{
    uint64_t b;
    memcpy(&b, &v, 8);
    if (v != v)
        b = 0x7ff8000000000000ull;
    a.hash = fnv1(a.hash, &b, 8);
    a.nout++;
    keep(a, (uint32_t)(b >> 32));
}
void out_i(Args &a, int64_t v)
{
    a.hash = fnv1(a.hash, &v, 8);
    a.nout++;
    keep(a, (uint32_t)v);
}
void out_b(Args &a, const void *p, size_t n)
{
    a.hash = fnv1(a.hash, p, n);
    a.nout++;
    keep(a, (uint32_t)n);
}
} // namespace sim
