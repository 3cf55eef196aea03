// The code under test: every public computation of colorsystem.hpp behind a uniform call table.
// This file is compiled with memory-access and basic-block instrumentation whose runtime is the
// simulator, so that every access of the library code is a scheduling and fault point.
#include <memory>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#include <colorsystem.hpp>

#include "sim.h"

using namespace ColorSystem;
using sim::Args;

namespace
{
// ---------------------------------------------------------------- argument helpers
// In damaged mode every number takes a trip through a stream image with storage faults.
float F(Args &a, sim::Kind k)
{
    float v = sim::arg_f(a, k);
    if (sim::arg_damaged(a))
    {
        unsigned char img[4];
        std::memcpy(img, &v, 4);
        size_t       n = sim::arg_damage(a, img, 4);
        MemoryStream s(img, n ? n : 1);
        if (n == 0)
            return 0.f;
        v = s.getFloat();
    }
    return v;
}
Tristimulus T(Args &a, sim::Kind k0, sim::Kind k1, sim::Kind k2)
{
    const float x = F(a, k0), y = F(a, k1), z = F(a, k2);
    return Tristimulus(x, y, z);
}
Tristimulus T(Args &a, sim::Kind k) { return T(a, k, k, k); }
Matrix3     M(Args &a)
{
    float p[9];
    for (int i = 0; i < 9; i++)
        p[i] = F(a, sim::K_COEF);
    return Matrix3::fromArray(p);
}

// Two arguments of one type: in either order in memory, equal ones in one place or two.
template <class X> struct Two
{
    alignas(X) unsigned char s[2][sizeof(X)];
    const X *p, *q;
    Two(const X &u, const X &v, bool ref = false)
    {
        const unsigned w = sim::arg_place();
        if (ref && !(w & 4))
        {
            p = &u;
            q = &v;
            return;
        }
        p = new (s[w & 1]) X(u);
        q = (w & 2) && std::memcmp((const void *)&u, (const void *)&v, sizeof(X)) == 0 ? p : new (s[!(w & 1)]) X(v);
    }
};
#define TWO(X, P, EP, Q, EQ) X P##_ = EP; X Q##_ = EQ; Two<X> z_(P##_, Q##_); const X &P = *z_.p; const X &Q = *z_.q
#define TWOREF(X, P, EP, Q, EQ) const X &P##_ = EP; const X &Q##_ = EQ; Two<X> z_(P##_, Q##_, true); const X &P = *z_.p; const X &Q = *z_.q

void O(Args &a, float v) { sim::out_f(a, v); }
void O(Args &a, const Vector3 &v)
{
    for (int i = 0; i < 3; i++)
        sim::out_f(a, v[i]);
}
void O(Args &a, const Tristimulus &v)
{
    for (int i = 0; i < 3; i++)
        sim::out_f(a, v[i]);
}
void O(Args &a, const Matrix3 &v)
{
    for (int i = 0; i < 9; i++)
        sim::out_f(a, v[i]);
}
void O(Args &a, const Spectrum &v)
{
    for (int i = 0; i < 400; i++)
        sim::out_f(a, v[i]);
}
void O(Args &a, const Gamut &v)
{
    O(a, v.toXYZ());
    O(a, v.fromXYZ());
}
void OS(Args &a, const std::string &s)
{
    sim::out_i(a, (int64_t)s.size());
    sim::out_b(a, s.data(), s.size());
}

// ---------------------------------------------------------------- shared objects
struct Shared
{
    std::vector<Spectrum>                 curves;
    std::vector<Gamut>                    gamuts;
    std::vector<Observer>                 observers;
    std::vector<std::vector<Tristimulus>> patch, target;
    std::vector<Tristimulus>              whites;
    std::vector<Matrix3>                  mats;
};
Shared *shared_ = nullptr;

Spectrum curveFrom(const float *p)
{
    Spectrum::spectrum s;
    for (int i = 0; i < 400; i++)
        s[i] = p[i];
    return Spectrum(s);
}

const Gamut &libGamut(unsigned i)
{
    switch (i % 10)
    {
    case 0: return AdobeRGB;
    case 1: return Rec709;
    case 2: return Rec2020;
    case 3: return DCI_P3;
    case 4: return S_Gamut;
    case 5: return S_Gamut3_Cine;
    case 6: return ACEScg;
    case 7: return ACES2065;
    case 8: return LMS;
    default: return XYZ;
    }
}
const Gamut &G(Args &a)
{
    const unsigned i = sim::arg_u(a, 10 + sim::PRIMS);
    return i < 10 ? libGamut(i) : shared_->gamuts[i - 10];
}
const Observer &OB(Args &a)
{
    switch (sim::arg_u(a, 5))
    {
    case 0: return CIE1931;
    case 1: return CIE31JV;
    case 2: return CIE2012;
    case 3: return shared_->observers[1];
    default: return shared_->observers[0];
    }
}
const Tristimulus &ILL(Args &a)
{
    switch (sim::arg_u(a, 14))
    {
    case 0: return Illuminant_A;
    case 1: return Illuminant_B;
    case 2: return Illuminant_C;
    case 3: return Illuminant_D50;
    case 4: return Illuminant_D55;
    case 5: return Illuminant_D60;
    case 6: return Illuminant_D65;
    case 7: return Illuminant_D75;
    case 8: return Illuminant_E;
    case 9: return Illuminant_F2;
    case 10: return Illuminant_F7;
    case 11: return Illuminant_F11;
    case 12: return shared_->whites[0];
    default: return shared_->whites[1];
    }
}
// A spectrum argument. Damaged mode hands out a private copy that went through damaged storage.
struct SpecArg
{
    const Spectrum *p;
    Spectrum        own;
};
const Spectrum &SP(Args &a, SpecArg &h)
{
    const unsigned i = sim::arg_u(a, sim::CURVES + 8);
    if (i < sim::CURVES)
        h.p = &shared_->curves[i];
    else if (i < sim::CURVES + 2)
        h.p = &CIE_D65;
    else if (i < sim::CURVES + 5)
        h.p = &Macbeth::Patch[sim::arg_u(a, (unsigned)Macbeth::Patch.size())];
    else
        h.p = &TM_30_15::sample[sim::arg_u(a, (unsigned)TM_30_15::sample.size())];
    if (sim::arg_damaged(a))
    {
        unsigned char img[1600];
        for (int k = 0; k < 400; k++)
        {
            const float v = (*h.p)[k];
            std::memcpy(img + 4 * k, &v, 4);
        }
        const size_t n = sim::arg_damage(a, img, sizeof img);
        MemoryStream s;
        if (n)
            s.write(img, n);
        s.seekTo(0);
        Spectrum::spectrum raw;
        for (int k = 0; k < 400; k++)
            raw[k] = s.getFloat();
        h.own = Spectrum(raw);
        h.p   = &h.own;
    }
    else if ((sim::arg_u(a, 4) == 0) != ((sim::arg_place() & 4) != 0))
    {
        h.own = *h.p; // private copy: same address, other contents in other calls
        h.p   = &h.own;
    }
    return *h.p;
}
// Chart readings. Damaged mode hands out private, damaged copies; readings may be lost or repeated.
struct ReadArg
{
    std::vector<Tristimulus> p, t;
};
void damageList(Args &a, const std::vector<Tristimulus> &src, std::vector<Tristimulus> &dst)
{
    MemoryStream s;
    for (size_t i = 0; i < src.size(); i++)
        for (int c = 0; c < 3; c++)
            s.putFloat(src[i][c]);
    std::vector<uint8_t> &img = s.buffer();
    if (!img.empty())
    {
        const size_t n = sim::arg_damage(a, img.data(), img.size());
        img.resize(n);
    }
    s.seekTo(0);
    for (size_t i = 0; i < src.size(); i++)
    {
        const unsigned u = sim::arg_u(a, 40);
        const float    x = s.getFloat(), y = s.getFloat(), z = s.getFloat();
        if (u == 0)
            continue; // lost
        dst.push_back(Tristimulus(x, y, z));
        if (u == 1)
            dst.push_back(Tristimulus(x, y, z)); // duplicated
    }
}
} // namespace

namespace sim
{
const void *sut_shared_slot() { return &shared_; }
void sut_make_shared()
{
    Args   &none = *(Args *)nullptr;
    Shared *s    = new Shared;
    for (int i = 0; i < CURVES; i++)
        s->curves.push_back(curveFrom(arg_curve(none, i)));
    for (int i = 0; i < PRIMS; i++)
    {
        const float *p = arg_prims(none, i);
        s->gamuts.push_back(Gamut("custom", p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]));
    }
    s->observers.push_back(Observer(s->curves[1], s->curves[2], s->curves[3]));
    s->observers.push_back(Observer(s->curves[1], s->curves[2], s->curves[16])); // differs in Z only
    for (int i = 0; i < READINGS; i++)
    {
        const float *p, *t;
        const int    n = arg_readings(none, i, &p, &t);
        s->patch.push_back(std::vector<Tristimulus>());
        s->target.push_back(std::vector<Tristimulus>());
        for (int k = 0; k < n; k++)
        {
            s->patch.back().push_back(Tristimulus(p[3 * k], p[3 * k + 1], p[3 * k + 2]));
            s->target.back().push_back(Tristimulus(t[3 * k], t[3 * k + 1], t[3 * k + 2]));
        }
    }
    s->whites.push_back(Tristimulus(0.9f, 1.f, 0.8f));
    s->whites.push_back(Tristimulus(0.95047f, 1.f, 1.08884f));
    s->mats.push_back(Matrix3(1, 2, 3, 4, 5, 6, 7, 8, 10));
    s->mats.push_back(Matrix3::crosstalk(0.1f));
    shared_ = s;
}
} // namespace sim

namespace
{
uint64_t fnv(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
template <class V> uint64_t hv(uint64_t h, const V &v, int n)
{
    for (int i = 0; i < n; i++)
    {
        const float f = v[i];
        h             = fnv(h, &f, 4);
    }
    return h;
}
uint64_t hg(uint64_t h, const Gamut &g)
{
    h = hv(h, g.toXYZ(), 9);
    h = hv(h, g.fromXYZ(), 9);
    return fnv(h, g.name(), strlen(g.name()));
}
uint64_t ho(uint64_t h, const Observer &o)
{
    h = hv(h, o.X_, 400);
    h = hv(h, o.Y_, 400);
    h = hv(h, o.Z_, 400);
    return hv(h, o.normalize_, 3);
}
} // namespace

namespace sim
{
uint64_t sut_hash_shared()
{
    uint64_t h = 1469598103934665603ull;
    for (auto &c : shared_->curves)
        h = hv(h, c, 400);
    for (auto &g : shared_->gamuts)
        h = hg(h, g);
    for (auto &o : shared_->observers)
        h = ho(h, o);
    for (auto &v : shared_->patch)
        for (auto &t : v)
            h = hv(h, t, 3);
    for (auto &v : shared_->target)
        for (auto &t : v)
            h = hv(h, t, 3);
    for (auto &t : shared_->whites)
        h = hv(h, t, 3);
    for (auto &m : shared_->mats)
        h = hv(h, m, 9);
    return h;
}
uint64_t sut_hash_named()
{
    uint64_t h = 1469598103934665603ull;
    using namespace Macbeth;
    using namespace TM_30_15;
    const Spectrum *named[] = {&Macbeth01, &Macbeth02, &Macbeth03, &Macbeth04, &Macbeth05, &Macbeth06, &Macbeth11, &Macbeth12, &Macbeth13, &Macbeth14, &Macbeth15, &Macbeth16,
        &Macbeth21, &Macbeth22, &Macbeth23, &Macbeth24, &Macbeth25, &Macbeth26, &Macbeth31, &Macbeth32, &Macbeth33, &Macbeth34, &Macbeth35, &Macbeth36,
        &CES01, &CES02, &CES03, &CES04, &CES05, &CES06, &CES07, &CES08, &CES09, &CES10, &CES11, &CES12, &CES13, &CES14, &CES15, &CES16, &CES17, &CES18, &CES19, &CES20, &CES21, &CES22, &CES23, &CES24, &CES25, &CES26, &CES27, &CES28, &CES29, &CES30, &CES31, &CES32, &CES33, &CES34, &CES35, &CES36, &CES37, &CES38, &CES39, &CES40, &CES41, &CES42, &CES43, &CES44, &CES45, &CES46, &CES47, &CES48, &CES49, &CES50, &CES51, &CES52, &CES53, &CES54, &CES55, &CES56, &CES57, &CES58, &CES59, &CES60, &CES61, &CES62, &CES63, &CES64, &CES65, &CES66, &CES67, &CES68, &CES69, &CES70, &CES71, &CES72, &CES73, &CES74, &CES75, &CES76, &CES77, &CES78, &CES79, &CES80, &CES81, &CES82, &CES83, &CES84, &CES85, &CES86, &CES87, &CES88, &CES89, &CES90, &CES91, &CES92, &CES93, &CES94, &CES95, &CES96, &CES97, &CES98, &CES99,};
    for (auto *c : named)
        h = hv(h, *c, 400);
    return h;
}
uint64_t sut_hash_constants()
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned i = 0; i < 10; i++)
        h = hg(h, libGamut(i));
    h = ho(h, CIE1931);
    h = ho(h, CIE31JV);
    h = ho(h, CIE2012);
    h = hv(h, CIE_D65, 400);
    const Spectrum *cmf[] = {&CIE1931_X, &CIE1931_Y, &CIE1931_Z, &CIE2012_X, &CIE2012_Y, &CIE2012_Z, &CIE1931_JuddVos_X, &CIE1931_JuddVos_Y, &CIE1931_JuddVos_Z};
    for (auto *c : cmf)
        h = hv(h, *c, 400);
    for (auto &s : Macbeth::Patch)
        h = hv(h, s, 400);
    h = fnv(h, &PI, 4);
    for (auto &s : TM_30_15::sample)
        h = hv(h, s, 400);
    const Tristimulus *ill[] = {&Illuminant_A, &Illuminant_B, &Illuminant_C, &Illuminant_D50, &Illuminant_D55,
        &Illuminant_D60, &Illuminant_D65, &Illuminant_D75, &Illuminant_E, &Illuminant_F2, &Illuminant_F7,
        &Illuminant_F11};
    for (auto *t : ill)
        h = hv(h, *t, 3);
    return h;
}

using namespace std;
#define OP(NAME, FLAGS, ...) {NAME, FLAGS, [](Args & a) { __VA_ARGS__; }}

// Filled by sut_init, not by a static initialiser: calls are made before those have run.
Op  ops[256];
int n_ops;
void sut_init()
{
    const Op t[] = {
    // ---- vectors and matrices
    OP("Vector3.dot", 0, TWO(Vector3, p, Vector3(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF)), q, Vector3(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF))); O(a, p.dot(q)); O(a, Vector3::dot(p, q)); O(a, p.x()); O(a, p.y()); O(a, p.z()); out_i(a, (int64_t)p.size())),
    OP("Vector3.iterate", 0, Vector3 p(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF)); for (float f : p) O(a, f)),
    OP("Matrix3.mul", 0, TWO(Matrix3, m, M(a), n, M(a)); O(a, m.mul(n)); O(a, Matrix3::mul(n, m))),
    OP("Matrix3.scale", 0, Matrix3 m = M(a); float s = F(a, K_SCALE); O(a, m.mul(s)); O(a, m.div(s))),
    OP("Matrix3.add", 0, TWO(Matrix3, m, M(a), n, M(a)); O(a, m.add(n))),
    OP("Matrix3.apply", 0, Matrix3 m = M(a); Vector3 v(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF)); O(a, m.apply(v)); O(a, Matrix3::apply(m, v))),
    OP("Matrix3.det", 0, Matrix3 m = M(a); O(a, m.det())),
    OP("Matrix3.invert", 0, Matrix3 m = M(a); O(a, m.invert())),
    OP("Matrix3.invert.shared", OF_OBJ, const Matrix3 &m = shared_->mats[arg_u(a, 2)]; O(a, m.invert()); O(a, m.transpose()); O(a, m.det())),
    OP("Matrix3.transpose", 0, Matrix3 m = M(a); O(a, m.transpose()); O(a, m.row(arg_u(a, 3))); O(a, m.col(arg_u(a, 3)))),
    OP("Matrix3.diag", 0, Vector3 v(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF)); O(a, Matrix3::diag(v)); O(a, Matrix3())),
    OP("Matrix3.crosstalk", 0, float r = F(a, K_UNIT); O(a, Matrix3::crosstalk(r)); O(a, Matrix3::crosstalkInvert(r))),
    OP("Matrix3.iterate", 0, Matrix3 m = M(a); for (float f : m) O(a, f); out_i(a, (int64_t)m.size())),
    // ---- tristimulus arithmetic
    OP("Tri.scale", OF_CHAN, Tristimulus t = T(a, K_XYZ); float s = F(a, K_SCALE); O(a, t.scale(s)); O(a, t * s); O(a, t / s)),
    OP("Tri.add", OF_CHAN2, TWO(Tristimulus, t, T(a, K_XYZ), u, T(a, K_XYZ)); O(a, t.add(u)); O(a, t + u); O(a, t * u); O(a, t.mul(u))),
    OP("Tri.dot", 0, TWO(Tristimulus, t, T(a, K_XYZ), u, T(a, K_XYZ)); O(a, t.dot(u))),
    OP("Tri.apply", 0, Tristimulus t = T(a, K_XYZ); Matrix3 m = M(a); O(a, t.apply(m))),
    OP("Tri.minmax", OF_CHAN2, TWO(Tristimulus, t, T(a, K_XYZ), u, T(a, K_XYZ)); O(a, t.min(u)); O(a, t.max(u)); O(a, Tristimulus::min(u, t)); O(a, Tristimulus::max(u, t))),
    OP("Tri.minmax3", 0, Tristimulus t = T(a, K_XYZ); O(a, t.min3()); O(a, t.max3()); out_i(a, t.hasNegative()); out_i(a, Tristimulus::hasNegative(t))),
    OP("Tri.clip", OF_CHAN, Tristimulus t = T(a, K_XYZ); const float l = F(a, K_UNIT), h = F(a, K_SCALE); O(a, t.clip(l, h)); O(a, t.positive()); O(a, Tristimulus::clip(t, l, h)); O(a, Tristimulus::positive(t))),
    OP("Tri.splat", 0, Tristimulus t(F(a, K_UNIT)); O(a, t); O(a, Tristimulus()); for (float f : t) O(a, f); O(a, t.a()); O(a, t.b()); O(a, t.c())),
    // ---- chromaticity
    OP("Tri.toYxy", 0, O(a, T(a, K_XYZ).toYxy())),
    OP("Tri.fromYxy", 0, O(a, T(a, K_XYZ, K_CHROMA, K_CHROMA).fromYxy())),
    OP("Tri.toYuv", 0, O(a, T(a, K_XYZ).toYuv())),
    OP("Tri.fromYuv", 0, O(a, T(a, K_XYZ, K_CHROMA, K_CHROMA).fromYuv())),
    OP("Tri.YxyYuv", 0, Tristimulus t = T(a, K_XYZ, K_CHROMA, K_CHROMA); O(a, Tristimulus::YxyToYuv(t)); O(a, Tristimulus::YuvToYxy(t))),
    OP("Tri.toYxy.illuminant", OF_OBJ, O(a, ILL(a).toYxy()); O(a, ILL(a).toYuv())),
    OP("Tri.fromCT", 0, float t = F(a, K_TEMP); O(a, Tristimulus::fromCT(t)); O(a, Tristimulus::fromCT(t, F(a, K_XYZ)))),
    OP("Tri.fromPlanckianLocus", 0, float t = F(a, K_TEMP); O(a, Tristimulus::fromPlanckianLocus(t)); O(a, Tristimulus::fromPlanckianLocus(t, F(a, K_XYZ)))),
    OP("Tri.fromCCT", 0, float t = F(a, K_TEMP); float d = F(a, K_DUV); O(a, Tristimulus::fromCCT(t, d)); O(a, Tristimulus::fromCCT(t, d, F(a, K_XYZ)))),
    OP("util.sqrtf", 0, O(a, util::sqrtf(F(a, K_XYZ)))),
    // ---- CIELAB, HSV
    OP("Tri.toCIELAB", 0, O(a, T(a, K_XYZ).toCIELAB())),
    OP("Tri.toCIELAB.white", OF_OBJ, Tristimulus t = T(a, K_XYZ); O(a, t.toCIELAB(ILL(a)))),
    OP("Tri.fromCIELAB", 0, O(a, T(a, K_L, K_AB, K_AB).fromCIELAB())),
    OP("Tri.fromCIELAB.white", OF_OBJ, Tristimulus t = T(a, K_L, K_AB, K_AB); O(a, t.fromCIELAB(ILL(a)))),
    OP("Tri.toHSV", 0, O(a, T(a, K_UNIT).toHSV())),
    OP("Tri.toHSV_atan", 0, O(a, T(a, K_UNIT).toHSV_atan())),
    OP("Tri.fromHSV", 0, O(a, T(a, K_HUE, K_UNIT, K_UNIT).fromHSV())),
    OP("Tri.curves", 0, float v = F(a, K_UNIT); O(a, Tristimulus::CIELAB_curve(v)); O(a, Tristimulus::CIELAB_decurve(v)); O(a, Tristimulus::mod360(F(a, K_HUE)))),
    // ---- gamuts
    OP("Gamut.fromPrimaries", 0, O(a, Gamut::fromPrimaries(F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA))); Matrix3 m = M(a); O(a, Gamut::mulDiag(m, Vector3(F(a, K_COEF), F(a, K_COEF), F(a, K_COEF))))),
    OP("Gamut.toXYZ", OF_OBJ, const Gamut &g = G(a); O(a, g.toXYZ(T(a, K_UNIT))); O(a, g.toXYZ())),
    OP("Gamut.fromXYZ", OF_OBJ, const Gamut &g = G(a); O(a, g.fromXYZ(T(a, K_XYZ))); O(a, g.fromXYZ())),
    OP("Gamut.primaries", OF_OBJ, const Gamut &g = G(a); O(a, g.primaryVector()); O(a, g.primaryMatrix()); O(a, g.primaryWhite()); O(a, g.primaryRed()); O(a, g.primaryGreen()); O(a, g.primaryBlue())),
    OP("Gamut.name", OF_OBJ, const Gamut &g = G(a); const char *n = g.name(); out_b(a, n, strlen(n))),
    OP("Gamut.construct", 0, Gamut g("n", F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA), F(a, K_CHROMA)); O(a, g)),
    OP("Gamut.construct.matrix", 0, Gamut g("n", M(a)); O(a, g)),
    OP("GamutConvert", OF_OBJ, TWOREF(Gamut, g, G(a), h, G(a)); O(a, GamutConvert(g, h))),
    OP("Bradford", OF_OBJ, TWOREF(Tristimulus, s, ILL(a), d, ILL(a)); O(a, Bradford(s, d))),
    OP("Bradford.free", 0, TWO(Tristimulus, s, T(a, K_XYZ), d, T(a, K_XYZ)); O(a, Bradford(s, d))),
    // ---- transfer functions
    OP("OTF.toScreen", OF_CHAN, OTF::TYPE t = (OTF::TYPE)arg_u(a, 11); Tristimulus v = T(a, t == OTF::ST2084 ? K_NITS : K_UNIT); O(a, OTF::toScreen(t, v))),
    OP("OTF.toScreen.gamma", OF_CHAN, OTF::TYPE t = arg_u(a, 3) ? OTF::GAMMA : (OTF::TYPE)arg_u(a, 11); Tristimulus v = T(a, K_UNIT); O(a, OTF::toScreen(t, v, F(a, K_GAMMA)))),
    OP("OTF.toScene", OF_CHAN, OTF::TYPE t = (OTF::TYPE)arg_u(a, 11); Tristimulus v = T(a, K_UNIT); O(a, OTF::toScene(t, v))),
    OP("OTF.toScene.gamma", OF_CHAN, OTF::TYPE t = arg_u(a, 3) ? OTF::GAMMA : (OTF::TYPE)arg_u(a, 11); Tristimulus v = T(a, K_UNIT); O(a, OTF::toScene(t, v, F(a, K_GAMMA)))),
    OP("OTF.gamma", 0, float v = F(a, K_UNIT); float g = F(a, K_GAMMA); O(a, OTF::gamma(v, g)); O(a, OTF::degamma(v, g))),
    OP("OTF.ST2084", 0, O(a, OTF::ST2084_to_Y(F(a, K_UNIT))); O(a, OTF::Y_to_ST2084(F(a, K_NITS)))),
    OP("OTF.sRGB", 0, O(a, OTF::Y_to_sRGB(F(a, K_UNIT))); O(a, OTF::sRGB_to_Y(F(a, K_UNIT)))),
    OP("OTF.BT709", 0, O(a, OTF::Y_to_BT709(F(a, K_UNIT))); O(a, OTF::BT709_to_Y(F(a, K_UNIT)))),
    OP("OTF.HLG", 0, O(a, OTF::Y_to_HLG(F(a, K_XYZ))); O(a, OTF::HLG_to_Y(F(a, K_UNIT)))),
    OP("OTF.SLog", 0, O(a, OTF::Y_to_SLog(F(a, K_XYZ))); O(a, OTF::SLog_to_Y(F(a, K_UNIT)))),
    OP("OTF.SLog2", 0, O(a, OTF::Y_to_SLog2(F(a, K_XYZ))); O(a, OTF::SLog2_to_Y(F(a, K_UNIT))); O(a, OTF::CV_to_IRE_SLog2(F(a, K_UNIT))); O(a, OTF::IRE_to_CV_SLog2(F(a, K_UNIT)))),
    OP("OTF.SLog3", 0, O(a, OTF::Y_to_SLog3(F(a, K_XYZ))); O(a, OTF::SLog3_to_Y(F(a, K_UNIT)))),
    // ---- ICtCp, OKLab, differences
    OP("XYZ_to_ICtCp", 0, O(a, XYZ_to_ICtCp(T(a, K_XYZ)))),
    OP("ICtCp_to_XYZ", 0, O(a, ICtCp_to_XYZ(T(a, K_UNIT)))),
    OP("XYZ_to_OKLAB", 0, O(a, XYZ_to_OKLAB(T(a, K_XYZ)))),
    OP("OKLAB_to_XYZ", 0, O(a, OKLAB_to_XYZ(T(a, K_UNIT)))),
    OP("Delta.UV", 0, TWO(Tristimulus, p, T(a, K_XYZ, K_CHROMA, K_CHROMA), q, T(a, K_XYZ, K_CHROMA, K_CHROMA)); O(a, Delta::UV(p, q))),
    OP("Delta.E76", 0, TWO(Tristimulus, p, T(a, K_L, K_AB, K_AB), q, T(a, K_L, K_AB, K_AB)); O(a, Delta::E76(p, q))),
    OP("Delta.E00", 0, TWO(Tristimulus, p, T(a, K_L, K_AB, K_AB), q, T(a, K_L, K_AB, K_AB)); O(a, Delta::E00(p, q))),
    OP("Delta.E00.K", 0, TWO(Tristimulus, p, T(a, K_L, K_AB, K_AB), q, T(a, K_L, K_AB, K_AB)); O(a, Delta::E00(p, q, F(a, K_POS), F(a, K_POS), F(a, K_POS)))),
    OP("Delta.ICtCp", 0, TWO(Tristimulus, p, T(a, K_XYZ), q, T(a, K_XYZ)); O(a, Delta::ICtCp(p, q))),
    // ---- spectra
    OP("Spectrum.fetch", OF_OBJ, SpecArg h; const Spectrum &s = SP(a, h); float l = F(a, K_NM); O(a, s.fetch(l)); O(a, s.fetch(F(a, K_NM)))),
    OP("Spectrum.resample", OF_OBJ, SpecArg h; const Spectrum &s = SP(a, h); static const int cnt[] = {2, 5, 41, 81, 100, 399, 400, 1}; static const float lo[] = {380.f, 360.f, 400.f, 380.5f}; static const float hi[] = {779.f, 830.f, 700.f, 780.f}; int n = cnt[arg_u(a, 8)]; float l = lo[arg_u(a, 4)]; float e = hi[arg_u(a, 4)]; Spectrum r(s.s().data(), n, l, e); O(a, r)),
    OP("Spectrum.resample.range", OF_OBJ, SpecArg h; const Spectrum &s = SP(a, h); const int n = 1 + arg_u(a, 400); const float l = F(a, K_NM), e = F(a, K_NM); Spectrum r(s.s().data(), n, l, e); O(a, r); O(a, Spectrum::fetch(s.s().data(), n, l, e, F(a, K_NM))); O(a, Spectrum::lerp(F(a, K_UNIT), F(a, K_UNIT), F(a, K_UNIT)))),
    OP("Spectrum.copy", OF_OBJ, SpecArg h; const Spectrum &s = SP(a, h); Spectrum r(s.s().data()); O(a, r); O(a, Spectrum())),
    OP("Spectrum.planck", 0, out_d(a, Spectrum::planck(F(a, K_TEMP), F(a, K_NM) * 1e-9)); out_d(a, Spectrum::planck(F(a, K_TEMP), F(a, K_NM) * 1e-9))),
    OP("Spectrum.blackbody", OF_HEAVY, O(a, Spectrum::blackbody(F(a, K_TEMP)))),
    OP("Spectrum.E", 0, O(a, Spectrum::E(F(a, K_SCALE))); O(a, Spectrum::E())),
    OP("Spectrum.mul.scalar", OF_OBJ | OF_ELEM, SpecArg h; const Spectrum &s = SP(a, h); O(a, s * F(a, K_SCALE))),
    OP("Spectrum.mul", OF_OBJ | OF_ELEM, SpecArg h, k; const Spectrum &s = SP(a, h); const Spectrum &t = SP(a, k); O(a, s * t)),
    OP("Spectrum.add", OF_OBJ | OF_ELEM, SpecArg h, k; const Spectrum &s = SP(a, h); const Spectrum &t = SP(a, k); O(a, s + t)),
    OP("Spectrum.sum", OF_OBJ, SpecArg h; const Spectrum &s = SP(a, h); O(a, s.sum()); O(a, Spectrum::sum(s))),
    OP("Spectrum.dot", OF_OBJ, SpecArg h, k; const Spectrum &s = SP(a, h); const Spectrum &t = SP(a, k); O(a, s.dot(t)); O(a, Spectrum::dot(t, s))),
    OP("Spectrum.dot3", OF_OBJ, SpecArg h, k, l; const Spectrum &s = SP(a, h); const Spectrum &t = SP(a, k); const Spectrum &u = SP(a, l); O(a, Spectrum::dot3(s, t, u))),
    // ---- observers and charts
    OP("Observer.fromSpectrum", OF_OBJ, const Observer &o = OB(a); SpecArg h; O(a, o.fromSpectrum(SP(a, h)))),
    OP("Observer.fromReflectanceAndLight", OF_OBJ, const Observer &o = OB(a); SpecArg h, k; const Spectrum &r = SP(a, h); O(a, o.fromReflectanceAndLight(r, SP(a, k)))),
    OP("Observer.lumens", OF_OBJ, const Observer &o = OB(a); O(a, o.lumensFromMonochromaticFlux(F(a, K_NM), F(a, K_SCALE)))),
    OP("Observer.candellas", OF_OBJ, const Observer &o = OB(a); O(a, o.candellasFromMonochromaticRadiance(F(a, K_NM), F(a, K_SCALE)))),
    OP("Observer.xyz", OF_OBJ, const Observer &o = OB(a); O(a, o.xyz(F(a, K_NM)))),
    OP("Observer.integrate", OF_OBJ, SpecArg h, k, l; const Spectrum &x = SP(a, h); const Spectrum &y = SP(a, k); const Spectrum &z = SP(a, l); O(a, Observer::SpectrumIntegrate(x, y, z, x)); O(a, Observer::SpectrumIntegrate3(x, y, z, y, x))),
    OP("Observer.construct", OF_OBJ, SpecArg h, k, l; const Spectrum &x = SP(a, h); const Spectrum &y = SP(a, k); Observer o(x, y, SP(a, l)); O(a, o.normalize_); O(a, o.fromSpectrum(x))),
    OP("Macbeth.reference", OF_ALLOC | OF_HEAVY | OF_OBJ, SpecArg h; const Spectrum &l = SP(a, h); vector<Tristimulus> v = Macbeth::reference(l, OB(a)); out_i(a, (int64_t)v.size()); for (auto &t : v) O(a, t)),
    OP("Macbeth.reference.default", OF_ALLOC | OF_HEAVY | OF_OBJ, SpecArg h; vector<Tristimulus> v = Macbeth::reference(SP(a, h)); out_i(a, (int64_t)v.size()); for (auto &t : v) O(a, t)),
    // ---- solver and correction
    OP("Corrector.solve", OF_ALLOC | OF_HEAVY | OF_OBJ, int i = arg_u(a, READINGS); if (arg_damaged(a)) { ReadArg r; damageList(a, shared_->patch[i], r.p); damageList(a, shared_->target[i], r.t); O(a, Corrector::solve(r.p, r.t)); } else { const int j = arg_u(a, 4) ? i : arg_u(a, READINGS); O(a, Corrector::solve(shared_->patch[i], shared_->target[j])); }),
    OP("Corrector.solve.chart", OF_ALLOC | OF_HEAVY | OF_OBJ, int i = arg_u(a, READINGS); SpecArg h; const Spectrum &l = SP(a, h); vector<Tristimulus> own; if (arg_damaged(a)) damageList(a, shared_->patch[i], own); vector<Tristimulus> &p = arg_damaged(a) ? own : shared_->patch[i]; O(a, Corrector::solve(p, l, OB(a)))),
    OP("Corrector.makeGamut", OF_ALLOC | OF_HEAVY | OF_OBJ, int i = arg_u(a, READINGS); vector<Tristimulus> own; if (arg_damaged(a)) damageList(a, shared_->patch[i], own); vector<Tristimulus> &p = arg_damaged(a) ? own : shared_->patch[i]; Gamut g = Corrector::makeGamut("made", p); O(a, g); out_b(a, g.name(), strlen(g.name()))),
    OP("SOLVER.solve", OF_ALLOC | OF_OBJ,
        int n = arg_u(a, 6) ? 1 + arg_u(a, 6) : 7 + arg_u(a, 7); int m = arg_u(a, 8) ? n + arg_u(a, 4) : 1 + arg_u(a, n); SOLVER::Matrix A(m, n); SOLVER::Vector b(m), x(n);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = F(a, K_COEF);
        for (int i = 0; i < m; i++) b[i] = F(a, K_COEF);
        SOLVER::Matrix A0(A); SOLVER::Vector b0(b);
        out_i(a, arg_u(a, 4) ? SOLVER::solve(A, b, x) : SOLVER::solve(A, b, x, 0.05f * arg_u(a, 4)));
        for (int j = 0; j < n; j++) O(a, x[j]);
        int same = 1; for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) if (memcmp(&A[i][j], &A0[i][j], 4)) same = 0; if (memcmp(&b[i], &b0[i], 4)) same = 0; }
        out_i(a, same); out_i(a, A.rows()); out_i(a, A.cols())),
    OP("SOLVER.svdcmp", OF_ALLOC | OF_OBJ,
        int n = arg_u(a, 5) ? 1 + arg_u(a, 6) : 7 + arg_u(a, 7); int m = arg_u(a, 8) ? n + arg_u(a, 5) : 1 + arg_u(a, n); SOLVER::Matrix A(m, n), V(n, n); SOLVER::Vector w(n), b(m), x(n);
        const unsigned kind = arg_u(a, 4);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = kind == 1 && j > 0 ? A[i][0] * (float)j : kind == 2 && j != i % n ? 0.f : F(a, K_COEF);
        for (int i = 0; i < m; i++) b[i] = F(a, K_COEF);
        const int r = SOLVER::svdcmp(A, w, V); out_i(a, r); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) O(a, A[i][j]);
        for (int j = 0; j < n; j++) { O(a, w[j]); for (int k = 0; k < n; k++) O(a, V[j][k]); }
        if (r >= 0) { SOLVER::svbksb(A, w, V, b, x); for (int j = 0; j < n; j++) O(a, x[j]); }),
    // ---- streams and the profile loader, each call on its own stream
    OP("Stream.typed", OF_ALLOC | OF_STREAM,
        MemoryStream s; s.setWriteEndian(arg_u(a, 2) ? MemoryStream::BIG : MemoryStream::LITTLE); s.setReadEndian(arg_u(a, 2) ? MemoryStream::BIG : MemoryStream::LITTLE);
        float f = F(a, K_COEF); s.putFloat(f); s.putUint32(arg_u(a, 1u << 31)); s.putInt16((int16_t)arg_u(a, 65536)); s.putDouble(f * 3.0); s.putUint64(arg_u(a, 1u << 31) * 77777ull); s.putInt8((int8_t)arg_u(a, 256));
        s.seekTo(0); O(a, s.getFloat()); out_i(a, s.getUint32()); out_i(a, s.getInt16()); out_d(a, s.getDouble()); out_i(a, (int64_t)s.getUint64()); out_i(a, s.getInt8()); out_i(a, s.feof()); out_i(a, (int64_t)s.ftell());
        out_b(a, s.buffer().data(), s.buffer().size())),
    OP("Stream.raw", OF_ALLOC | OF_STREAM,
        unsigned char tmp[64]; unsigned n = 1 + arg_u(a, 60); for (unsigned i = 0; i < n; i++) tmp[i] = (unsigned char)arg_u(a, 256);
        MemoryStream s(tmp, n); s.write_at(tmp, n / 2, n); unsigned char back[64]; memset(back, 0, sizeof back); size_t r = s.read_at(back, 64, arg_u(a, n)); out_i(a, (int64_t)r); out_b(a, back, r); r = s.read(back, arg_u(a, 64)); out_i(a, (int64_t)r); out_b(a, back, r); out_i(a, (int64_t)s.ftell())),
    OP("Stream.string", OF_ALLOC | OF_STREAM,
        string str; unsigned n = arg_u(a, 40); for (unsigned i = 0; i < n; i++) str.push_back((char)('a' + arg_u(a, 26)));
        MemoryStream s; s.putString(str); size_t e = s.ftell(); s.putUint32(0x31415926u); s.seekTo(0); OS(a, s.get_string()); out_i(a, (int64_t)e); out_i(a, (int64_t)s.ftell()); out_i(a, s.getUint32())),
    OP("Stream.pointers", OF_ALLOC | OF_STREAM,
        MemoryStream s; MemoryStream::Pointer p = s.putPointer32(); unsigned n = arg_u(a, 20); for (unsigned i = 0; i < n; i++) s.putUint8((uint8_t)arg_u(a, 256)); MemoryStream::Pointer q = s.putPointer64(); s.adjustPointer32(p); s.putUint16((uint16_t)arg_u(a, 65536)); s.adjustPointer64(q); s.seekTo(p); out_i(a, (int64_t)s.getPointer32()); s.seekTo(q); out_i(a, (int64_t)s.getPointer64()); out_b(a, s.buffer().data(), s.buffer().size())),
    OP("loadGamutFromICC", OF_ALLOC | OF_STREAM,
        unsigned char tmp[256]; unsigned n = 1 + arg_u(a, 255); for (unsigned i = 0; i < n; i++) tmp[i] = (unsigned char)arg_u(a, 256);
        if (n > 40) memcpy(tmp + 36, "acsp", 4);
        Gamut g = loadGamutFromICCProfileMemory(tmp, n); O(a, g); out_b(a, g.name(), strlen(g.name()))),
};
    n_ops = (int)(sizeof(t) / sizeof(t[0]));
    for (int i = 0; i < n_ops; i++)
        ops[i] = t[i];
}

// ------------------------------------------------------------------------ streams
#define STR(h) (*(MemoryStream *)(h))
void *st_new() { return new MemoryStream(); }
void *st_new_mem(const void *p, size_t n) { return new MemoryStream(p, n); }
// the ways in which programs come by a copy: directly, moved out of a temporary, through a container that grows, by a swap
void *st_copy(void *h, int how)
{
    switch (how)
    {
    case 1: {
        MemoryStream t(STR(h));
        return new MemoryStream(std::move(t));
    }
    case 2: {
        std::vector<MemoryStream> v;
        v.push_back(STR(h));
        for (int i = 0; i < 3; i++)
            v.push_back(MemoryStream());
        return new MemoryStream(v[0]);
    }
    case 3: {
        std::unique_ptr<MemoryStream> n(new MemoryStream);
        MemoryStream                  t(STR(h));
        using std::swap;
        swap(*n, t);
        return n.release();
    }
    }
    return new MemoryStream(STR(h));
}
void st_assign(void *d, void *s, int how)
{
    if (how == 1)
    {
        MemoryStream t(STR(s));
        STR(d) = std::move(t);
    }
    else if (how == 2)
    {
        MemoryStream t(STR(s));
        using std::swap;
        swap(STR(d), t);
    }
    else
        STR(d) = STR(s);
}
void  st_del(void *h) { delete (MemoryStream *)h; }
size_t st_size(void *h) { return STR(h).buffer().size(); }
size_t st_cursor(void *h) { return STR(h).ftell(); }
bool   st_eof(void *h) { return STR(h).feof(); }
void   st_dump(void *h, unsigned char *dst, size_t cap)
{
    auto  &b = STR(h).buffer();
    size_t i = 0;
    for (auto it = b.begin(); it != b.end() && i < cap; ++it)
        dst[i++] = *it;
}
void st_do(void *h, int code, StreamArg &a)
{
    MemoryStream &s = STR(h);
    switch (code)
    {
    case S_WRITE: a.ru = s.write(a.buf, a.n); break;
    case S_READ: a.ru = s.read(a.rbuf, a.n); a.rn = a.ru; break;
    case S_WRITE_AT: a.ru = s.write_at(a.buf, a.n, a.u); break;
    case S_READ_AT: a.ru = s.read_at(a.rbuf, a.n, a.u); a.rn = a.ru; break;
    case S_PUT_AT: s.put_at(a.u, (uint8_t)a.n); break;
    case S_GET_AT: a.ru = s.get_at(a.u); break;
    case S_SEEK_TOP: a.ri = s.fseek((int)a.u, MemoryStream::TOP); break;
    case S_SEEK_CUR: a.ri = s.fseek((int)(int64_t)a.u, MemoryStream::CURRENT); break;
    case S_SEEK_END: a.ri = s.fseek((int)(int64_t)a.u, MemoryStream::END); break;
    case S_SEEKTO: s.seekTo(a.u); break;
    case S_TELL: a.ru = s.ftell(); break;
    case S_MARK: a.ru = s.mark(); break;
    case S_FEOF: a.ru = s.feof(); break;
    case S_RLE: s.setReadEndian(MemoryStream::LITTLE); break;
    case S_RBE: s.setReadEndian(MemoryStream::BIG); break;
    case S_WLE: s.setWriteEndian(MemoryStream::LITTLE); break;
    case S_WBE: s.setWriteEndian(MemoryStream::BIG); break;
    case S_PU8: s.putUint8((uint8_t)a.u); break;
    case S_PI8: s.putInt8((int8_t)a.u); break;
    case S_PU16: s.putUint16((uint16_t)a.u); break;
    case S_PI16: s.putInt16((int16_t)a.u); break;
    case S_PU32: s.putUint32((uint32_t)a.u); break;
    case S_PI32: s.putInt32((int32_t)a.u); break;
    case S_PU64: s.putUint64(a.u); break;
    case S_PI64: s.putInt64((int64_t)a.u); break;
    case S_PF: { uint32_t b = (uint32_t)a.u; float f; memcpy(&f, &b, 4); s.putFloat(f); } break;
    case S_PD: { double f; memcpy(&f, &a.u, 8); s.putDouble(f); } break;
    case S_GU8: a.ru = s.getUint8(); break;
    case S_GI8: a.ri = s.getInt8(); break;
    case S_GU16: a.ru = s.getUint16(); break;
    case S_GI16: a.ri = s.getInt16(); break;
    case S_GU32: a.ru = s.getUint32(); break;
    case S_GI32: a.ri = s.getInt32(); break;
    case S_GU64: a.ru = s.getUint64(); break;
    case S_GI64: a.ri = s.getInt64(); break;
    case S_GF: { const float f = s.getFloat(); uint32_t b; memcpy(&b, &f, 4); a.ru = b; } break;
    case S_GD: { const double f = s.getDouble(); memcpy(&a.ru, &f, 8); } break;
    case S_PP32: a.ru = s.putPointer32(); break;
    case S_PP64: a.ru = s.putPointer64(); break;
    case S_GP32: a.ru = s.getPointer32(); break;
    case S_GP64: a.ru = s.getPointer64(); break;
    case S_ADJ32: s.adjustPointer32(a.u); break;
    case S_ADJ64: s.adjustPointer64(a.u); break;
    case S_ALIGN: s.align((int)a.u); break;
    case S_PUTSTR: s.putString(string((const char *)a.buf, a.n)); break;
    case S_PUTSUB: s.putSubstr(string((const char *)a.buf, a.n), a.u); break;
    case S_GETSTR:
    case S_GETSUB: {
        const string r = code == S_GETSTR ? s.get_string() : s.getSubstr((int)(int64_t)a.u);
        a.ru = r.size();
        a.rn = r.size() < a.rcap ? r.size() : a.rcap;
        memcpy(a.rbuf, r.data(), a.rn);
        break;
    }
    case S_PTR: { // read one byte through the raw pointer interface
        const unsigned char *p = (const unsigned char *)s.ptr(a.u);
        const unsigned char *q = (const unsigned char *)s.ptr();
        a.ru = *p;
        a.ri = st_eof(h) ? -1 : *q;
        break;
    }
    case S_INIT: s.init(a.buf, a.n); break;
    case S_SHRINK: s.buffer().shrink_to_fit(); break;
    }
}

// ------------------------------------------------------------------------ loader
void *icc_load(const void *p, size_t n)
{
    const Gamut g = loadGamutFromICCProfileMemory(p, n);
    return new Gamut(g);
}
void icc_get(void *gp, GamutOut &o)
{
    const Gamut &g = *(Gamut *)gp;
    for (int i = 0; i < 9; i++)
    {
        o.to[i]   = g.toXYZ()[i];
        o.from[i] = g.fromXYZ()[i];
    }
    const char *n = g.name();
    o.name_ok     = n != nullptr;
    size_t k      = 0;
    if (n)
        for (; k < sizeof(o.name) - 1 && n[k]; k++)
            o.name[k] = n[k];
    o.name[k] = 0;
}
void icc_del(void *g) { delete (Gamut *)g; }

void cor_solve(const float *patch, int np, const float *target, int nt, float m[9])
{
    vector<Tristimulus> p, t;
    for (int i = 0; i < np; i++)
        p.push_back(Tristimulus(patch[3 * i], patch[3 * i + 1], patch[3 * i + 2]));
    for (int i = 0; i < nt; i++)
        t.push_back(Tristimulus(target[3 * i], target[3 * i + 1], target[3 * i + 2]));
    const Matrix3 r = Corrector::solve(p, t);
    for (int i = 0; i < 9; i++)
        m[i] = r[i];
}
static Spectrum chart_light(unsigned which)
{
    switch (which % 5)
    {
    case 0:
    case 1: return CIE_D65;
    case 2: return Spectrum::blackbody(2856.f);
    case 3: return Spectrum::E(1.f);
    default: return Spectrum::blackbody(7500.f) * CIE_D65;
    }
}
static const Observer &chart_observer(unsigned which) { return which / 5 % 3 == 0 ? CIE1931 : which / 5 % 3 == 1 ? CIE2012 : CIE31JV; }
int cor_reference(unsigned which, float *xyz, int cap)
{
    const vector<Tristimulus> v = Macbeth::reference(chart_light(which), chart_observer(which));
    int                       n = 0;
    for (size_t i = 0; i < v.size() && n + 3 <= cap; i++)
        for (int k = 0; k < 3; k++)
            xyz[n++] = v[i][k];
    return n / 3;
}
void cor_chart(const float *patch, int np, unsigned which, float m[9], float from[9])
{
    vector<Tristimulus> p;
    for (int i = 0; i < np; i++)
        p.push_back(Tristimulus(patch[3 * i], patch[3 * i + 1], patch[3 * i + 2]));
    const Spectrum l = chart_light(which);
    const Matrix3  r = which == 0 ? Corrector::solve(p) : Corrector::solve(p, l, chart_observer(which));
    const Gamut    g = which == 0 ? Corrector::makeGamut("chart", p) : Corrector::makeGamut("chart", p, l, chart_observer(which));
    for (int i = 0; i < 9; i++)
        m[i] = r[i], from[i] = g.fromXYZ()[i];
}
} // namespace sim
