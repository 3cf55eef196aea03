// Interface between the code under test (sut.cpp, instrumented) and the simulator
// (runtime.cpp / engine.cpp, not instrumented).
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim
{
// What a scalar argument stands for; decides the value pools the generator draws from.
enum Kind
{
    K_UNIT,  // 0..1 signal or linear light
    K_XYZ,   // tristimulus component
    K_CHROMA,// x or y
    K_L,     // CIELAB L
    K_AB,    // CIELAB a/b
    K_TEMP,  // Kelvin
    K_DUV,
    K_HUE,
    K_NM,    // wavelength
    K_GAMMA,
    K_COEF,  // matrix coefficient
    K_SCALE,
    K_NITS,  // 0..100
    K_POS,   // positive, K factors
    K_COUNT
};

struct Args; // one call: argument source and result sink

// --- argument source (implemented in runtime.cpp; all noexcept, no allocation) ---
float    arg_f(Args &, Kind);
unsigned arg_u(Args &, unsigned n); // 0..n-1
bool     arg_damaged(const Args &);
unsigned arg_place(); // where arguments lie: bit 0 order, bit 1 equal ones share memory, bit 2 copies
// damage bytes in place, return new length (<= n); used only when arg_damaged()
size_t   arg_damage(Args &, unsigned char *bytes, size_t n);
const float *arg_curve(Args &, int idx); // 400 floats of generated spectrum number idx (0..CURVES-1)
const float *arg_prims(Args &, int idx); // 8 floats
int          arg_readings(Args &, int idx, const float **patch, const float **target); // returns count

// --- result sink ---
void out_f(Args &, float);
void out_d(Args &, double);
void out_i(Args &, int64_t);
void out_b(Args &, const void *, size_t);

enum
{
    CURVES   = 18,
    PRIMS    = 5,
    READINGS = 16
};

enum OpFlags
{
    OF_ALLOC  = 1,  // may use dynamic memory
    OF_HEAVY  = 2,  // slow call: sampled less often
    OF_STREAM = 4,  // exercises streams / loader
    OF_CHAN   = 8,  // channel-wise: result i depends on channel i % 3 of the first three scalars (and on later scalars)
    OF_CHAN2  = 32, // same, with two colours (six scalars)
    OF_ELEM   = 64, // sample-wise on spectra: result i depends on sample i of the spectrum arguments (and on scalars)
    OF_OBJ    = 16, // takes shared read-only objects
};

struct Op
{
    const char *name;
    int         flags;
    void (*fn)(Args &);
};
extern Op  ops[];
extern int n_ops;
void       sut_init(); // fills the table

// Shared read-only objects, constructed once per run before any thread starts.
void   sut_make_shared();
const void *sut_shared_slot();
// Hash of all shared read-only objects and of the library's published constants.
uint64_t sut_hash_shared();
uint64_t sut_hash_constants();
uint64_t sut_hash_named();

// --- streams -----------------------------------------------------------------------
struct StreamArg
{
    uint64_t       u;      // integer / position / length argument
    double         d;      // floating argument
    const void    *buf;    // data argument
    size_t         n;      // its length
    // results
    int64_t        ri;     // integer result
    uint64_t       ru;
    double         rd;
    float          rf;
    unsigned char *rbuf;   // data result, capacity rcap
    size_t         rcap;
    size_t         rn;
};
enum SCode
{
    S_WRITE, S_READ, S_WRITE_AT, S_READ_AT, S_PUT_AT, S_GET_AT,
    S_SEEK_TOP, S_SEEK_CUR, S_SEEK_END, S_SEEKTO, S_TELL, S_MARK, S_FEOF,
    S_RLE, S_RBE, S_WLE, S_WBE,
    S_PU8, S_PI8, S_PU16, S_PI16, S_PU32, S_PI32, S_PU64, S_PI64, S_PF, S_PD,
    S_GU8, S_GI8, S_GU16, S_GI16, S_GU32, S_GI32, S_GU64, S_GI64, S_GF, S_GD,
    S_PP32, S_PP64, S_GP32, S_GP64, S_ADJ32, S_ADJ64, S_ALIGN,
    S_PUTSTR, S_GETSTR, S_PUTSUB, S_GETSUB,
    S_PTR, S_INIT, S_SHRINK,
    S_NCODES
};
extern const char *const scode_name[];

void *st_new();                                  // empty stream
void *st_new_mem(const void *p, size_t n);       // from memory
void *st_copy(void *h, int how);
void  st_assign(void *dst, void *src, int how);
void  st_del(void *h);
void  st_do(void *h, int code, StreamArg &a);
// contents without going through the operations under test
size_t st_size(void *h);
size_t st_cursor(void *h);
bool   st_eof(void *h);
void   st_dump(void *h, unsigned char *dst, size_t cap);

// --- profile loader ----------------------------------------------------------------
struct GamutOut
{
    float to[9], from[9];
    char  name[64];
    bool  name_ok;
};
void *icc_load(const void *p, size_t n); // returns a heap copy of the gamut
void  icc_get(void *g, GamutOut &o);
void  icc_del(void *g);

// --- correction --------------------------------------------------------------------
void cor_solve(const float *patch, int np, const float *target, int nt, float m[9]);
// The solver on readings of the standard chart under one of several lights and observers.
int  cor_reference(unsigned which, float *xyz, int cap);
void cor_chart(const float *patch, int np, unsigned which, float m[9], float from[9]);
} // namespace sim
