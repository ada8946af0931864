// Type-erased view of the library used by the simulator's executor. No library header is
// included here: everything behind these tables is real library code, compiled with
// instrumentation in wl_*.cc.
#pragma once
#include <cstddef>
#include <string>
#include <utility>
#include <vector>

#include "model.h"
#include "rt.h"

namespace wl {

// Leaf types. Lower part: usable behind Proxy handles. Upper part: static expressions only.
enum LT : int {
    M, Q, A, T, U, t, p, r, w, s,
    NDYN,
    fQ = NDYN, fU, ft, fr,  // with coordinate frames
    mM, mQ, mt, mr, ms,     // mapped onto a user's buffer
    sM, st, sT, sU, sw, sp, // mapped onto parts of a larger buffer of the user
    kM, kt,                 // mapped onto memory the library must not write
    c,                      // compound: relative rotation and translation
    c5,                     // compound: scalar, translation and scalar
    NLT
};
extern const char *const ltName[NLT];
model::Kind kindOf(LT);
inline int dof(LT l) { return model::dofOf(kindOf(l)); }

struct Jac {
    int rows = 0, cols = 0;
    double m[36];
};

struct LeafOps {
    size_t size = 0, align = 0;
    void (*create)(void *slot, const double *canon);
    void (*destroy)(void *);
    void (*assign)(void *, const double *canon, int route);
    void (*read)(const void *, double *canon);
    int (*raw)(const void *, double *out);  // stored coefficients, bit for bit
    bool (*random)(double *canon, int route);  // route 0: Leaf::Random(), 1: setRandom-like
};
const LeafOps &leafOps(LT);
constexpr int NumAssignRoutes = 4;

struct HandleOps {  // Proxy<Leaf>
    size_t size = 0, align = 0;
    void (*fromLeaf)(void *slot, const double *canon, int route);
    void (*fromVar)(void *slot, const void *leaf);
    void (*copy)(void *slot, const void *src);
    void (*move)(void *slot, void *src);
    void (*assignCopy)(void *dst, const void *src);
    void (*assignMove)(void *dst, void *src);
    void (*assignLeaf)(void *dst, const double *canon);
    void (*destroy)(void *);
    const void *(*node)(const void *);
    const void *(*innerLeaf)(const void *);  // address of the leaf a makeProxy(leaf) node owns
    long (*useCount)(const void *);
    void (*eval)(const void *, double *canon, int route);
    int (*revAll)(const void *, const void *const *keys, Jac *out, int n, double *val);
    size_t (*leaves)(const void *, const void **keys, size_t max);
    // per target leaf type
    bool (*jacLeaf[NDYN])(const void *h, const void *leaf, int route, Jac *out, double *val);
    bool (*jacNode[NDYN])(const void *h, const void *handle, int route, Jac *out, double *val);
    void (*multi[NDYN])(const void *h, const void *x0, const void *x1, const void *hd,
                        Jac *out, double *val);
    // RefProxy<Leaf>
    size_t refSize = 0;
    void (*refNew)(void *slot, const void *node);
    void (*refCopy)(void *slot, const void *src);
    void (*refAssign)(void *dst, const void *src);
    void (*refRebind)(void *dst, const void *node);
    void (*refDestroy)(void *);
    const void *(*refNode)(const void *);
    void (*refEval)(const void *, double *canon, int route);
    int (*refRev)(const void *, const void *const *keys, Jac *out, int n, double *val);
    bool (*refJac[NDYN])(const void *ref, const void *leaf, int route, Jac *out, double *val);
    bool (*jacRef[NDYN])(const void *h, const void *ref, int route, Jac *out, double *val);
    // std::shared_ptr<DynamicBase<Leaf>>, as returned by get()
    size_t keepSize = 0;
    void (*keepNew)(void *slot, const void *handle);
    void (*keepDrop)(void *);
    const void *(*keepNode)(const void *);
};
const HandleOps &handleOps(LT);
constexpr int NumEvalRoutes = 7, NumJacRoutes = 5, NumNodeRoutes = 4;
constexpr int NumRefEvalRoutes = 5, NumRefJacRoutes = 4, NumJacRefRoutes = 3;

struct Holder {  // a static expression object, stored in a simulated-heap slot
    virtual ~Holder() = default;
    virtual size_t size() const = 0;
    virtual Holder *cloneInto(void *slot) const = 0;
    virtual Holder *moveInto(void *slot) = 0;
    virtual void eval(double *canon, int route) = 0;
    virtual bool jac(int operand, int route, Jac *out, double *val) = 0;
    virtual bool numeric(int operand, Jac *out) = 0;
    virtual bool revAll(const void *const *keys, Jac *out, int n) = 0;
};
constexpr int NumHolderEvalRoutes = 8, NumHolderJacRoutes = 6;

struct DynObj {  // a Dynamic expression object made by makeDynamic(), used through ref()
    virtual ~DynObj() = default;
    virtual const void *node() const = 0;  // DynamicBase<Leaf> address
    virtual DynObj *cloneInto(void *slot) const = 0;
    virtual DynObj *moveInto(void *slot) = 0;
    virtual void eval(double *canon, int route) const = 0;
};

struct Frag {
    std::string name;
    const char *prog;
    int nin = 0;
    LT in[4];
    char kind[5];  // L leaf by reference, V leaf moved in (W: mapped), P proxy, X moved proxy, R RefProxy by name, Y temporary ref()
    LT out;
    // any may be null
    void (*build)(void *slot, void *const *args) = nullptr;
    void (*assignHandle)(void *handle, void *const *args, int route) = nullptr;
    size_t holderSize = 0, holderAlign = 0, dynSize = 0, dynAlign = 0;
    Holder *(*hold)(void *slot, void *const *args) = nullptr;
    DynObj *(*dyn)(void *slot, void *const *args) = nullptr;
    void (*direct)(void *const *args, double *canon, int route) = nullptr;
    void (*assignVar)(void *x, void *const *args, int route) = nullptr;
    bool block = false;  // assignVar writes part of x; operand 0 of prog is x itself
    LT blockOf = M;
};
std::vector<Frag> &frags();

// ---- estimation
struct FactorObj {
    virtual ~FactorObj() = default;
    virtual FactorObj *cloneInto(void *slot) const = 0;
    virtual void evaluate(void *const *params, double *res) const = 0;
    virtual void evaluateJ(void *const *params, double *res, Jac *jac) const = 0;
    virtual bool setVariable(int i, const double *canon) = 0;  // through data()
    virtual void variableValue(int i, double *canon) const = 0;
    virtual void *variableLeaf(int i) const = 0;
    virtual long variableUse(int i) const = 0;
    virtual size_t arity() const = 0;
    virtual bool consistent() const = 0;  // what it says of itself and of its noise
};
struct FactorDesc {
    const char *name;
    int nparam, nres;  // at most five and six
    LT in[5];
    const char *prog[4];  // predicted measurement, one program per block
    int blockKind[4];     // model::Kind of each block
    int nblock;
    size_t size, align;
    // meas: canonical measurement; sd: standard deviation (diagonal) per residual row, or a
    // full covariance (row-major) if `full`
    FactorObj *(*make)(void *slot, const double *meas, const double *noise);
    bool full;
};
std::vector<FactorDesc> &factors();

/** Known-bad miniatures, to test the simulator: runs one and returns what should have been
 *  reported ("" for nothing), or null if there is no such miniature. */
const char *miniature(int i);

void initTables();
}  // namespace wl
