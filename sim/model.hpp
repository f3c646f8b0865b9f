// Reference models: trivial representations of the content (arrays of bits and integers), the
// generators that make content from a few numbers, and the resolution of raw numbers into valid
// queries together with the answers the content defines for them.
#pragma once
#include "core.hpp"

namespace sim {

enum Kind {
    K_MV8, K_MV16, K_MV32, K_MV64, K_BV, K_RS, K_DA, K_D64, K_BP, K_CT, K_TKE, K_TKM,
    K_EF, K_EFL, K_EFCL, K_GV, K_GB, K_NV, K_COMP, N_KINDS
};
extern const char* const kind_names[N_KINDS];

struct Spec {
    u64 kind, var, gen, n, seed, p;
    Spec() : kind(0), var(0), gen(0), n(0), seed(0), p(0) {}
};

enum Op {
    Q_SIZE, Q_AT, Q_BITS, Q_WORD, Q_WORD56, Q_PRED0, Q_SUCC0, Q_PRED1, Q_SUCC1, Q_DATA,
    Q_NUM1, Q_NUM0, Q_RANK, Q_RANK0, Q_SEL, Q_SEL0,
    Q_FOPEN, Q_FCLOSE, Q_ENCLOSE, Q_EXCESS, Q_ERMQ, Q_ERMQ_IDX,
    Q_RMQ, Q_TOPK, Q_TOPK_ENUM,
    Q_DELTA, Q_SELRANGE, Q_SUM, Q_ITER,
    Q_PODS, Q_SUBRANK, Q_SUBLIST, Q_SUBNIB, Q_SUBVEC, Q_SUBSIZES,
    N_OPS
};
extern const char* const op_names[N_OPS];

struct Query { int op; u64 a, b, c; Query() : op(-1), a(0), b(0), c(0) {} };
typedef std::vector<u64> Ans;

enum CursorKind { CK_NONE, CK_BITS, CK_UNARY, CK_EF, CK_FWD, CK_TOPK };
enum COp {
    CO_NEXT, CO_TAKE, CO_SKIPZ, CO_POS,         // bit enumerator
    CO_SKIP, CO_PEEK, CO_SKIP0,                 // unary (and gamma_bit skip)
    CO_VALUE, CO_RESEAT, CO_CLEAR               // top-k, all
};

struct Model {
    Spec sp;
    std::vector<u64> vals;              // integers, in order
    std::vector<uint8_t> bits;          // 0/1
    std::vector<u64> ones, zeros;       // positions
    std::vector<uint32_t> rank1;        // prefix counts, size + 1
    std::vector<uint32_t> match, encl;  // parentheses: matching position; enclosing open (or ~0)
    u64 universe;                       // Elias-Fano
    u64 sum;
    u64 pod64; uint32_t pod32; uint8_t pod8;
    std::vector<uint8_t> nib;           // composite
    std::vector<u64> list, vec32;       // composite

    Model() : universe(0), sum(0), pod64(0), pod32(0), pod8(0) {}
    void make(Spec const& s);

    bool has_bits() const;              // answers bit queries
    u64 length() const;                 // number of elements

    // maps raw numbers to a valid query of this content and gives its answer; false: no such query
    bool query(u64 op, u64 a, u64 b, u64 c, Query& q, Ans& out) const;
    void answer(Query const& q, Ans& out) const;
    u64 walk(Query const& q, Ans const& want) const;
    size_t op_count() const;
    void sanity_bits() { finish_bits(); }     // bits were set directly
private:
    void finish_bits();
    void finish_bp();
    u64 pick_pos(u64 raw, u64 n) const;
    u64 pick_idx(u64 raw, u64 n) const;
};

// reference cursor
struct MCursor {
    Model const* m;
    int kind;
    u64 pos;            // bits: position; unary: position
    u64 idx;            // next element / index into ones
    bool after_next;    // unary: a one at the position was consumed
    bool taken64;
    std::vector<std::pair<u64, u64> > order;    // top-k: remaining (value, index) in order
    bool has_val; u64 cur_val, cur_idx;
    u64 a0, b0;         // concrete start
    MCursor() : m(0), kind(0), pos(0), idx(0), after_next(false), taken64(false), has_val(false), cur_val(0), cur_idx(0), a0(0), b0(0) {}
    bool start(Model const& mod, u64 which, u64 a, u64 b);          // false: no cursor possible there
    bool step(u64 op, u64 arg, Query& q, Ans& out);                 // concrete operation + expected answer
    u64 walked(u64 pos0, u64 idx0, Query const& q, Ans const& out) const;  // words or elements the step moved over
};
int cursor_kind(Model const& m, u64 which);     // which-th cursor family of this kind (CK_NONE if it has none)

// generation of specs
u64 pick_size(Rng& r, u64 cap);
Spec pick_spec(Rng& r, u64 kind, u64 cap);

} // namespace sim
