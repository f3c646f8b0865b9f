// Compiled once per build configuration with -Dsuccinct=succinct_<cfg> and -DSIM_CFG=<cfg>.
#include <deque>
#include <sstream>
#include <list>
#include <assert.h>
#include <boost/iostreams/device/mapped_file.hpp>
#include "subjects.hpp"

#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
#include "bp_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "mapper.hpp"
#include "util.hpp"
#include "forward_enumerator.hpp"

namespace sim { namespace {

namespace S = ::succinct;
using S::mapper::mappable_vector;

// ---- inputs ---------------------------------------------------------------------------------------
template <typename T, typename Src>
struct InRange {
    typedef T value_type;
    struct iterator {
        typedef std::forward_iterator_tag iterator_category;
        typedef T value_type; typedef ptrdiff_t difference_type; typedef T const* pointer; typedef T reference;
        Src const* p; InputFault* f;
        iterator() : p(0), f(0) {}
        iterator(Src const* q, InputFault* g) : p(q), f(g) {}
        T operator*() const { if (f) f->tick(); return T(*p); }
        iterator& operator++() { ++p; return *this; }
        iterator operator++(int) { iterator t(*this); ++p; return t; }
        bool operator==(iterator const& o) const { return p == o.p; }
        bool operator!=(iterator const& o) const { return p != o.p; }
    };
    typedef iterator const_iterator;
    typedef size_t size_type; typedef ptrdiff_t difference_type;
    Src const* b; size_t n; InputFault* f;
    InRange(std::vector<Src> const& v, InputFault* g) : b(v.data()), n(v.size()), f(g) {}
    iterator begin() const { return iterator(b, f); }
    iterator end() const { return iterator(b + n, f); }
    size_t size() const { return n; }
};

struct FormulaRange {
    typedef uint64_t value_type;
    struct iterator {
        typedef std::forward_iterator_tag iterator_category;
        typedef uint64_t value_type; typedef ptrdiff_t difference_type; typedef uint64_t const* pointer; typedef uint64_t reference;
        Formula const* f; u64 i;
        iterator() : f(0), i(0) {}
        iterator(Formula const* g, u64 k) : f(g), i(k) {}
        uint64_t operator*() const { return f->at(i); }
        iterator& operator++() { ++i; return *this; }
        iterator operator++(int) { iterator t(*this); ++i; return t; }
        bool operator==(iterator const& o) const { return i == o.i; }
        bool operator!=(iterator const& o) const { return i != o.i; }
    };
    typedef iterator const_iterator;
    typedef size_t size_type; typedef ptrdiff_t difference_type;
    Formula const* f; size_t n;
    FormulaRange(Formula const& g, size_t k) : f(&g), n(k) {}
    iterator begin() const { return iterator(f, 0); }
    iterator end() const { return iterator(f, n); }
    size_t size() const { return n; }
};

struct BvbGuard { S::bit_vector_builder* p; BvbGuard() : p(0) {} ~BvbGuard() { if (p) LIBV(delete p); } };

// fills a builder with the bits along one of several histories
const unsigned BVB_ROUTES = 8;
void make_bvb(BvbGuard& g, std::vector<uint8_t> const& b, u64 route, u64 seed)
{
    Rng r(seed ^ 0xB0B);
    size_t n = b.size();
    typedef S::bit_vector_builder B;
    auto word = [&](size_t i, size_t l) { u64 w = 0; for (size_t k = 0; k < l; ++k) w |= u64(b[i + k]) << k; return w; };
    switch (route % BVB_ROUTES) {
    case 0: g.p = LIB(new B()); for (size_t i = 0; i < n; ++i) LIBV(g.p->push_back(b[i])); break;
    case 1: g.p = LIB(new B()); for (size_t i = 0; i < n;) { size_t l = std::min<size_t>(n - i, r.below(3) ? 1 + r.below(64) : 64); u64 w = word(i, l); LIBV(g.p->append_bits(w, l)); i += l; } break;
    case 2: g.p = LIB(new B()); for (size_t i = 0; i < n;) {
            size_t j = i; while (j < n && b[j] == b[i]) ++j;
            if (j - i > 3 && r.below(4)) { size_t l = r.below(4) ? j - i : 1 + r.below(j - i); if (b[i]) LIBV(g.p->one_extend(l)); else LIBV(g.p->zero_extend(l)); i += l; }
            else if (r.below(2)) { LIBV(g.p->push_back(b[i])); ++i; }
            else { size_t l = std::min<size_t>(n - i, r.below(65)); u64 w = word(i, l); LIBV(g.p->append_bits(w, l)); i += l; }
        } break;
    case 3: g.p = LIB(new B(n, false)); for (size_t i = 0; i < n;) { size_t l = std::min<size_t>(n - i, 1 + r.below(64)); u64 w = word(i, l); LIBV(g.p->set_bits(i, w, l)); i += l; } break;
    case 4: { g.p = LIB(new B()); size_t i = 0;
            while (i < n) { size_t l = std::min<size_t>(n - i, r.below(4) == 0 ? 64 * r.below(5) : 1 + r.below(300)); BvbGuard t; t.p = LIB(new B()); for (size_t k = 0; k < l; ++k) LIBV(t.p->push_back(b[i + k])); LIBV(g.p->append(*t.p)); i += l; }
            break; }
    case 5: g.p = LIB(new B()); for (size_t i = n; i-- > 0;) LIBV(g.p->push_back(b[i])); LIBV(g.p->reverse()); break;
    case 6: g.p = LIB(new B()); LIBV(g.p->reserve(n + r.below(200))); for (size_t i = 0; i < n; ++i) { LIBV(g.p->push_back(!b[i])); LIBV(g.p->set(i, b[i])); } break;
    default: g.p = LIB(new B(n, true)); for (size_t i = 0; i < n; ++i) if (!b[i]) LIBV(g.p->set(i, 0)); break;
    }
}

// ---- user-defined structures that hold library structures --------------------------------------------
struct da_struct {
    S::bit_vector bv; S::darray1 d1; S::darray0 d0;
    template <typename V> void map(V& visit) { visit(bv, "bv")(d1, "d1")(d0, "d0"); }
    void swap(da_struct& o) { bv.swap(o.bv); d1.swap(o.d1); d0.swap(o.d0); }
};
struct composite {
    uint64_t p64; S::rs_bit_vector rs; uint8_t p8; S::elias_fano_compressed_list list; uint32_t p32; S::nibble_vector nib; mappable_vector<uint32_t> vec;
    composite() : p64(0), p8(0), p32(0) {}
    template <typename V> void map(V& visit) { visit(p64, "p64")(rs, "rs")(p8, "p8")(list, "list")(p32, "p32")(nib, "nib")(vec, "vec"); }
    void swap(composite& o) { std::swap(p64, o.p64); rs.swap(o.rs); std::swap(p8, o.p8); list.swap(o.list); std::swap(p32, o.p32); nib.swap(o.nib); vec.swap(o.vec); }
};

template <int K> struct Ty;
template <> struct Ty<K_MV8> { typedef mappable_vector<uint8_t> T; };
template <> struct Ty<K_MV16> { typedef mappable_vector<uint16_t> T; };
template <> struct Ty<K_MV32> { typedef mappable_vector<uint32_t> T; };
template <> struct Ty<K_MV64> { typedef mappable_vector<uint64_t> T; };
template <> struct Ty<K_BV> { typedef S::bit_vector T; };
template <> struct Ty<K_RS> { typedef S::rs_bit_vector T; };
template <> struct Ty<K_DA> { typedef da_struct T; };
template <> struct Ty<K_D64> { typedef S::darray64 T; };
template <> struct Ty<K_BP> { typedef S::bp_vector T; };
template <> struct Ty<K_CT> { typedef S::cartesian_tree T; };
template <> struct Ty<K_TKE> { typedef S::topk_vector<S::elias_fano_compressed_list> T; };
template <> struct Ty<K_TKM> { typedef S::topk_vector<mappable_vector<uint64_t> > T; };
template <> struct Ty<K_EF> { typedef S::elias_fano T; };
template <> struct Ty<K_EFL> { typedef S::elias_fano_list T; };
template <> struct Ty<K_EFCL> { typedef S::elias_fano_compressed_list T; };
template <> struct Ty<K_GV> { typedef S::gamma_vector T; };
template <> struct Ty<K_GB> { typedef S::gamma_bit_vector T; };
template <> struct Ty<K_NV> { typedef S::nibble_vector T; };
template <> struct Ty<K_COMP> { typedef composite T; };

// ---- queries ------------------------------------------------------------------------------------------
void no_op(Query const& q) { harness_error("operation %d not available here", q.op); }

template <typename V> void bit_query(V const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_SIZE: { u64 x = LIB(v.size()); o.push_back(x); break; }
    case Q_AT: { bool x = LIB(v[q.a]); o.push_back(x); break; }
    case Q_BITS: { u64 x = LIB(v.get_bits(q.a, q.b)); o.push_back(x); break; }
    case Q_WORD: { u64 x = LIB(v.get_word(q.a)); o.push_back(x); break; }
    case Q_WORD56: { u64 x = LIB(v.get_word56(q.a)); o.push_back(x & ((u64(1) << 56) - 1)); break; }
    case Q_PRED0: { u64 x = LIB(v.predecessor0(q.a)); o.push_back(x); break; }
    case Q_SUCC0: { u64 x = LIB(v.successor0(q.a)); o.push_back(x); break; }
    case Q_PRED1: { u64 x = LIB(v.predecessor1(q.a)); o.push_back(x); break; }
    case Q_SUCC1: { u64 x = LIB(v.successor1(q.a)); o.push_back(x); break; }
    case Q_DATA: { u64 x = LIB(u64(v.data()[q.a])); o.push_back(x); break; }
    default: no_op(q);
    }
}
template <typename V> void rs_query(V const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_NUM1: { u64 x = LIB(v.num_ones()); o.push_back(x); break; }
    case Q_NUM0: { u64 x = LIB(v.num_zeros()); o.push_back(x); break; }
    case Q_RANK: { u64 x = LIB(v.rank(q.a)); o.push_back(x); break; }
    case Q_RANK0: { u64 x = LIB(v.rank0(q.a)); o.push_back(x); break; }
    case Q_SEL: { u64 x = LIB(v.select(q.a)); o.push_back(x); break; }
    case Q_SEL0: { u64 x = LIB(v.select0(q.a)); o.push_back(x); break; }
    default: bit_query(v, q, o);
    }
}
template <typename V> void vec_query(V const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_SIZE: { u64 x = LIB(v.size()); o.push_back(x); break; }
    case Q_AT: { u64 x = LIB(u64(v[q.a])); o.push_back(x); break; }
    default: no_op(q);
    }
}
template <typename T> void ask(mappable_vector<T> const& v, Query const& q, Ans& o)
{
    if (q.op == Q_ITER) {
        u64 n = LIB(v.size()), h = n; o.push_back(n);
        LIBV(for (typename mappable_vector<T>::const_iterator i = v.begin(); i != v.end(); ++i) h = mix64(h ^ u64(*i)));
        o.push_back(h);
    } else if (q.op == Q_DATA) {
        u64 h = 1; LIBV(T const* p = v.data(); for (u64 i = 0, n = v.size(); i < n; ++i) h = mix64(h ^ u64(p[i])));
        o.push_back(h);
    } else vec_query(v, q, o);
}
void ask(S::bit_vector const& v, Query const& q, Ans& o) { bit_query(v, q, o); }
void ask(S::rs_bit_vector const& v, Query const& q, Ans& o) { rs_query(v, q, o); }
void ask(S::bp_vector const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_FOPEN: { u64 x = LIB(v.find_open(q.a)); o.push_back(x); break; }
    case Q_FCLOSE: { u64 x = LIB(v.find_close(q.a)); o.push_back(x); break; }
    case Q_ENCLOSE: { u64 x = LIB(v.enclose(q.a)); o.push_back(x); break; }
    case Q_EXCESS: { int64_t x = LIB(int64_t(v.excess(q.a))); o.push_back(u64(x)); break; }
    case Q_ERMQ: { S::bp_vector::excess_t e = -77; u64 x = LIB(v.excess_rmq(q.a, q.b, e)); o.push_back(x); o.push_back(u64(int64_t(e))); break; }
    case Q_ERMQ_IDX: { u64 x = LIB(v.excess_rmq(q.a, q.b)); o.push_back(x); break; }
    default: rs_query(v, q, o);
    }
}
void ask(da_struct const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_NUM1: { u64 x = LIB(v.d1.num_positions()); o.push_back(x); break; }
    case Q_NUM0: { u64 x = LIB(v.d0.num_positions()); o.push_back(x); break; }
    case Q_SEL: { u64 x = LIB(v.d1.select(v.bv, q.a)); o.push_back(x); break; }
    case Q_SEL0: { u64 x = LIB(v.d0.select(v.bv, q.a)); o.push_back(x); break; }
    default: bit_query(v.bv, q, o);
    }
}
void ask(S::darray64 const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_NUM1: { u64 x = LIB(v.num_ones()); o.push_back(x); break; }
    case Q_SEL: { u64 x = LIB(v.select(q.a)); o.push_back(x); break; }
    default: bit_query(v.bits(), q, o);
    }
}
void ask(S::cartesian_tree const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_SIZE: { u64 x = LIB(v.size()); o.push_back(x); break; }
    case Q_RMQ: { u64 x = LIB(v.rmq(q.a, q.b)); o.push_back(x); break; }
    default: no_op(q);
    }
}
template <typename V> void ask(S::topk_vector<V> const& v, Query const& q, Ans& o)
{
    typedef S::topk_vector<V> T;
    if (q.op == Q_TOPK) {
        typename T::entry_vector_type r = LIB(v.topk(q.a, q.b, q.c));
        for (size_t i = 0; i < r.size(); ++i) { o.push_back(boost::get<0>(r[i])); o.push_back(boost::get<1>(r[i])); }
        LIBV(typename T::entry_vector_type().swap(r));
    } else if (q.op == Q_TOPK_ENUM) {
        typename T::enumerator e = LIB(v.get_topk_enumerator(q.a, q.b));
        for (u64 i = 0; i < q.c; ++i) { bool more = LIB(e.next()); if (!more) break; typename T::entry_type x = LIB(typename T::entry_type(e.value())); o.push_back(boost::get<0>(x)); o.push_back(boost::get<1>(x)); }
    } else vec_query(v, q, o);
}
void ask(S::elias_fano const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_SIZE: { u64 x = LIB(v.size()); o.push_back(x); break; }
    case Q_NUM1: { u64 x = LIB(v.num_ones()); o.push_back(x); break; }
    case Q_AT: { bool x = LIB(v[q.a]); o.push_back(x); break; }
    case Q_RANK: { u64 x = LIB(v.rank(q.a)); o.push_back(x); break; }
    case Q_SEL: { u64 x = LIB(v.select(q.a)); o.push_back(x); break; }
    case Q_PRED1: { u64 x = LIB(v.predecessor1(q.a)); o.push_back(x); break; }
    case Q_SUCC1: { u64 x = LIB(v.successor1(q.a)); o.push_back(x); break; }
    case Q_DELTA: { u64 x = LIB(v.delta(q.a)); o.push_back(x); break; }
    case Q_SELRANGE: { std::pair<uint64_t, uint64_t> x = LIB(v.select_range(q.a)); o.push_back(x.first); o.push_back(x.second); break; }
    default: no_op(q);
    }
}
void ask(S::elias_fano_list const& v, Query const& q, Ans& o) { if (q.op == Q_SUM) { u64 x = LIB(v.sum()); o.push_back(x); } else vec_query(v, q, o); }
void ask(S::elias_fano_compressed_list const& v, Query const& q, Ans& o) { vec_query(v, q, o); }
void ask(S::gamma_vector const& v, Query const& q, Ans& o) { vec_query(v, q, o); }
void ask(S::gamma_bit_vector const& v, Query const& q, Ans& o) { vec_query(v, q, o); }
void ask(S::nibble_vector const& v, Query const& q, Ans& o) { vec_query(v, q, o); }
void ask(composite const& v, Query const& q, Ans& o)
{
    switch (q.op) {
    case Q_PODS: o.push_back(v.p64); o.push_back(v.p32); o.push_back(v.p8); break;
    case Q_SUBRANK: { u64 x = LIB(v.rs.rank(q.a)); o.push_back(x); break; }
    case Q_SUBLIST: { u64 x = LIB(v.list[q.a]); o.push_back(x); break; }
    case Q_SUBNIB: { u64 x = LIB(u64(v.nib[q.a])); o.push_back(x); break; }
    case Q_SUBVEC: { u64 x = LIB(u64(v.vec[q.a])); o.push_back(x); break; }
    case Q_SUBSIZES: { u64 a = LIB(v.rs.size()), b = LIB(v.rs.num_ones()), c = LIB(v.list.size()), d = LIB(v.nib.size()), e = LIB(v.vec.size());
        o.push_back(a); o.push_back(b); o.push_back(c); o.push_back(d); o.push_back(e); break; }
    default: no_op(q);
    }
}

// ---- cursors --------------------------------------------------------------------------------------------
// the caller's part of an object: memory that does not fail; only the constructor runs inside the library
template <typename C, typename F> C* in_place(F f)
{
    void* mem = lib_alloc(sizeof(C));
    LibScope ls; ::sim::count(C_lib_calls);
    try { return f(mem); } catch (...) { ::operator delete(mem); throw; }
}
#define NEW_AT(C, args) in_place<C>([&](void* at_) { return new (at_) C args; })
template <typename E> struct CurBase : LibCursor {
    E e;
    explicit CurBase(E const& x) : e(x) {}
    void assign(LibCursor& o) { E& f = static_cast<CurBase&>(o).e; LIBV(e = f); }
    void swap(LibCursor& o) { E& f = static_cast<CurBase&>(o).e; LIBV(using std::swap; swap(e, f)); }
};
struct BitsCur : CurBase<S::bit_vector::enumerator> {
    BitsCur(S::bit_vector::enumerator const& x) : CurBase<S::bit_vector::enumerator>(x) {}
    void op(Query const& q, Ans& o) {
        switch (q.op) {
        case CO_NEXT: { bool x = LIB(e.next()); o.push_back(x); break; }
        case CO_TAKE: { u64 x = LIB(e.take(q.a)); o.push_back(x); break; }
        case CO_SKIPZ: { u64 x = LIB(e.skip_zeros()); o.push_back(x); break; }
        default: { u64 x = LIB(e.position()); o.push_back(x); break; }
        }
    }
    LibCursor* clone() { return NEW_AT(BitsCur, (e)); }
};
struct UnaryCur : CurBase<S::bit_vector::unary_enumerator> {
    UnaryCur(S::bit_vector::unary_enumerator const& x) : CurBase<S::bit_vector::unary_enumerator>(x) {}
    void op(Query const& q, Ans& o) {
        switch (q.op) {
        case CO_NEXT: { u64 x = LIB(e.next()); o.push_back(x); break; }
        case CO_SKIP: { LIBV(e.skip(q.a)); u64 x = LIB(e.position()); o.push_back(x); break; }
        case CO_PEEK: { u64 x = LIB(e.skip_no_move(q.a)); o.push_back(x); break; }
        case CO_SKIP0: { LIBV(e.skip0(q.a)); u64 x = LIB(e.position()); o.push_back(x); break; }
        default: { u64 x = LIB(e.position()); o.push_back(x); break; }
        }
    }
    LibCursor* clone() { return NEW_AT(UnaryCur, (e)); }
};
template <typename E> struct NextCur : CurBase<E> {
    NextCur(E const& x) : CurBase<E>(x) {}
    void op(Query const& q, Ans& o) {
        if (q.op == CO_SKIP) { do_skip(this->e, q.a, 0); return; }
        u64 x = LIB(u64(this->e.next())); o.push_back(x);
    }
    template <typename X> static auto do_skip(X& e, u64 k, int) -> decltype(e.skip(k)) { LIBV(e.skip(k)); }
    template <typename X> static void do_skip(X& e, u64 k, long) { for (u64 i = 0; i < k; ++i) LIBV(e.next()); }
    LibCursor* clone() { return NEW_AT(NextCur, (this->e)); }
};
template <typename T> struct TopCur : LibCursor {
    T const* v; typename T::enumerator e;
    TopCur(T const* x) : v(x) {}
    TopCur(TopCur const& o) : LibCursor(), v(o.v), e(o.e) {}
    void op(Query const& q, Ans& o) {
        switch (q.op) {
        case CO_RESEAT: LIBV(v->get_topk_enumerator(q.a, q.b, e)); break;
        case CO_CLEAR: LIBV(e.clear()); break;
        case CO_VALUE: put(o); break;
        default: { bool m = LIB(e.next()); o.push_back(m); if (m) put(o); break; }
        }
    }
    void put(Ans& o) { typename T::entry_type x = LIB(typename T::entry_type(e.value())); o.push_back(boost::get<0>(x)); o.push_back(boost::get<1>(x)); }
    LibCursor* clone() { return NEW_AT(TopCur, (*this)); }
    void assign(LibCursor& o) { TopCur& c = static_cast<TopCur&>(o); v = c.v; LIBV(e = c.e); }
    void swap(LibCursor& o) { TopCur& c = static_cast<TopCur&>(o); std::swap(v, c.v); LIBV(e.swap(c.e)); }
};

template <typename V> LibCursor* bit_cursor(V const& v, int ck, u64 a)
{
    if (ck == CK_BITS) return NEW_AT(BitsCur, (typename V::enumerator(v, a)));
    return NEW_AT(UnaryCur, (typename V::unary_enumerator(v, a)));
}
LibCursor* mk_cursor(S::bit_vector const& v, int ck, u64 a, u64) { return bit_cursor(v, ck, a); }
LibCursor* mk_cursor(S::rs_bit_vector const& v, int ck, u64 a, u64) { return bit_cursor(v, ck, a); }
LibCursor* mk_cursor(S::bp_vector const& v, int ck, u64 a, u64) { return bit_cursor(v, ck, a); }
LibCursor* mk_cursor(da_struct const& v, int ck, u64 a, u64) { return bit_cursor(v.bv, ck, a); }
LibCursor* mk_cursor(S::darray64 const& v, int ck, u64 a, u64) { return bit_cursor(v.bits(), ck, a); }
LibCursor* mk_cursor(S::elias_fano const& v, int, u64 a, u64) { typedef S::elias_fano::select_enumerator E; return NEW_AT(NextCur<E>, (E(v, a))); }
template <typename V> LibCursor* fwd(V const& v, u64 a) { typedef S::forward_enumerator<V> E; return NEW_AT(NextCur<E>, (E(v, a))); }
LibCursor* mk_cursor(S::elias_fano_list const& v, int, u64 a, u64) { return fwd(v, a); }
LibCursor* mk_cursor(S::elias_fano_compressed_list const& v, int, u64 a, u64) { return fwd(v, a); }
LibCursor* mk_cursor(S::gamma_vector const& v, int, u64 a, u64) { return fwd(v, a); }
LibCursor* mk_cursor(S::gamma_bit_vector const& v, int, u64 a, u64) { return fwd(v, a); }
template <typename T> LibCursor* mk_cursor(mappable_vector<T> const& v, int, u64 a, u64) { return fwd(v, a); }
template <typename V> LibCursor* mk_cursor(S::topk_vector<V> const& v, int, u64 a, u64 b)
{
    typedef S::topk_vector<V> T;
    TopCur<T>* c = NEW_AT(TopCur<T>, (&v));
    try { LIBV(v.get_topk_enumerator(a, b, c->e)); } catch (...) { LIBV(delete c); throw; }
    return c;
}
template <typename T> LibCursor* mk_cursor(T const&, int, u64, u64) { harness_error("no cursor"); }

// ---- building ---------------------------------------------------------------------------------------------
// a comparator of the caller's, which may have other things to do
template <typename Cmp> struct BusyCmp { InputFault* f; bool operator()(uint64_t a, uint64_t b) const { f->tick(); return Cmp()(a, b); } };

typedef InRange<bool, uint8_t> BitRange;
typedef InRange<uint64_t, u64> ValRange;

template <typename T> T* bit_range_build(Model const& m, u64 route, InputFault* f) // routes 0..3: ranges
{
    switch (route) {
    case 0: return LIB(new T(BitRange(m.bits, f)));
    case 1: { std::vector<bool> v(m.bits.begin(), m.bits.end()); return LIB(new T(v)); }
    case 2: { std::deque<int> v(m.bits.begin(), m.bits.end()); for (size_t i = 0; i < v.size(); ++i) v[i] *= int(i % 9 + 1); return LIB(new T(v)); }
    default: { std::list<char> v(m.bits.begin(), m.bits.end()); return LIB(new T(v)); }
    }
}
template <typename T> T* rs_range_build(Model const& m, u64 route, InputFault* f)
{
    bool h1 = m.sp.var & 1, h0 = m.sp.var & 2;
    switch (route) {
    case 0: return LIB(new T(BitRange(m.bits, f), h1, h0));
    case 1: { std::vector<bool> v(m.bits.begin(), m.bits.end()); return LIB(new T(v, h1, h0)); }
    case 2: { std::deque<int> v(m.bits.begin(), m.bits.end()); return LIB(new T(v, h1, h0)); }
    default: { std::list<char> v(m.bits.begin(), m.bits.end()); return LIB(new T(v, h1, h0)); }
    }
}
template <typename T> T* val_range_build(Model const& m, u64 route, InputFault* f)
{
    switch (route % 3) {
    case 0: return LIB(new T(ValRange(m.vals, f)));
    case 1: { std::vector<uint64_t> v(m.vals.begin(), m.vals.end()); return LIB(new T(v)); }
    default: { std::list<uint64_t> v(m.vals.begin(), m.vals.end()); return LIB(new T(v)); }
    }
}

template <int K> struct Bld { static typename Ty<K>::T* build(Model const& m, u64 r, InputFault* f) { return val_range_build<typename Ty<K>::T>(m, r, f); } };

template <typename E> struct VecBld {
    typedef mappable_vector<E> T;
    static T* build(Model const& m, u64 r, InputFault* f) {
        switch (r % 4) {
        case 0: return LIB(new T(InRange<E, u64>(m.vals, f)));
        case 1: { std::vector<E> v(m.vals.begin(), m.vals.end()); return LIB(new T(v)); }
        case 2: { T* t = LIB(new T()); try { LIBV(t->assign(InRange<E, u64>(m.vals, f))); } catch (...) { LIBV(delete t); throw; } return t; }
        default: { T* t = LIB(new T()); try { LIBV(std::vector<E> v(m.vals.begin(), m.vals.end()); t->steal(v)); } catch (...) { LIBV(delete t); throw; } return t; }
        }
    }
};
template <> struct Bld<K_MV8> : VecBld<uint8_t> {};
template <> struct Bld<K_MV16> : VecBld<uint16_t> {};
template <> struct Bld<K_MV32> : VecBld<uint32_t> {};
template <> struct Bld<K_MV64> : VecBld<uint64_t> {};
template <> struct Bld<K_NV> { static S::nibble_vector* build(Model const& m, u64 r, InputFault* f) {
    typedef S::nibble_vector T;
    if (r % 3 == 0) return LIB(new T(InRange<uint8_t, u64>(m.vals, f)));
    if (r % 3 == 1) { std::vector<uint8_t> v(m.vals.begin(), m.vals.end()); return LIB(new T(v)); }
    std::list<int> v(m.vals.begin(), m.vals.end()); return LIB(new T(v)); } };
template <> struct Bld<K_BV> { static S::bit_vector* build(Model const& m, u64 r, InputFault* f) {
    r %= 4 + BVB_ROUTES;
    if (r < 4) return bit_range_build<S::bit_vector>(m, r, f);
    BvbGuard g; make_bvb(g, m.bits, r - 4, m.sp.seed + r); return LIB(new S::bit_vector(g.p)); } };
template <typename T> T* rs_build(Model const& m, u64 r, InputFault* f) {
    r %= 4 + BVB_ROUTES;
    if (r < 4) return rs_range_build<T>(m, r, f);
    BvbGuard g; make_bvb(g, m.bits, r - 4, m.sp.seed + r); return LIB(new T(g.p, bool(m.sp.var & 1), bool(m.sp.var & 2))); }
template <> struct Bld<K_RS> { static S::rs_bit_vector* build(Model const& m, u64 r, InputFault* f) { return rs_build<S::rs_bit_vector>(m, r, f); } };
template <> struct Bld<K_BP> { static S::bp_vector* build(Model const& m, u64 r, InputFault* f) { return rs_build<S::bp_vector>(m, r, f); } };
template <> struct Bld<K_DA> { static da_struct* build(Model const& m, u64 r, InputFault* f) {
    r %= 4 + BVB_ROUTES;
    S::bit_vector* bv = Bld<K_BV>::build(m, r, f);
    da_struct* d = 0;
    try { d = LIB(new da_struct); LIBV(d->bv.swap(*bv)); LIBV(S::darray1(d->bv).swap(d->d1)); LIBV(S::darray0(d->bv).swap(d->d0)); }
    catch (...) { LIBV(delete d); LIBV(delete bv); throw; }
    LIBV(delete bv);
    return d; } };
template <> struct Bld<K_D64> { static S::darray64* build(Model const& m, u64, InputFault* f) {
    S::darray64::builder b;
    for (size_t i = 0; i < m.vals.size(); ++i) { if (f) f->step(); if (m.vals[i]) LIBV(b.append1(m.vals[i])); else LIBV(b.append1()); }
    return LIB(new S::darray64(&b)); } };
template <> struct Bld<K_CT> { static S::cartesian_tree* build(Model const& m, u64 r, InputFault* f) {
    typedef S::cartesian_tree T;
    bool gr = m.sp.var & 1;
    if (f && f->hook && m.sp.p % 2) { // the comparator is busy, not the range
        if (gr) return LIB(new T(m.vals, BusyCmp<std::greater<uint64_t> >{f}));
        return LIB(new T(m.vals, BusyCmp<std::less<uint64_t> >{f}));
    }
    switch (r % 4) {
    case 0: if (gr) return LIB(new T(ValRange(m.vals, f), std::greater<uint64_t>())); return LIB(new T(ValRange(m.vals, f)));
    case 1: { std::vector<uint64_t> v(m.vals.begin(), m.vals.end()); if (gr) return LIB(new T(v, std::greater<uint64_t>())); return LIB(new T(v, std::less<uint64_t>())); }
    case 2: { std::list<uint64_t> v(m.vals.begin(), m.vals.end()); if (gr) return LIB(new T(v, std::greater<uint64_t>())); return LIB(new T(v)); }
    default: {
        typedef T::builder<uint64_t> B;
        B* b = LIB(new B(m.sp.p % 3 ? m.vals.size() : 0)); T* t = 0;
        try { for (size_t i = 0; i < m.vals.size(); ++i) { if (f) f->step(); if (gr) LIBV(b->push_back(m.vals[i], std::greater<uint64_t>())); else LIBV(b->push_back(m.vals[i], std::less<uint64_t>())); }
            t = LIB(new T(b)); } catch (...) { LIBV(delete b); throw; }
        LIBV(delete b); return t; }
    } } };
template <> struct Bld<K_EF> { static S::elias_fano* build(Model const& m, u64 r, InputFault* f) {
    typedef S::elias_fano T; typedef T::elias_fano_builder B;
    bool rank = m.sp.var & 1;
    r %= 1 + BVB_ROUTES;
    if ((m.sp.var & 2) || r == 0) {
        B* b = LIB(new B(m.universe, m.vals.size())); T* t = 0;
        try { for (size_t i = 0; i < m.vals.size(); ++i) { if (f) f->step(); LIBV(b->push_back(m.vals[i])); } t = LIB(new T(b, rank)); } catch (...) { LIBV(delete b); throw; }
        LIBV(delete b); return t;
    }
    BvbGuard g; make_bvb(g, m.bits, r - 1, m.sp.seed + r); return LIB(new T(g.p, rank)); } };
template <> struct Bld<K_COMP> { static composite* build(Model const& m, u64 r, InputFault* f) {
    Model t;
    composite* c = LIB(new composite);
    try {
        c->p64 = m.pod64; c->p32 = m.pod32; c->p8 = m.pod8;
        t.sp = m.sp; t.sp.var = 3; t.bits = m.bits;
        S::rs_bit_vector* rs = rs_build<S::rs_bit_vector>(t, r, f); LIBV(c->rs.swap(*rs)); LIBV(delete rs);
        LIBV(S::elias_fano_compressed_list(ValRange(m.list, f)).swap(c->list));
        LIBV(S::nibble_vector(m.nib).swap(c->nib));
        LIBV(c->vec.assign(InRange<uint32_t, u64>(m.vec32, f)));
    } catch (...) { LIBV(delete c); throw; }
    return c; } };

// ---- objects -------------------------------------------------------------------------------------------------
void walk(S::mapper::size_node_ptr const& n, u64 depth, std::vector<TreeNode>& o)
{
    TreeNode t; { HarnessScope hs; t.name = n->name; t.size = n->size; t.depth = depth; o.push_back(t); }
    for (size_t i = 0; i < n->children.size(); ++i) walk(n->children[i], depth + 1, o);
}

template <int K> struct ObjT : Obj {
    typedef typename Ty<K>::T T;
    T* p;
    explicit ObjT(T* q) : p(q) {}
    ~ObjT() { LIBV(delete p); }
    void query(Query const& q, Ans& o) { T const& c = *p; ask(c, q, o); }
    LibCursor* cursor(int ck, u64 a, u64 b) { T const& c = *p; return mk_cursor(c, ck, a, b); }
    u64 freeze(std::ofstream& f, u64 flags) { return LIB(S::mapper::freeze(*p, f, flags)); }
    u64 freeze(const char* name, u64 flags) { return LIB(S::mapper::freeze(*p, name, flags)); }
    u64 map(const char* b, u64 flags) { return LIB(S::mapper::map(*p, b, flags ? u64(S::mapper::map_flags::warmup) : 0)); }
    u64 map(boost::iostreams::mapped_file_source const& f, u64 flags) { return LIB(S::mapper::map(*p, f, flags ? u64(S::mapper::map_flags::warmup) : 0)); }
    u64 size_of() { return LIB(S::mapper::size_of(*p)); }
    void size_tree(std::vector<TreeNode>& out, std::string& dump) {
        S::mapper::size_node_ptr t = LIB(S::mapper::size_tree_of(*p));
        walk(t, 0, out);
        { std::ostringstream os; LIBV(t->dump(os)); dump = os.str(); }
        LIBV(t.reset());
    }
    void swap(Obj& o) { T* q = static_cast<ObjT&>(o).p; LIBV(p->swap(*q)); }
    void dispose() { LIBV(S::util::dispose(*p)); }
    bool is_vector() const { return K <= K_MV64; }
    void v_clear() { if constexpr (K <= K_MV64) LIBV(p->clear()); }
    void v_assign(Model const& m, InputFault* f) { if constexpr (K <= K_MV64) { typedef typename T::value_type E; LIBV(p->assign(InRange<E, u64>(m.vals, f))); } else { (void)m; (void)f; } }
    void v_steal(Model const& m) { if constexpr (K <= K_MV64) { typedef typename T::value_type E; LIBV(std::vector<E> v(m.vals.begin(), m.vals.end()); p->steal(v); if (!v.empty() && m.vals.size()) { HarnessScope hs; violation("steal", "steal left %zu elements in the source", v.size()); }); } else (void)m; }
};

struct BuilderT : Builder {
    S::bit_vector_builder* b;
    BuilderT(S::bit_vector_builder* x) : b(x) {}
    ~BuilderT() { LIBV(delete b); }
    void reserve(u64 n) { LIBV(b->reserve(n)); }
    void push_back(bool x) { LIBV(b->push_back(x)); }
    void set(u64 p, bool x) { LIBV(b->set(p, x)); }
    void set_bits(u64 p, u64 w, u64 l) { LIBV(b->set_bits(p, w, l)); }
    void append_bits(u64 w, u64 l) { LIBV(b->append_bits(w, l)); }
    void append_pattern(u64 w, u64 n) { LibScope ls; for (; n >= 64; n -= 64) b->append_bits(w, 64); if (n) b->append_bits(w & (~u64(0) >> (64 - n)), n); }
    void zero_extend(u64 n) { LIBV(b->zero_extend(n)); }
    void one_extend(u64 n) { LIBV(b->one_extend(n)); }
    void append(Builder& o) { S::bit_vector_builder* x = static_cast<BuilderT&>(o).b; LIBV(b->append(*x)); }
    void reverse() { LIBV(b->reverse()); }
    void swap(Builder& o) { S::bit_vector_builder* x = static_cast<BuilderT&>(o).b; LIBV(b->swap(*x)); }
    u64 size() { return LIB(b->size()); }
    void words(std::vector<u64>& o) { S::bit_vector_builder::bits_type& v = LIB(b->move_bits()); o.assign(v.begin(), v.end()); }
    Obj* finish(u64 kind, u64 var) {
        switch (kind) {
        case K_BV: { S::bit_vector* t = LIB(new S::bit_vector(b)); return new ObjT<K_BV>(t); }
        case K_RS: { S::rs_bit_vector* t = LIB(new S::rs_bit_vector(b, bool(var & 1), bool(var & 2))); return new ObjT<K_RS>(t); }
        case K_BP: { S::bp_vector* t = LIB(new S::bp_vector(b, bool(var & 1), bool(var & 2))); return new ObjT<K_BP>(t); }
        case K_DA: { da_struct* d = LIB(new da_struct); S::bit_vector* t = LIB(new S::bit_vector(b)); LIBV(d->bv.swap(*t)); LIBV(delete t);
            if (var & 1) LIBV(S::darray1(d->bv).swap(d->d1)); if (var & 2) LIBV(S::darray0(d->bv).swap(d->d0)); return new ObjT<K_DA>(d); }
        default: { S::elias_fano* t = LIB(new S::elias_fano(b, bool(var & 1))); return new ObjT<K_EF>(t); }
        }
    }
};

template <typename I> struct LinesT : Lines {
    I it, end;
    LinesT(I const& a, I const& b) : it(a), end(b) {}
    bool done() { return LIB(it == end); }
    void get(std::string& o) { std::string const& s = LIB(*it); o.assign(s.data(), s.size()); }
    void inc() { LIBV(++it); }
    Lines* clone() { return LIB(new LinesT(it, end)); }
    void assign(Lines& o) { LinesT& l = static_cast<LinesT&>(o); LIBV(it = l.it); }
    bool same(Lines& o) { LinesT& l = static_cast<LinesT&>(o); return LIB(it == l.it); }
};
struct MmapT : MmapLines {
    S::util::mmap_lines m;
    MmapT(std::string const& n) : m(n) {}
    Lines* begin() { typedef S::util::mmap_lines::iterator I; return LIB(new LinesT<I>(m.begin(), m.end())); }
};
struct AutoT : AutoFile {
    S::util::auto_file f;
    AutoT(const char* n, const char* m) : f(n, m) {}
    FILE* get() { return LIB(f.get()); }
};

template <int K> Obj* build_k(Model const& m, u64 route, InputFault* f) { typename Ty<K>::T* t = Bld<K>::build(m, route, f); return new ObjT<K>(t); }
template <int K> Obj* empty_k() { typedef typename Ty<K>::T T; T* t = in_place<T>([&](void* at_) { return new (at_) T; }); return new ObjT<K>(t); }

#define FOR_KINDS(X) X(K_MV8) X(K_MV16) X(K_MV32) X(K_MV64) X(K_BV) X(K_RS) X(K_DA) X(K_D64) X(K_BP) X(K_CT) X(K_TKE) X(K_TKM) X(K_EF) X(K_EFL) X(K_EFCL) X(K_GV) X(K_GB) X(K_NV) X(K_COMP)
#define STR2(x) #x
#define STR(x) STR2(x)

struct FactoryT : Factory {
    const char* name() { return STR(SIM_CFG); }
    Obj* empty(u64 kind) {
        switch (kind) {
#define X(k) case k: return empty_k<k>();
        FOR_KINDS(X)
#undef X
        default: harness_error("bad kind");
        }
    }
    Obj* build(Model const& m, u64 route, InputFault* f) {
        switch (m.sp.kind) {
#define X(k) case k: return build_k<k>(m, route, f);
        FOR_KINDS(X)
#undef X
        default: harness_error("bad kind");
        }
    }
    Obj* build_formula(u64 kind, u64 n, u64 universe, Formula const& f) {
        if (kind == K_EF) {
            typedef S::elias_fano::elias_fano_builder B;
            B* b = LIB(new B(universe, n)); S::elias_fano* t = 0;
            { LibScope ls; for (u64 i = 0; i < n; ++i) b->push_back(f.at(i)); }
            t = LIB(new S::elias_fano(b, true));
            LIBV(delete b);
            return new ObjT<K_EF>(t);
        }
        if (kind == K_D64) { // positions of the ones
            typedef S::darray64::builder B;
            B* b = LIB(new B()); S::darray64* t = 0;
            { LibScope ls; u64 last = ~u64(0); for (u64 i = 0; i < n; ++i) { u64 x = f.at(i); b->append1(x - last - 1); last = x; } }
            t = LIB(new S::darray64(b));
            LIBV(delete b);
            return new ObjT<K_D64>(t);
        }
        FormulaRange r(f, n);
        switch (kind) {
        case K_NV: { S::nibble_vector* t = LIB(new S::nibble_vector(r)); return new ObjT<K_NV>(t); }
        case K_CT: { S::cartesian_tree* t = LIB(new S::cartesian_tree(r)); return new ObjT<K_CT>(t); }
        case K_EFL: { S::elias_fano_list* t = LIB(new S::elias_fano_list(r)); return new ObjT<K_EFL>(t); }
        case K_EFCL: { S::elias_fano_compressed_list* t = LIB(new S::elias_fano_compressed_list(r)); return new ObjT<K_EFCL>(t); }
        case K_GV: { S::gamma_vector* t = LIB(new S::gamma_vector(r)); return new ObjT<K_GV>(t); }
        case K_GB: { S::gamma_bit_vector* t = LIB(new S::gamma_bit_vector(r)); return new ObjT<K_GB>(t); }
        default: harness_error("bad kind");
        }
    }
    Builder* builder(u64 n, bool init) { typedef S::bit_vector_builder B; B* b = n || init ? LIB(new B(n, init)) : LIB(new B()); return new BuilderT(b); }
    bool getline(std::string& l, FILE* f, bool trim) { return LIB(S::util::fast_getline(l, f, trim)); }
    Lines* lines(FILE* f, bool trim) { typedef S::util::line_iterator I; LibScope ls; S::util::line_range_t r = S::util::lines(f, trim); return new LinesT<I>(r.first, r.second); }
    Lines* buffer_lines(const char* p, size_t n) { typedef S::util::buffer_line_iterator I; LibScope ls; return new LinesT<I>(I(p, n), I()); }
    MmapLines* mmap_lines(const char* n) { std::string s(n); LibScope ls; return new MmapT(s); }
    AutoFile* auto_file(const char* n, const char* m) { LibScope ls; return new AutoT(n, m); }
};

} // anonymous

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
Factory* CAT(make_factory_, SIM_CFG)() { static FactoryT* f = new FactoryT; return f; }

} // namespace sim

#include "rs_bit_vector.cpp"
#include "bp_vector.cpp"
#include "sim_extra_sources.inc"
