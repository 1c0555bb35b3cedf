#ifndef SIM_MACHINE_IMPL_H
#define SIM_MACHINE_IMPL_H
#include <sstream>
#include <iostream>
#include <memory>
#include <deque>
#include "machine.h"
#include "bignum/bignum.h"

// A vector that reallocates on every change of length: the most allocation points, no stale references survive.
template <class T>
struct TightVec : public std::vector<T> {
    typedef std::vector<T> V;
    typedef typename V::size_type size_type;
    using V::V;
    TightVec() {}
    TightVec(const TightVec&) = default;
    TightVec(TightVec&&) = default;
    TightVec& operator=(const TightVec& o) { if (this != &o) { V t(o); V::operator=(std::move(t)); } return *this; }
    TightVec& operator=(TightVec&& o) { V::operator=(std::move(o)); return *this; }
    TightVec& operator=(std::initializer_list<T> l) { V t(l); V::operator=(std::move(t)); return *this; }
    void push_back(const T& x) { V t; t.reserve(this->size() + 1); t.insert(t.end(), this->begin(), this->end()); t.push_back(x); V::operator=(std::move(t)); }
    void push_back(T&& x) { const T y = x; push_back(y); }
    void resize(size_type n) { resize(n, T()); }
    void resize(size_type n, const T& x) {
        if (n <= this->size()) { V::resize(n, x); return; }
        V t; t.reserve(n); t.insert(t.end(), this->begin(), this->end()); t.resize(n, x); V::operator=(std::move(t));
    }
};
// A deque with the vector members the library documents it needs ("union of vector and deque").
template <class T>
struct ReserveDeque : public std::deque<T> {
    typedef std::deque<T> V;
    using V::V;
    ReserveDeque() {}
    ReserveDeque(const ReserveDeque&) = default;
    ReserveDeque(ReserveDeque&&) = default;
    ReserveDeque& operator=(const ReserveDeque&) = default;
    ReserveDeque& operator=(ReserveDeque&&) = default;
    ReserveDeque& operator=(std::initializer_list<T> l) { V::operator=(l); return *this; }
    void reserve(typename V::size_type) {}
    typename V::size_type capacity() const { return this->size(); }
};
// moving a deque may allocate, and so may the general std::swap: what a failure leaves behind is not judged, see is_deque()
template <class T> void swap(ReserveDeque<T>& a, ReserveDeque<T>& b) noexcept { static_cast<std::deque<T>&>(a).swap(b); }

template <class L, class C> inline u64 base_of_digit_max() { return (u64)L::SINGLE_BASE_MAX + 1; }

// digits that are BNIntType objects
template <class S> struct DigitIO {
    static const bool cls = false;
    static void print(u64 v, std::ostream& o) { S s = (S)v; arm(); o << s; disarm(); }
    static u64 read(std::istream& i, u64 init) { S s = (S)init; arm(); i >> s; disarm(); return (u64)s; }
};
template <class N, BN_UINT64 id> struct DigitIO<BNIntType<N, id>> {
    typedef BNIntType<N, id> S;
    static const bool cls = true;
    static void print(u64 v, std::ostream& o) { S s{(N)v}; arm(); o << s; disarm(); }
    static u64 read(std::istream& i, u64 init) { S s{(N)init}; arm(); i >> s; disarm(); return (u64)(N)s; }
};

template <size_t... I> struct Idx {};
template <size_t N, size_t... I> struct MakeIdx : MakeIdx<N - 1, N - 1, I...> {};
template <size_t... I> struct MakeIdx<0, I...> { typedef Idx<I...> type; };

template <class B, class L>
struct Mach : public IMach {
    typedef typename B::bn_single S;
    const char* nm; bool tg, dq;
    std::unique_ptr<B[]> r;
    Mach(const char* n, bool t = false, bool q = false) : nm(n), tg(t), dq(q) {}
    const char* name() const override { return nm; }
    u64 base() const override { return (u64)L::SINGLE_BASE_MAX + 1; }
    unsigned digit_bytes() const override { return sizeof(S); }
    bool digit_class() const override { return DigitIO<S>::cls; }
    bool tight() const override { return tg; }
    bool is_deque() const override { return dq; }
    static S dg(u64 v) { return S(v); }
    void reset(int n) override { r.reset(); if (n) r.reset(new B[n]); }
    void get(int i, Rep& o) override {
        const B& x = r[i];
        o.desc = (int)x.getDescriptor();
        const typename B::container_type& c = x.getData();
        o.d.clear(); o.d.reserve(c.size());
        for (auto it = c.begin(); it != c.end(); ++it) o.d.push_back((u64)*it);
    }
    void build(B& t, const Rep& in) {
        if (in.desc > 1) t.setDescriptor((bn_desc_t)in.desc);          // giving up finiteness drops the digits
        for (size_t i = 0; i < in.d.size(); ++i) t.push_back(dg(in.d[i]));
        if (in.desc == 1) t.setDescriptor((bn_desc_t)in.desc);
    }
    void put(int i, const Rep& in) override { B t; build(t, in); r[i] = t; }
    void restore(int i, const Rep& in, int how) override {
        B t; build(t, in);
        if (how == 1) { r[i].clear(); r[i] = t; }
        else if (how == 2) r[i] = std::move(t);
        else if (how == 3) { r[i].clear(); if (in.desc > 1) r[i].setDescriptor((bn_desc_t)in.desc); for (size_t k = 0; k < in.d.size(); ++k) r[i].push_back(dg(in.d[k])); if (in.desc == 1) r[i].setDescriptor((bn_desc_t)in.desc); }
        else if (how == 4) { r[i].clear(); r[i] += t; }
        else r[i] = t;
    }
    template <size_t... I> void litn(int d, bn_desc_t s, const std::vector<u64>& v, Idx<I...>) { arm(); B t(s, {dg(v[I])...}); disarm(); r[d] = std::move(t); }
    // armed while constructing the list-constructed number
    void lit(int d, bn_desc_t s, const std::vector<u64>& v) {
        #define BN_X(k) dg(v[k])
        #define BN_L(...) { arm(); B t(s, {__VA_ARGS__}); disarm(); r[d] = std::move(t); return; }
        switch (v.size()) {
            case 0: BN_L()
            case 1: BN_L(BN_X(0))
            case 2: BN_L(BN_X(0), BN_X(1))
            case 3: BN_L(BN_X(0), BN_X(1), BN_X(2))
            case 4: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3))
            case 5: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4))
            case 6: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5))
            case 8: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5), BN_X(6), BN_X(7))
            case 12: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5), BN_X(6), BN_X(7), BN_X(8), BN_X(9), BN_X(10), BN_X(11))
            case 16: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5), BN_X(6), BN_X(7), BN_X(8), BN_X(9), BN_X(10), BN_X(11), BN_X(12), BN_X(13), BN_X(14), BN_X(15))
            case 20: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5), BN_X(6), BN_X(7), BN_X(8), BN_X(9), BN_X(10), BN_X(11), BN_X(12), BN_X(13), BN_X(14), BN_X(15), BN_X(16), BN_X(17), BN_X(18), BN_X(19))
            case 33: BN_L(BN_X(0), BN_X(1), BN_X(2), BN_X(3), BN_X(4), BN_X(5), BN_X(6), BN_X(7), BN_X(8), BN_X(9), BN_X(10), BN_X(11), BN_X(12), BN_X(13), BN_X(14), BN_X(15), BN_X(16), BN_X(17), BN_X(18), BN_X(19), BN_X(20), BN_X(21), BN_X(22), BN_X(23), BN_X(24), BN_X(25), BN_X(26), BN_X(27), BN_X(28), BN_X(29), BN_X(30), BN_X(31), BN_X(32))
            case 70: litn(d, s, v, typename MakeIdx<70>::type()); return;
            case 300: litn(d, s, v, typename MakeIdx<300>::type()); return;
            default: {
                Rep in; in.desc = (int)s; in.d.assign(v.rbegin(), v.rend());
                put(d, in);
            }
        }
        #undef BN_L
        #undef BN_X
    }
    // the same call in different forms: operands that are temporaries, const or not, results that initialise or are copied; temporaries are made before the call
    #define BN_COMPOUND(op) { const B* z; const B& y = r[o.a]; if (o.how == 1) { B t(y); arm(); z = &(r[o.d] op std::move(t)); disarm(); } else if (o.how == 2) { const B t(y); arm(); z = &(r[o.d] op t); disarm(); } \
        else if (o.how == 3) { arm(); z = &(r[o.d] op y); disarm(); } else { arm(); z = &(r[o.d] op r[o.a]); disarm(); } ref_ok = z == &r[o.d]; }
    #define BN_BINARY(op) { const B& x = r[o.a]; const B& y = r[o.b]; \
        switch (o.how) { \
            case 1: { B s(x); arm(); r[o.d] = std::move(s) op y; disarm(); break; } \
            case 2: { B t(y); arm(); r[o.d] = x op std::move(t); disarm(); break; } \
            case 3: { B s(x), t(y); arm(); r[o.d] = std::move(s) op std::move(t); disarm(); break; } \
            case 4: arm(); r[o.d] = r[o.a] op r[o.b]; disarm(); break; \
            case 5: { arm(); B t = x op y; r[o.d] = std::move(t); disarm(); break; } \
            case 6: { arm(); const B t(x op y); r[o.d] = t; disarm(); break; } \
            case 7: { const B z; arm(); r[o.d] = (x + z) op y; disarm(); break; } \
            default: arm(); r[o.d] = x op y; disarm(); \
        } }
    void run(const Op& o) override {
        switch (o.kind) {
            case ADDEQ: BN_COMPOUND(+=) break;
            case SUBEQ: BN_COMPOUND(-=) break;
            case MULEQ: BN_COMPOUND(*=) break;
            case DIVEQ: BN_COMPOUND(/=) break;
            case ADD: BN_BINARY(+) break;
            case SUB: BN_BINARY(-) break;
            case MUL: BN_BINARY(*) break;
            case DIV: BN_BINARY(/) break;
            case LIT: lit(o.d, (bn_desc_t)o.desc, o.digits); break;
            case COPY: { const B& x = r[o.a]; arm(); const B* z = o.how & 1 ? &(r[o.d] = r[o.a]) : &(r[o.d] = x); disarm(); ref_ok = z == &r[o.d]; break; }
            case CCTOR: { const B& x = r[o.a]; if (o.how & 1) { B& v = r[o.a]; arm(); B t(v); disarm(); r[o.d] = std::move(t); } else { arm(); B t(x); disarm(); r[o.d] = std::move(t); } break; }
            case MOVE: { arm(); const B* z = &(r[o.d] = std::move(r[o.a])); disarm(); ref_ok = z == &r[o.d]; break; }
            case MCTOR: { arm(); B t(std::move(r[o.a])); disarm(); r[o.d] = std::move(t); break; }
            case DEFCTOR: { arm(); B t; disarm(); r[o.d] = std::move(t); break; }
            case SETDESC: arm(); r[o.d].setDescriptor((bn_desc_t)o.desc); disarm(); break;
            case PUSHB: arm(); r[o.d].push_back(dg(o.dig)); disarm(); break;
            case PUSHF: arm(); r[o.d].push_front(dg(o.dig)); disarm(); break;
            case PUSHAT: arm(); r[o.d].push(dg(o.dig), (typename B::container_type::size_type)o.pos); disarm(); break;
            case POPB: arm(); r[o.d].pop_back(); disarm(); break;
            case POPF: arm(); r[o.d].pop_front(); disarm(); break;
            case POPAT: arm(); r[o.d].pop((typename B::container_type::size_type)o.pos); disarm(); break;
            case RESIZE: arm(); if (o.b) r[o.d].resize((typename B::container_type::size_type)o.pos); else r[o.d].resize((typename B::container_type::size_type)o.pos, dg(o.dig)); disarm(); break;
            case SWAP: { using std::swap; arm(); if (o.how & 1) swap(r[o.d], r[o.a]); else std::swap(r[o.d], r[o.a]); disarm(); break; }
            case CLEAR: arm(); r[o.d].clear(); disarm(); break;
            case POKE: arm(); r[o.d][(typename B::container_type::size_type)o.pos] = dg(o.dig); disarm(); break;
            default: break;
        }
    }
    void cmp(int a, int b, CmpOut& o) override {
        const B& x = r[a]; const B& y = r[b];
        arm();
        o.eq = x == y; o.ne = x != y; o.lt = x < y; o.le = x <= y; o.gt = x > y; o.ge = x >= y;
        o.pos = x.isPositive(); o.neg = x.isNegative(); o.inf = x.isInfinite(); o.nan = x.isNan();
        o.size = x.size(); o.desc = (int)x.getDescriptor();
        disarm();
    }
    u64 idx_read(int i, u64 pos, int how) override { const B& x = r[i]; B& v = r[i]; arm(); S s = how & 1 ? v[(typename B::container_type::size_type)pos] : x[(typename B::container_type::size_type)pos]; disarm(); return (u64)s; }
    static void rep_of(const B& x, Rep& o) { o.desc = (int)x.getDescriptor(); o.d.clear(); for (auto it = x.getData().begin(); it != x.getData().end(); ++it) o.d.push_back((u64)*it); }
    void idx_write(int i, u64 pos, u64 d, int how, int j, Rep& kept) override {
        B& v = r[i]; const B& x = v; const B& y = r[j]; S s = dg(d); B t; std::ostringstream text; volatile bool sink = false;
        arm();
        S& ref = v[(typename B::container_type::size_type)pos];
        switch (how) {
            case 1: sink = x < y; sink = x == x; break;
            case 2: text << x; break;
            case 3: { B c(x); t = std::move(c); break; }
            case 4: t = x; break;
            case 5: t = x + y; break;
            case 6: sink = x.isNegative(); sink = x.size() != 0; sink = x >= y; break;
            case 7: t = y * x; break;
            default: break;
        }
        ref = s;
        disarm();
        (void)sink;
        if (how == 3 || how == 4) rep_of(t, kept);
    }
    void print(int i, std::ostream& o) override { const B& x = r[i]; arm(); o << x; disarm(); }
    void digit_print(u64 v, std::ostream& o) override { DigitIO<S>::print(v, o); }
    u64 digit_read(std::istream& i, u64 init) override { return DigitIO<S>::read(i, init); }
};
#ifndef SIM_SCHED
// A static object of a translation unit that uses the library, like any user's: C21 runs operations in its constructor and in its destructor.
void life_start(const char* unit); void life_end(const char* unit);
namespace { struct LifeHook { LifeHook() { life_start(__BASE_FILE__); } ~LifeHook() { life_end(__BASE_FILE__); } } g_life_hook; }
#endif
#endif
