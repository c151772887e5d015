// A small, self-contained implementation of the part of the SOFA 21.12 API that src/SofaCaribou uses.  It lets the SOFA
// components of caribou (forcefields, materials, mapping, topology, algebra wrappers) be compiled from the working tree and
// explored without SOFA.  Containers check their bounds (violations end the process, which the runner reports).
// Every <sofa/...>, <SofaBase...>/... header that SofaCaribou includes is generated as a forwarder to this file.
#pragma once
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

#ifndef SOFA_VERSION
#define SOFA_VERSION 211200
#endif
using SReal = double;
#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
#define SOFA_UNUSED(x) (void)(x)

namespace minisofa {
[[noreturn]] inline void die(const char *what) { fprintf(stderr, "minisofa: %s\n", what); fflush(stderr); abort(); }
}

namespace sofa {
using Index = unsigned int;
using Size = unsigned int;
using SignedIndex = int;
static constexpr Index InvalidID = static_cast<Index>(-1);

namespace type {
template <class T, std::size_t N>
class fixed_array {
public:
    using value_type = T;
    using size_type = std::size_t;
    using iterator = T *;
    using const_iterator = const T *;
    using reference = T &;
    using const_reference = const T &;
    static constexpr std::size_t static_size = N;
    static constexpr std::size_t size() { return N; }
    fixed_array() : elems{} {}
    template <class... A, class = std::enable_if_t<sizeof...(A) == N && (N > 1)>>
    fixed_array(A... a) : elems{static_cast<T>(a)...} {}
    T &operator[](std::size_t i) { if (i >= N) minisofa::die("fixed_array index out of range"); return elems[i]; }
    const T &operator[](std::size_t i) const { if (i >= N) minisofa::die("fixed_array index out of range"); return elems[i]; }
    T &at(std::size_t i) { return (*this)[i]; }
    const T &at(std::size_t i) const { return (*this)[i]; }
    T *data() { return elems; }
    const T *data() const { return elems; }
    T *begin() { return elems; }
    T *end() { return elems + N; }
    const T *begin() const { return elems; }
    const T *end() const { return elems + N; }
    const T *cbegin() const { return elems; }
    const T *cend() const { return elems + N; }
    T &front() { return elems[0]; }
    T &back() { return elems[N - 1]; }
    void assign(const T &v) { for (auto &e : elems) e = v; }
    bool operator==(const fixed_array &o) const { return std::equal(begin(), end(), o.begin()); }
    bool operator!=(const fixed_array &o) const { return !(*this == o); }
    bool operator<(const fixed_array &o) const { return std::lexicographical_compare(begin(), end(), o.begin(), o.end()); }
    T elems[N];
};
template <class T, std::size_t N> std::ostream &operator<<(std::ostream &s, const fixed_array<T, N> &a) { for (auto &e : a) s << e << ' '; return s; }

struct NoInit {};
static constexpr NoInit NOINIT{};

template <Size N, class T = float>
class Vec {
public:
    using value_type = T;
    using Real = T;
    using Size = sofa::Size;
    static constexpr Size static_size = N;
    static constexpr Size total_size = N;
    static constexpr Size spatial_dimensions = N;
    static constexpr Size size() { return N; }
    Vec() : elems{} {}
    explicit Vec(NoInit) {}
    template <class A, class B, class... R, class = std::enable_if_t<sizeof...(R) + 2 == N && std::is_arithmetic_v<std::decay_t<A>> && std::is_arithmetic_v<std::decay_t<B>>>>
    Vec(A a, B b, R... r) : elems{static_cast<T>(a), static_cast<T>(b), static_cast<T>(r)...} {}
    template <Size M = N, class = std::enable_if_t<M == 1>> Vec(T a) : elems{a} {}
    template <Size M = N, class = std::enable_if_t<M != 1>, class = void> explicit Vec(T a) { fill(a); }
    template <class U> explicit Vec(const U *p) { for (Size i = 0; i < N; ++i) elems[i] = static_cast<T>(p[i]); }
    template <class U, class = std::enable_if_t<!std::is_same_v<U, T>>> Vec(const Vec<N, U> &o) { for (Size i = 0; i < N; ++i) elems[i] = static_cast<T>(o[i]); }
    T &operator[](std::size_t i) { if (i >= N) minisofa::die("Vec index out of range"); return elems[i]; }
    const T &operator[](std::size_t i) const { if (i >= N) minisofa::die("Vec index out of range"); return elems[i]; }
    T &operator()(std::size_t i) { return (*this)[i]; }
    const T &operator()(std::size_t i) const { return (*this)[i]; }
    T *ptr() { return elems; }
    const T *ptr() const { return elems; }
    T *data() { return elems; }
    const T *data() const { return elems; }
    const T *array() const { return elems; }
    T *array() { return elems; }
    T &x() { return (*this)[0]; }
    T &y() { return (*this)[1]; }
    T &z() { return (*this)[2]; }
    const T &x() const { return (*this)[0]; }
    const T &y() const { return (*this)[1]; }
    const T &z() const { return (*this)[2]; }
    T *begin() { return elems; }
    T *end() { return elems + N; }
    const T *begin() const { return elems; }
    const T *end() const { return elems + N; }
    void fill(T v) { for (auto &e : elems) e = v; }
    void assign(T v) { fill(v); }
    void clear() { fill(T()); }
    void set(const Vec &v) { *this = v; }
    template <class A, class B, class... R> void set(A a, B b, R... r) { *this = Vec(a, b, r...); }
    Vec operator+(const Vec &o) const { Vec r(*this); return r += o; }
    Vec operator-(const Vec &o) const { Vec r(*this); return r -= o; }
    Vec operator-() const { Vec r; for (Size i = 0; i < N; ++i) r.elems[i] = -elems[i]; return r; }
    Vec &operator+=(const Vec &o) { for (Size i = 0; i < N; ++i) elems[i] += o.elems[i]; return *this; }
    Vec &operator-=(const Vec &o) { for (Size i = 0; i < N; ++i) elems[i] -= o.elems[i]; return *this; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Vec operator*(U f) const { Vec r; for (Size i = 0; i < N; ++i) r.elems[i] = static_cast<T>(elems[i] * f); return r; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Vec operator/(U f) const { Vec r; for (Size i = 0; i < N; ++i) r.elems[i] = static_cast<T>(elems[i] / f); return r; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Vec &operator*=(U f) { for (auto &e : elems) e = static_cast<T>(e * f); return *this; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Vec &operator/=(U f) { for (auto &e : elems) e = static_cast<T>(e / f); return *this; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> friend Vec operator*(U f, const Vec &v) { return v * f; }
    T operator*(const Vec &o) const { T s = 0; for (Size i = 0; i < N; ++i) s += elems[i] * o.elems[i]; return s; }
    T norm2() const { T s = 0; for (auto e : elems) s += e * e; return s; }
    T norm() const { return std::sqrt(norm2()); }
    bool normalize() { auto n = norm(); if (n > 1e-10) { *this /= n; return true; } return false; }
    Vec normalized() const { Vec r(*this); r.normalize(); return r; }
    template <Size M = N, class = std::enable_if_t<M == 3>> Vec cross(const Vec &b) const { return Vec(elems[1] * b.elems[2] - elems[2] * b.elems[1], elems[2] * b.elems[0] - elems[0] * b.elems[2], elems[0] * b.elems[1] - elems[1] * b.elems[0]); }
    bool operator==(const Vec &o) const { return std::equal(begin(), end(), o.begin()); }
    bool operator!=(const Vec &o) const { return !(*this == o); }
    T elems[N];
};
template <Size N, class T> std::ostream &operator<<(std::ostream &s, const Vec<N, T> &v) { for (auto e : v) s << e << ' '; return s; }
template <Size N, class T> T dot(const Vec<N, T> &a, const Vec<N, T> &b) { return a * b; }
template <class T> Vec<3, T> cross(const Vec<3, T> &a, const Vec<3, T> &b) { return a.cross(b); }
using Vec1d = Vec<1, double>; using Vec2d = Vec<2, double>; using Vec3d = Vec<3, double>; using Vec4d = Vec<4, double>;
using Vec1f = Vec<1, float>; using Vec2f = Vec<2, float>; using Vec3f = Vec<3, float>;
using Vector1 = Vec1d; using Vector2 = Vec2d; using Vector3 = Vec3d; using Vector4 = Vec4d;
using Vec1 = Vec1d; using Vec2 = Vec2d; using Vec3 = Vec3d; using Vec4 = Vec4d;

template <Size L, Size C, class T = float>
class Mat {
public:
    using Line = Vec<C, T>;
    using Real = T;
    using value_type = T;
    static constexpr Size nbLines = L, nbCols = C;
    Mat() {}
    explicit Mat(NoInit) {}
    template <class... A, class = std::enable_if_t<sizeof...(A) == L && (L > 1) && std::conjunction_v<std::is_convertible<A, Line>...>>> Mat(A... a) : rows{Line(a)...} {}
    Line &operator[](std::size_t i) { if (i >= L) minisofa::die("Mat row out of range"); return rows[i]; }
    const Line &operator[](std::size_t i) const { if (i >= L) minisofa::die("Mat row out of range"); return rows[i]; }
    T &operator()(std::size_t i, std::size_t j) { return (*this)[i][j]; }
    const T &operator()(std::size_t i, std::size_t j) const { return (*this)[i][j]; }
    T *ptr() { return rows[0].ptr(); }
    const T *ptr() const { return rows[0].ptr(); }
    T *data() { return ptr(); }
    const T *data() const { return ptr(); }
    void clear() { for (auto &r : rows) r.clear(); }
    void identity() { clear(); for (Size i = 0; i < L && i < C; ++i) rows[i][i] = 1; }
    static Mat Identity() { Mat m; m.identity(); return m; }
    Mat<C, L, T> transposed() const { Mat<C, L, T> r; for (Size i = 0; i < L; ++i) for (Size j = 0; j < C; ++j) r[j][i] = rows[i][j]; return r; }
    Mat &operator+=(const Mat &o) { for (Size i = 0; i < L; ++i) rows[i] += o.rows[i]; return *this; }
    Mat &operator-=(const Mat &o) { for (Size i = 0; i < L; ++i) rows[i] -= o.rows[i]; return *this; }
    Mat operator+(const Mat &o) const { Mat r(*this); return r += o; }
    Mat operator-(const Mat &o) const { Mat r(*this); return r -= o; }
    Mat operator-() const { Mat r; for (Size i = 0; i < L; ++i) r.rows[i] = -rows[i]; return r; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Mat operator*(U f) const { Mat r(*this); for (auto &l : r.rows) l *= f; return r; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Mat operator/(U f) const { Mat r(*this); for (auto &l : r.rows) l /= f; return r; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> friend Mat operator*(U f, const Mat &m) { return m * f; }
    template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> Mat &operator*=(U f) { for (auto &l : rows) l *= f; return *this; }
    Vec<L, T> operator*(const Vec<C, T> &v) const { Vec<L, T> r; for (Size i = 0; i < L; ++i) r[i] = rows[i] * v; return r; }
    template <Size P> Mat<L, P, T> operator*(const Mat<C, P, T> &m) const { Mat<L, P, T> r; for (Size i = 0; i < L; ++i) for (Size j = 0; j < P; ++j) for (Size k = 0; k < C; ++k) r[i][j] += rows[i][k] * m[k][j]; return r; }
    Line rows[L];
};
using Mat2x2d = Mat<2, 2, double>; using Mat2x2f = Mat<2, 2, float>; using Mat3x3d = Mat<3, 3, double>; using Mat3x3f = Mat<3, 3, float>;
using Mat2x2 = Mat2x2d; using Mat3x3 = Mat3x3d; using Matrix2 = Mat2x2d; using Matrix3 = Mat3x3d;

template <class T>
class vector : public std::vector<T> {
public:
    using std::vector<T>::vector;
    using B = std::vector<T>;
    vector() = default;
    vector(const std::vector<T> &o) : B(o) {}
    decltype(auto) operator[](std::size_t i) { if (i >= this->size()) minisofa::die("vector index out of range"); return B::operator[](i); }
    decltype(auto) operator[](std::size_t i) const { if (i >= this->size()) minisofa::die("vector index out of range"); return B::operator[](i); }
};
template <class T> std::ostream &operator<<(std::ostream &s, const vector<T> &v) { for (auto &e : v) s << e << ' '; return s; }

struct RGBAColor {
    float r = 0, g = 0, b = 0, a = 1;
    RGBAColor() = default;
    RGBAColor(float r_, float g_, float b_, float a_) : r(r_), g(g_), b(b_), a(a_) {}
    static RGBAColor black() { return {0, 0, 0, 1}; }
    static RGBAColor red() { return {1, 0, 0, 1}; }
    static RGBAColor green() { return {0, 1, 0, 1}; }
    static RGBAColor blue() { return {0, 0, 1, 1}; }
    static RGBAColor white() { return {1, 1, 1, 1}; }
    static RGBAColor gray() { return {.5f, .5f, .5f, 1}; }
    static RGBAColor yellow() { return {1, 1, 0, 1}; }
};
class BoundingBox {
public:
    Vec3d lo{1e300, 1e300, 1e300}, hi{-1e300, -1e300, -1e300};
    BoundingBox() = default;
    template <class R> BoundingBox(const R *a, const R *b) { for (int i = 0; i < 3; ++i) { lo[i] = a[i]; hi[i] = b[i]; } }
    const Vec3d &minBBox() const { return lo; }
    const Vec3d &maxBBox() const { return hi; }
};
template <class R> class TBoundingBox : public BoundingBox {
public:
    TBoundingBox() = default;
    TBoundingBox(const R *a, const R *b) : BoundingBox(a, b) {}
};
} // namespace type

namespace helper {
template <class T> using vector = type::vector<T>;
template <class T, std::size_t N> using fixed_array = type::fixed_array<T, N>;
class OptionsGroup {
public:
    OptionsGroup() = default;
    explicit OptionsGroup(const std::vector<std::string> &v) : items(v) {}
    OptionsGroup(int n, ...) { (void)n; }
    void setSelectedItem(unsigned i) { sel = i; }
    void setSelectedItem(const std::string &s) { for (unsigned i = 0; i < items.size(); ++i) if (items[i] == s) sel = i; }
    unsigned getSelectedId() const { return sel; }
    const std::string &getSelectedItem() const { return items.at(sel); }
    std::size_t size() const { return items.size(); }
    const std::string &operator[](unsigned i) const { return items.at(i); }
    std::vector<std::string> items;
    unsigned sel = 0;
};
inline std::ostream &operator<<(std::ostream &s, const OptionsGroup &o) { return o.items.empty() ? s : s << o.getSelectedItem(); }
struct AdvancedTimer {
    template <class... A> static void stepBegin(const A &...) {}
    template <class... A> static void stepEnd(const A &...) {}
    template <class... A> static void stepNext(const A &...) {}
    template <class... A> static void step(const A &...) {}
    template <class... A> static void valSet(const A &...) {}
    template <class... A> static void valAdd(const A &...) {}
};
struct ScopedAdvancedTimer { template <class... A> explicit ScopedAdvancedTimer(const A &...) {} ~ScopedAdvancedTimer() {} };
namespace types { using RGBAColor = type::RGBAColor; }
} // namespace helper

namespace core {
class BaseMapping; class BaseState; class ExecParams;
namespace visual { class VisualParams; }
namespace objectmodel {
class Base;
class BaseObject;
class BaseContext;
class BaseData {
public:
    BaseData(std::string n = "", std::string h = "") : name(std::move(n)), help(std::move(h)) {}
    virtual ~BaseData() { if (parent) parent->children.erase(this); for (auto *c : children) c->parent = nullptr; }
    BaseData(const BaseData &) = delete;
    const std::string &getName() const { return name; }
    const std::string &getHelp() const { return help; }
    std::string getLinkPath() const { return "@" + name; }
    bool isSet() const { return set_; }
    void unset() { set_ = false; }
    void setDirtyValue() {}
    bool setParent(BaseData *p, const std::string & = "") {
        if (parent) parent->children.erase(this);
        parent = p;
        if (p) { if (!copyFrom(p)) minisofa::die("setParent: incompatible data"); p->children.insert(this); set_ = true; }
        return true;
    }
    BaseData *getParent() const { return parent; }
    virtual bool copyFrom(const BaseData *) = 0;
    Base *owner = nullptr;
protected:
    void notify() { for (auto *c : children) { c->copyFrom(this); c->notify(); } }
    std::string name, help;
    bool set_ = false;
    BaseData *parent = nullptr;
    std::set<BaseData *> children;
    friend class Base;
};
template <class T> struct InitData { T value{}; std::string name, help; Base *owner = nullptr; };
template <class T> class Data : public BaseData {
public:
    using value_type = T;
    Data() = default;
    explicit Data(const T &v) : value(v) {}
    Data(InitData<T> i);
    const T &getValue() const { return value; }
    void setValue(const T &v) { value = v; set_ = true; notify(); }
    T *beginEdit() { set_ = true; return &value; }
    T *beginWriteOnly() { set_ = true; return &value; }
    void endEdit() { notify(); }
    Data &operator=(const T &v) { setValue(v); return *this; }
    bool copyFrom(const BaseData *p) override {
        if (auto *o = dynamic_cast<const Data<T> *>(p)) { value = o->value; return true; }
        return convert(p);
    }
private:
    template <class V> static auto sized(const V &v) -> decltype(v.size()) { return v.size(); }
    bool convert(const BaseData *) { return false; }
    T value{};
};
template <class T> std::ostream &operator<<(std::ostream &s, const Data<T> &d) { return s << d.getValue(); }

class BaseLink {
public:
    virtual bool assign(class Base *) { return false; } // set a link by its name
    enum { FLAG_NONE = 0, FLAG_MULTILINK = 1, FLAG_STRONGLINK = 2, FLAG_DOUBLELINK = 4, FLAG_DUPLICATE = 8, FLAG_STOREPATH = 16 };
    virtual ~BaseLink() = default;
    const std::string &getName() const { return name; }
    std::string getPath() const { return "@" + name; }
    std::string name, help;
};
struct InitLink { std::string name, help; Base *owner = nullptr; };

class Base {
public:
    using SPtr = Base *;
    virtual ~Base() = default;
    Base() = default;
    Base(const Base &) = delete;
    const std::string &getName() const { return name_; }
    void setName(const std::string &n) { name_ = n; }
    virtual std::string getPathName() const { return "/" + name_; }
    BaseData *findData(const std::string &n) const { auto i = datas.find(n); return i == datas.end() ? nullptr : i->second; }
    BaseLink *findLink(const std::string &n) const { auto i = links.find(n); return i == links.end() ? nullptr : i->second; }
    void addAlias(BaseData *d, const char *n) { datas[n] = d; }
    struct ClassInfo { std::string typeName, className, templateName; };
    void ref() { refs.fetch_add(1, std::memory_order_relaxed); }
    void unref() { if (refs.fetch_sub(1, std::memory_order_relaxed) == 1) delete this; }
    std::map<std::string, BaseData *> datas;
    std::map<std::string, BaseLink *> links;
    template <class T> InitData<T> initData(Data<T> *, const char *n, const char *h, bool = true, bool = false) { InitData<T> i; i.name = n; i.help = h; i.owner = this; return i; }
    template <class T, class V> InitData<T> initData(Data<T> *, const V &v, const char *n, const char *h, bool = true, bool = false) { InitData<T> i; i.value = T(v); i.name = n; i.help = h; i.owner = this; return i; }
    InitLink initLink(const char *n, const char *h) { return {n, h, this}; }
    virtual std::string getTemplateName() const { return ""; }
    virtual std::string getClassName() const { return typeid(*this).name(); }
    std::atomic<int> refs{0};
private:
    std::string name_ = "obj";
};
template <class T> Data<T>::Data(InitData<T> i) : BaseData(i.name, i.help), value(i.value) { owner = i.owner; if (owner) owner->datas[name] = this; }

// intrusive pointer
template <class T> class SPtr_ {
public:
    using element_type = T;
    SPtr_(T *p = nullptr) : p(p) { if (p) p->ref(); }
    SPtr_(std::nullptr_t) {}
    SPtr_(const SPtr_ &o) : p(o.p) { if (p) p->ref(); }
    template <class U, class = std::enable_if_t<std::is_convertible_v<U *, T *>>> SPtr_(const SPtr_<U> &o) : p(o.get()) { if (p) p->ref(); }
    ~SPtr_() { if (p) p->unref(); }
    SPtr_ &operator=(SPtr_ o) { std::swap(p, o.p); return *this; }
    T *operator->() const { if (!p) minisofa::die("null SPtr"); return p; }
    T &operator*() const { return *p; }
    T *get() const { return p; }
    void reset(T *q = nullptr) { *this = SPtr_(q); }
    explicit operator bool() const { return p; }
    bool operator!() const { return !p; }
    friend bool operator==(const SPtr_ &a, const SPtr_ &b) { return a.p == b.p; }
    friend bool operator==(const SPtr_ &a, const T *b) { return a.p == b; }
    friend bool operator!=(const SPtr_ &a, const T *b) { return a.p != b; }
private:
    T *p = nullptr;
};
template <class T> struct NewProxy { template <class... A> SPtr_<T> operator()(A &&... a) const { return SPtr_<T>(new T(std::forward<A>(a)...)); } };
template <class T, class... A> SPtr_<T> New(A &&... a) { return SPtr_<T>(new T(std::forward<A>(a)...)); }

template <class TOwner, class TDest, unsigned TFlags> class SingleLink : public BaseLink {
public:
    SingleLink() = default;
    SingleLink(InitLink i) { name = i.name; help = i.help; if (i.owner) i.owner->links[name] = this; }
    TDest *get() const { return p.get(); }
    void set(TDest *t) { p = SPtr_<TDest>(t); }
    bool assign(Base *b) override { auto *t = dynamic_cast<TDest *>(b); if (t) set(t); return t; }
    void set(const SPtr_<TDest> &t) { p = t; }
    void reset() { p = SPtr_<TDest>(); }
    bool empty() const { return !p; }
    std::size_t size() const { return p ? 1 : 0; }
    TDest *operator->() const { if (!p) minisofa::die("null link"); return p.get(); }
    TDest &operator*() const { return *p; }
    operator TDest *() const { return p.get(); }
    bool operator!() const { return !p; }
    explicit operator bool() const { return bool(p); }
private:
    SPtr_<TDest> p;
};

class Event { public: virtual ~Event() = default; };

class BaseObjectDescription {
public:
    std::map<std::string, std::string> attr;
    std::vector<std::string> errors;
    const char *getAttribute(const std::string &n, const char *def = nullptr) { auto i = attr.find(n); return i == attr.end() ? def : i->second.c_str(); }
    void setAttribute(const std::string &n, const std::string &v) { attr[n] = v; }
    void logError(const std::string &e) { errors.push_back(e); }
    const std::string &getName() const { static std::string s; return s; }
};

class BaseContext : public virtual Base {
public:
    enum SearchDirection { SearchUp = -1, Local = 0, SearchDown = 1, SearchRoot = 2, SearchParents = 3 };
    virtual ~BaseContext() = default;
    std::vector<SPtr_<Base>> objects;
    template <class T> std::vector<T *> getObjects(SearchDirection = Local) const {
        std::vector<T *> r;
        for (auto &o : objects) if (auto *t = dynamic_cast<T *>(o.get())) r.push_back(t);
        return r;
    }
    virtual BaseContext *parentContext() const { return nullptr; }
    virtual std::vector<BaseContext *> childContexts() const { return {}; }
    struct TagSet {};
    TagSet getTags() const { return {}; }
    template <class T> T *get(const TagSet &, SearchDirection d) const { return get<T>(d); }
    template <class T> T *get(SearchDirection d = SearchUp) const {
        if (d == SearchDown) {
            for (auto &o : objects) if (auto *t = dynamic_cast<T *>(o.get())) return t;
            for (auto *c : childContexts()) if (auto *t = c->get<T>(SearchDown)) return t;
            return nullptr;
        }
        for (auto *c = this; c; c = c->parentContext()) {
            for (auto &o : c->objects) if (auto *t = dynamic_cast<T *>(o.get())) return t;
            if (d == Local) break;
        }
        return nullptr;
    }
    template <class T> T *get(const std::string &path, SearchDirection d = SearchUp) const {
        std::string n = path.substr(path.find_last_of('/') == std::string::npos ? 0 : path.find_last_of('/') + 1);
        for (auto *c = this; c; c = c->parentContext()) {
            for (auto &o : c->objects) if (o->getName() == n) return dynamic_cast<T *>(o.get());
            if (d == Local) break;
        }
        return nullptr;
    }
    virtual BaseContext *getRootContext() const { auto *c = const_cast<BaseContext *>(this); while (c->parentContext()) c = c->parentContext(); return c; }
    virtual BaseContext *getContext() { return this; }
    virtual const BaseContext *getContext() const { return this; }
    core::BaseState *getMechanicalState() const;
    core::BaseState *getState() const { return getMechanicalState(); }
    SReal getDt() const { return dt; }
    SReal getTime() const { return time; }
    SReal dt = 0.01, time = 0;
};
using BaseNode = BaseContext;

class BaseObject : public virtual Base {
public:
    BaseObject() : f_bbox(initData(&f_bbox, "bbox", "")), f_listening(initData(&f_listening, false, "listening", "")), f_printLog(initData(&f_printLog, false, "printLog", "")) {}
    virtual void init() {}
    virtual void bwdInit() {}
    virtual void reinit() {}
    virtual void reset() {}
    virtual void cleanup() {}
    virtual void handleEvent(Event *) {}
    BaseContext *getContext() const { return ctx; }
    void setContext(BaseContext *c) { ctx = c; }
    template <class T> static bool canCreate(T *, BaseContext *, BaseObjectDescription *) { return true; }
    Data<type::BoundingBox> f_bbox;
    Data<bool> f_listening, f_printLog;
    BaseContext *ctx = nullptr;
    virtual void draw(const visual::VisualParams *) {}
    virtual void drawVisual(const visual::VisualParams *) {}
    virtual void computeBBox(const ExecParams *, bool = false) {}
};
} // namespace objectmodel
template <class T> using sptr = objectmodel::SPtr_<T>;
using objectmodel::BaseData;
using objectmodel::Data;
using objectmodel::SingleLink;
} // namespace core

namespace helper {
template <class T> class ReadAccessor;
template <class T> class WriteAccessor;
template <class T> class WriteOnlyAccessor;
template <class T> class ReadAccessor<core::objectmodel::Data<T>> {
public:
    using container_type = T;
    ReadAccessor(const core::objectmodel::Data<T> &d) : d(&d) {}
    ReadAccessor(const core::objectmodel::Data<T> *p) : d(p) { if (!p) minisofa::die("ReadAccessor on a null Data"); }
    const T &ref() const { return d->getValue(); }
    const T &wref() const { return d->getValue(); }
    operator const T &() const { return d->getValue(); }
    const T *operator->() const { return &d->getValue(); }
    const T &operator*() const { return d->getValue(); }
    auto size() const { return ref().size(); }
    bool empty() const { return ref().empty(); }
    decltype(auto) operator[](std::size_t i) const { return (ref()[i]); }
    auto begin() const { return ref().begin(); }
    auto end() const { return ref().end(); }
private:
    const core::objectmodel::Data<T> *d;
};
template <class T> class WriteAccessor<core::objectmodel::Data<T>> {
public:
    WriteAccessor(core::objectmodel::Data<T> &d) : d(&d), v(d.beginEdit()) {}
    WriteAccessor(core::objectmodel::Data<T> *p) : d(p), v(p ? p->beginEdit() : nullptr) { if (!p) minisofa::die("WriteAccessor on a null Data"); }
    WriteAccessor(const WriteAccessor &o) : d(o.d), v(d->beginEdit()) {}
    ~WriteAccessor() { d->endEdit(); }
    T &ref() { return *v; }
    const T &ref() const { return *v; }
    T &wref() { return *v; }
    operator const T &() const { return *v; }
    T *operator->() { return v; }
    T &operator*() { return *v; }
    auto size() const { return v->size(); }
    bool empty() const { return v->empty(); }
    void resize(std::size_t n) { v->resize(n); }
    template <class U> void resize(std::size_t n, const U &u) { v->resize(n, u); }
    void reserve(std::size_t n) { v->reserve(n); }
    void clear() { v->clear(); }
    template <class U> void push_back(const U &u) { v->push_back(u); }
    template <class... U> void emplace_back(U &&... u) { v->emplace_back(std::forward<U>(u)...); }
    decltype(auto) operator[](std::size_t i) { return ((*v)[i]); }
    decltype(auto) operator[](std::size_t i) const { return ((*const_cast<const T *>(v))[i]); }
    auto begin() { return v->begin(); }
    auto end() { return v->end(); }
    template <class U> WriteAccessor &operator=(const U &u) { *v = u; return *this; }
    template <class U> WriteAccessor &operator+=(const U &u) { *v += u; return *this; }
    template <class U> WriteAccessor &operator-=(const U &u) { *v -= u; return *this; }
protected:
    core::objectmodel::Data<T> *d;
    T *v;
};
template <class T> class WriteOnlyAccessor<core::objectmodel::Data<T>> : public WriteAccessor<core::objectmodel::Data<T>> {
public:
    using WriteAccessor<core::objectmodel::Data<T>>::WriteAccessor;
};
template <class T> auto getReadAccessor(const core::objectmodel::Data<T> &d) { return ReadAccessor<core::objectmodel::Data<T>>(d); }
template <class T> auto getWriteAccessor(core::objectmodel::Data<T> &d) { return WriteAccessor<core::objectmodel::Data<T>>(d); }
template <class T> auto getWriteOnlyAccessor(core::objectmodel::Data<T> &d) { return WriteOnlyAccessor<core::objectmodel::Data<T>>(d); }
} // namespace helper

// messages
namespace helper::logging {
struct Log { static unsigned &errors() { static unsigned n = 0; return n; } static unsigned &warnings() { static unsigned n = 0; return n; } };
struct Msg { std::ostringstream s; template <class T> Msg &operator<<(const T &t) { s << t; return *this; } Msg &operator<<(std::ostream &(*f)(std::ostream &)) { s << f; return *this; } };
struct Message { enum Class { Runtime, Dev, Log }; enum Type { Info, Advice, Warning, Error, Fatal }; };
struct ComponentInfo { using SPtr = std::shared_ptr<ComponentInfo>; explicit ComponentInfo(const std::string & = "") {} };
struct MessageDispatcher { template <class... A> static Msg info(const A &...) { return {}; } template <class... A> static Msg warning(const A &...) { return {}; } template <class... A> static Msg error(const A &...) { return {}; } };
} // namespace helper::logging
#define SOFA_FILE_INFO 0
#define msg_info(...) ::sofa::helper::logging::Msg()
#define msg_advice(...) ::sofa::helper::logging::Msg()
#define msg_deprecated(...) ::sofa::helper::logging::Msg()
#define msg_warning(...) (++::sofa::helper::logging::Log::warnings(), ::sofa::helper::logging::Msg())
#define msg_error(...) (++::sofa::helper::logging::Log::errors(), ::sofa::helper::logging::Msg())
#define msg_info_when(c, ...) if (c) msg_info()
#define msg_warning_when(c, ...) if (c) msg_warning()
#define msg_error_when(c, ...) if (c) msg_error()
#define dmsg_info(...) ::sofa::helper::logging::Msg()
#define dmsg_warning(...) ::sofa::helper::logging::Msg()
#define dmsg_error(...) ::sofa::helper::logging::Msg()

#define SOFA_TEMPLATE(C, P1) C<P1>
#define SOFA_TEMPLATE2(C, P1, P2) C<P1, P2>
#define SOFA_TEMPLATE3(C, P1, P2, P3) C<P1, P2, P3>
#define SOFA_CLASS(T, ...) \
public: \
    typedef T MyType; typedef __VA_ARGS__ Inherit1; using SPtr = ::sofa::core::objectmodel::SPtr_<MyType>; \
    static const ::sofa::core::objectmodel::Base::ClassInfo *GetClass() { static ::sofa::core::objectmodel::Base::ClassInfo c{"class", "class", ""}; return &c; } \
    template <class... A_> auto initData(A_ &&... a) { return static_cast<::sofa::core::objectmodel::Base *>(this)->initData(std::forward<A_>(a)...); } \
    template <class... A_> auto initLink(A_ &&... a) { return static_cast<::sofa::core::objectmodel::Base *>(this)->initLink(std::forward<A_>(a)...); }
#define SOFA_ABSTRACT_CLASS(T, ...) SOFA_CLASS(T, __VA_ARGS__)
#define SOFA_DECL_CLASS(x)

// linear algebra
namespace linearalgebra {
class BaseMatrix {
public:
    using Index = SignedIndex;
    using Real = SReal;
    virtual ~BaseMatrix() = default;
    virtual Index rowSize() const = 0;
    virtual Index colSize() const = 0;
    Index rows() const { return rowSize(); }
    Index cols() const { return colSize(); }
    virtual SReal element(Index i, Index j) const = 0;
    virtual void resize(Index nbRow, Index nbCol) = 0;
    virtual void clear() = 0;
    virtual void set(Index i, Index j, double v) = 0;
    virtual void add(Index i, Index j, double v) = 0;
    template <class M> void addm(Index r, Index c, const M &m, int L, int C) { for (int i = 0; i < L; ++i) for (int j = 0; j < C; ++j) add(r + i, c + j, static_cast<double>(m[i][j])); }
    virtual void add(Index r, Index c, const type::Mat3x3d &m) { addm(r, c, m, 3, 3); }
    virtual void add(Index r, Index c, const type::Mat3x3f &m) { addm(r, c, m, 3, 3); }
    virtual void add(Index r, Index c, const type::Mat2x2d &m) { addm(r, c, m, 2, 2); }
    virtual void add(Index r, Index c, const type::Mat2x2f &m) { addm(r, c, m, 2, 2); }
    virtual void clear(Index i, Index j) { set(i, j, 0.0); }
    virtual void clearRow(Index i) { for (Index j = 0; j < colSize(); ++j) clear(i, j); }
    virtual void clearRows(Index a, Index b) { for (Index i = a; i < b; ++i) clearRow(i); }
    virtual void clearCol(Index j) { for (Index i = 0; i < rowSize(); ++i) clear(i, j); }
    virtual void clearCols(Index a, Index b) { for (Index i = a; i < b; ++i) clearCol(i); }
    virtual void clearRowCol(Index i) { clearRow(i); clearCol(i); }
    virtual void clearRowsCols(Index a, Index b) { for (Index i = a; i < b; ++i) clearRowCol(i); }
    virtual void compress() {}
};
class BaseVector {
public:
    using Index = SignedIndex;
    using Real = SReal;
    enum ElementType { ELEMENT_UNKNOWN = 0, ELEMENT_FLOAT, ELEMENT_INT };
    virtual ~BaseVector() = default;
    virtual Index size() const = 0;
    virtual SReal element(Index i) const = 0;
    virtual void resize(Index dim) = 0;
    virtual void clear() = 0;
    virtual void set(Index i, SReal v) = 0;
    virtual void add(Index i, SReal v) = 0;
    virtual ElementType getElementType() const { return ELEMENT_FLOAT; }
    virtual std::size_t getElementSize() const { return sizeof(SReal); }
};
template <class T> class FullVector : public BaseVector {
public:
    using Real = T;
    FullVector() = default;
    explicit FullVector(Index n) : v(n) {}
    FullVector(T *p, Index n) : v(p, p + n) {}
    Index size() const override { return Index(v.size()); }
    SReal element(Index i) const override { return v[i]; }
    void resize(Index n) override { v.assign(n, T()); }
    void clear() override { for (auto &e : v) e = T(); }
    void set(Index i, SReal x) override { v[i] = T(x); }
    void add(Index i, SReal x) override { v[i] += T(x); }
    T &operator[](Index i) { return v[i]; }
    const T &operator[](Index i) const { return v[i]; }
    T *ptr() { return v.data(); }
    const T *ptr() const { return v.data(); }
    SReal dot(const FullVector &o) const { SReal r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += SReal(v[i]) * o.v[i]; return r; }
    double norm() const { return std::sqrt(dot(*this)); }
private:
    type::vector<T> v;
};
} // namespace linearalgebra
namespace component::linearsolver { template <class T> using FullVector = linearalgebra::FullVector<T>; }

namespace defaulttype {
using linearalgebra::BaseMatrix;
using linearalgebra::BaseVector;
template <Size N, class T> using Vec = type::Vec<N, T>;
template <Size L, Size C, class T> using Mat = type::Mat<L, C, T>;
using Vec2d = type::Vec2d; using Vec3d = type::Vec3d; using Vec2f = type::Vec2f; using Vec3f = type::Vec3f;
using Vector2 = type::Vector2; using Vector3 = type::Vector3;
using Mat3x3d = type::Mat3x3d; using Mat3x3f = type::Mat3x3f; using Mat2x2d = type::Mat2x2d; using Mat2x2f = type::Mat2x2f; using Matrix3 = type::Mat3x3d;

// Map of map sparse matrix (constraint jacobians)
template <class T> class MapMapSparseMatrix {
public:
    using Line = std::map<unsigned, T>;
    std::map<unsigned, Line> m;
    class ColConstIterator {
    public:
        typename Line::const_iterator i;
        unsigned index() const { return i->first; }
        const T &val() const { return i->second; }
        ColConstIterator &operator++() { ++i; return *this; }
        bool operator==(const ColConstIterator &o) const { return i == o.i; }
        bool operator!=(const ColConstIterator &o) const { return i != o.i; }
    };
    class RowConstIterator {
    public:
        typename std::map<unsigned, Line>::const_iterator i;
        unsigned index() const { return i->first; }
        ColConstIterator begin() const { return {i->second.begin()}; }
        ColConstIterator end() const { return {i->second.end()}; }
        const Line &row() const { return i->second; }
        RowConstIterator &operator++() { ++i; return *this; }
        bool operator==(const RowConstIterator &o) const { return i == o.i; }
        bool operator!=(const RowConstIterator &o) const { return i != o.i; }
    };
    class RowWrite {
    public:
        Line *l;
        void addCol(unsigned c, const T &v) { (*l)[c] += v; }
        void setCol(unsigned c, const T &v) { (*l)[c] = v; }
    };
    RowConstIterator begin() const { return {m.begin()}; }
    RowConstIterator end() const { return {m.end()}; }
    RowWrite writeLine(unsigned r) { return {&m[r]}; }
    std::size_t size() const { return m.size(); }
    bool empty() const { return m.empty(); }
    void clear() { m.clear(); }
};
template <class C, class D, class R> struct StdVectorTypes {
    using Coord = C; using Deriv = D; using Real = R;
    using VecCoord = type::vector<C>; using VecDeriv = type::vector<D>; using VecReal = type::vector<R>;
    using MatrixDeriv = MapMapSparseMatrix<D>;
    using CPos = C; using DPos = D;
    static constexpr Size spatial_dimensions = C::spatial_dimensions;
    static constexpr Size coord_total_size = C::total_size;
    static constexpr Size deriv_total_size = D::total_size;
    static const char *Name() { return C::spatial_dimensions == 1 ? "Vec1d" : C::spatial_dimensions == 2 ? "Vec2d" : "Vec3d"; }
};
using Vec1dTypes = StdVectorTypes<type::Vec1d, type::Vec1d, double>;
using Vec2dTypes = StdVectorTypes<type::Vec2d, type::Vec2d, double>;
using Vec3dTypes = StdVectorTypes<type::Vec3d, type::Vec3d, double>;
using Vec1Types = Vec1dTypes; using Vec2Types = Vec2dTypes; using Vec3Types = Vec3dTypes;
template <class R> using TBoundingBox = type::TBoundingBox<R>;
} // namespace defaulttype

namespace core {
// vector identifiers
enum VecType { V_ALL = 0, V_COORD, V_DERIV, V_MATDERIV };
enum VecAccess { V_READ = 0, V_WRITE };
template <VecType t, VecAccess a> struct TVecId {
    unsigned index = 0;
    VecType type = t;
    constexpr TVecId() = default;
    constexpr explicit TVecId(unsigned i) : index(i) {}
    constexpr TVecId(unsigned i, VecType ty) : index(i), type(ty) {}
    template <VecAccess b, class = std::enable_if_t<(b >= a)>> constexpr TVecId(const TVecId<t, b> &o) : index(o.index), type(o.type) {}
    template <VecType u, VecAccess b, class = std::enable_if_t<(b >= a) && t == V_ALL && u != V_ALL>> constexpr TVecId(const TVecId<u, b> &o) : index(o.index), type(o.type) {}
    template <VecAccess b, VecType u = t, class = std::enable_if_t<(b >= a) && u != V_ALL>> constexpr explicit TVecId(const TVecId<V_ALL, b> &o) : index(o.index), type(t) {}
    static constexpr TVecId null() { return TVecId(0u); }
    static constexpr TVecId<V_COORD, a> position() { return TVecId<V_COORD, a>(1u); }
    static constexpr TVecId<V_COORD, a> restPosition() { return TVecId<V_COORD, a>(2u); }
    static constexpr TVecId<V_COORD, a> freePosition() { return TVecId<V_COORD, a>(3u); }
    static constexpr TVecId<V_COORD, a> resetPosition() { return TVecId<V_COORD, a>(4u); }
    static constexpr TVecId<V_DERIV, a> velocity() { return TVecId<V_DERIV, a>(1u); }
    static constexpr TVecId<V_DERIV, a> resetVelocity() { return TVecId<V_DERIV, a>(2u); }
    static constexpr TVecId<V_DERIV, a> force() { return TVecId<V_DERIV, a>(3u); }
    static constexpr TVecId<V_DERIV, a> dforce() { return TVecId<V_DERIV, a>(4u); }
    static constexpr TVecId<V_DERIV, a> dx() { return TVecId<V_DERIV, a>(5u); }
    static constexpr TVecId<V_DERIV, a> freeVelocity() { return TVecId<V_DERIV, a>(6u); }
    bool operator==(const TVecId &o) const { return index == o.index && type == o.type; }
    bool operator!=(const TVecId &o) const { return !(*this == o); }
    bool isNull() const { return index == 0; }
    unsigned getIndex() const { return index; }
    std::string getName() const { return (type == V_COORD ? "coord" : "deriv") + std::to_string(index); }
};
using VecId = TVecId<V_ALL, V_WRITE>; using ConstVecId = TVecId<V_ALL, V_READ>;
using VecCoordId = TVecId<V_COORD, V_WRITE>; using ConstVecCoordId = TVecId<V_COORD, V_READ>;
using VecDerivId = TVecId<V_DERIV, V_WRITE>; using ConstVecDerivId = TVecId<V_DERIV, V_READ>;
using VecMatrixDerivId = TVecId<V_MATDERIV, V_WRITE>;
template <VecType t, VecAccess a> struct TMultiVecId {
    TVecId<t, a> id;
    TMultiVecId() = default;
    template <class I, class = std::enable_if_t<std::is_convertible_v<I, TVecId<t, a>>>> TMultiVecId(const I &i) : id(i) {}
    template <VecType u, VecAccess b, class = std::enable_if_t<std::is_convertible_v<TVecId<u, b>, TVecId<t, a>> && !(u == t && b == a)>, class = void> TMultiVecId(const TMultiVecId<u, b> &i) : id(i.id) {}
    template <class S> TVecId<t, a> getId(const S &) const { return id; }
    const TVecId<t, a> &getDefaultId() const { return id; }
    void setDefaultId(const TVecId<t, a> &i) { id = i; }
    bool isNull() const { return id.isNull(); }
    std::string getName() const { return id.getName(); }
    bool operator==(const TMultiVecId &o) const { return id == o.id; }
    bool operator!=(const TMultiVecId &o) const { return !(id == o.id); }
};
using MultiVecId = TMultiVecId<V_ALL, V_WRITE>; using ConstMultiVecId = TMultiVecId<V_ALL, V_READ>;
using MultiVecCoordId = TMultiVecId<V_COORD, V_WRITE>; using ConstMultiVecCoordId = TMultiVecId<V_COORD, V_READ>;
using MultiVecDerivId = TMultiVecId<V_DERIV, V_WRITE>; using ConstMultiVecDerivId = TMultiVecId<V_DERIV, V_READ>;

class ExecParams { public: virtual ~ExecParams() = default; static const ExecParams *defaultInstance() { static ExecParams e; return &e; } };
class ConstraintParams : public ExecParams {
public:
    enum ConstOrder { POS = 0, VEL, ACC, POS_AND_VEL };
    ConstraintParams() = default;
    ConstraintParams(const ExecParams &p) : ExecParams(p) {}
    ConstOrder order = POS_AND_VEL;
    void setOrder(ConstOrder o) { order = o; }
    ConstOrder constOrder() const { return order; }
};
class MechanicalParams : public ExecParams {
public:
    MechanicalParams() = default;
    MechanicalParams(const ExecParams &p) : ExecParams(p) { if (auto *m = dynamic_cast<const MechanicalParams *>(&p)) *this = *m; }
    ConstMultiVecDerivId df_ = ConstVecDerivId::dforce();
    bool implicit_ = false;
    const ConstMultiVecDerivId &df() const { return df_; }
    void setDf(ConstMultiVecDerivId i) { df_ = i; }
    bool implicit() const { return implicit_; }
    void setImplicit(bool v) { implicit_ = v; }
    ConstMultiVecCoordId x_ = ConstVecCoordId::position();
    ConstMultiVecDerivId v_ = ConstVecDerivId::velocity(), f_ = ConstVecDerivId::force(), dx_ = ConstVecDerivId::dx();
    SReal m = 0, b = 0, k = 1, dt_ = 0.01;
    const ConstMultiVecCoordId &x() const { return x_; }
    const ConstMultiVecDerivId &v() const { return v_; }
    const ConstMultiVecDerivId &f() const { return f_; }
    const ConstMultiVecDerivId &dx() const { return dx_; }
    SReal dt() const { return dt_; }
    SReal mFactor() const { return m; }
    SReal bFactor() const { return b; }
    SReal kFactor() const { return k; }
    SReal kFactorIncludingRayleighDamping(SReal r) const { return k + b * r; }
    SReal mFactorIncludingRayleighDamping(SReal r) const { return m + b * r; }
    void setX(ConstMultiVecCoordId i) { x_ = i; }
    void setV(ConstMultiVecDerivId i) { v_ = i; }
    void setF(ConstMultiVecDerivId i) { f_ = i; }
    void setDx(ConstMultiVecDerivId i) { dx_ = i; }
    void setKFactor(SReal v) { k = v; }
    void setBFactor(SReal v) { b = v; }
    void setMFactor(SReal v) { m = v; }
    void setDt(SReal v) { dt_ = v; }
    static const MechanicalParams *defaultInstance() { static MechanicalParams e; return &e; }
};

namespace visual {
struct DisplayFlags {
    bool ff = false, wf = false, map = false, bm = true, vis = true;
    bool getShowForceFields() const { return ff; }
    bool getShowWireFrame() const { return wf; }
    bool getShowMappings() const { return map; }
    bool getShowBehaviorModels() const { return bm; }
    bool getShowVisualModels() const { return vis; }
};
class DrawTool {
public:
    std::vector<std::vector<type::Vector3>> triangles, lines, points;
    void saveLastState() {}
    void restoreLastState() {}
    void setPolygonMode(int, bool) {}
    void setLightingEnabled(bool) {}
    void disableLighting() {}
    void enableLighting() {}
    template <class... A> void drawTriangles(const std::vector<type::Vector3> &p, const A &...) { triangles.push_back(p); }
    template <class... A> void drawLines(const std::vector<type::Vector3> &p, const A &...) { lines.push_back(p); }
    template <class... A> void drawPoints(const std::vector<type::Vector3> &p, const A &...) { points.push_back(p); }
    template <class... A> void drawQuads(const std::vector<type::Vector3> &p, const A &...) {}
    template <class... A> void drawHexahedra(const std::vector<type::Vector3> &p, const A &...) {}
    template <class... A> void drawTetrahedra(const std::vector<type::Vector3> &p, const A &...) {}
    template <class... A> void drawArrow(const A &...) {}
    template <class... A> void drawFrame(const A &...) {}
};
class VisualParams : public ExecParams {
public:
    mutable DrawTool tool;
    DisplayFlags flags;
    const DisplayFlags &displayFlags() const { return flags; }
    DrawTool *drawTool() const { return &tool; }
};
} // namespace visual
} // namespace core
namespace helper::visual { using DrawTool = core::visual::DrawTool; }

namespace core {
using objectmodel::BaseContext;
using objectmodel::BaseObject;
class ComponentObject : public virtual objectmodel::BaseObject {};

class BaseState : public virtual BaseObject {
public:
    virtual Size getSize() const = 0;
    virtual void resize(Size) = 0;
};
template <class DT> class State : public virtual BaseState {
public:
    SOFA_CLASS(SOFA_TEMPLATE(State, DT), objectmodel::BaseObject);
    using DataTypes = DT;
    using VecCoord = typename DT::VecCoord; using VecDeriv = typename DT::VecDeriv;
    using Coord = typename DT::Coord; using Deriv = typename DT::Deriv; using Real = typename DT::Real;
    Data<VecCoord> x_, x0_, xfree_, xreset_;
    Data<VecDeriv> v_, f_, dx_, vfree_;
    State() : x_(this->initData(&x_, "position", "")), x0_(this->initData(&x0_, "rest_position", "")), xfree_(this->initData(&xfree_, "free_position", "")),
              xreset_(this->initData(&xreset_, "reset_position", "")),
              v_(this->initData(&v_, "velocity", "")), f_(this->initData(&f_, "force", "")), dx_(this->initData(&dx_, "derivX", "")), vfree_(this->initData(&vfree_, "free_velocity", "")) {}
    Size getSize() const override { return Size(x_.getValue().size()); }
    void resize(Size n) override { for (auto *d : {&x_, &xfree_}) { auto v = d->getValue(); v.resize(n); d->setValue(v); } for (auto *d : {&v_, &f_, &dx_, &vfree_}) { auto v = d->getValue(); v.resize(n); d->setValue(v); } }
    std::map<unsigned, std::unique_ptr<Data<VecCoord>>> moreCoord;
    std::map<unsigned, std::unique_ptr<Data<VecDeriv>>> moreDeriv;
    Data<VecCoord> *write(VecCoordId i) {
        switch (i.index) { case 1: return &x_; case 2: return &x0_; case 3: return &xfree_; case 4: return &xreset_; case 0: minisofa::die("null coord id"); }
        auto &p = moreCoord[i.index]; if (!p) p = std::make_unique<Data<VecCoord>>(); return p.get();
    }
    Data<VecDeriv> *write(VecDerivId i) {
        switch (i.index) { case 1: return &v_; case 3: return &f_; case 5: return &dx_; case 6: return &vfree_; case 0: minisofa::die("null deriv id"); }
        auto &p = moreDeriv[i.index]; if (!p) p = std::make_unique<Data<VecDeriv>>(); return p.get();
    }
    const Data<VecCoord> *read(ConstVecCoordId i) const { return const_cast<State *>(this)->write(VecCoordId(i.index)); }
    const Data<VecDeriv> *read(ConstVecDerivId i) const { return const_cast<State *>(this)->write(VecDerivId(i.index)); }
    helper::ReadAccessor<Data<VecCoord>> readPositions() const { return x_; }
    helper::ReadAccessor<Data<VecCoord>> readRestPositions() const { return x0_; }
    helper::ReadAccessor<Data<VecDeriv>> readVelocities() const { return v_; }
    helper::ReadAccessor<Data<VecDeriv>> readForces() const { return f_; }
    helper::WriteAccessor<Data<VecCoord>> writePositions() { return x_; }
    helper::WriteAccessor<Data<VecCoord>> writeRestPositions() { return x0_; }
    helper::WriteOnlyAccessor<Data<VecCoord>> writeOnlyPositions() { return x_; }
    helper::WriteOnlyAccessor<Data<VecCoord>> writeOnlyRestPositions() { return x0_; }
    helper::WriteAccessor<Data<VecDeriv>> writeForces() { return f_; }
    helper::WriteAccessor<Data<VecDeriv>> writeVelocities() { return v_; }
};
namespace behavior {
using core::BaseState;
class BaseMechanicalState : public virtual core::BaseState {
public:
    virtual Size getMatrixSize() const = 0;
    virtual void vRealloc(VecId) = 0;                                   // allocates or adapts the size
    virtual void vOp(VecId v, ConstVecId a = ConstVecId(), ConstVecId b = ConstVecId(), SReal f = 1) = 0;
    virtual SReal vDot(ConstVecId, ConstVecId) = 0;
    virtual void copyToBaseVector(linearalgebra::BaseVector *, ConstVecId, unsigned &offset) = 0;
    virtual void copyFromBaseVector(VecId, const linearalgebra::BaseVector *, unsigned &offset) = 0;
};
template <class DT> class MechanicalState : public State<DT>, public virtual BaseMechanicalState {
public:
    SOFA_CLASS(SOFA_TEMPLATE(MechanicalState, DT), SOFA_TEMPLATE(State, DT));
    static constexpr Size N = DT::deriv_total_size;
    std::string getTemplateName() const override { return DT::Name(); }
    Size getMatrixSize() const override { return this->getSize() * N; }
    template <class F> void with(ConstVecId i, F f) { if (i.type == V_COORD) f(*this->write(VecCoordId(i.index))); else f(*this->write(VecDerivId(i.index))); }
    void vRealloc(VecId v) override { with(v, [&](auto &d) { auto x = d.getValue(); x.resize(this->getSize()); d.setValue(x); }); }
    SReal get(ConstVecId i, Size p, Size c) { SReal r = 0; with(i, [&](auto &d) { r = d.getValue()[p][c]; }); return r; }
    void vOp(VecId v, ConstVecId a, ConstVecId b, SReal f) override {
        if (v.isNull()) minisofa::die("vOp: null destination");
        if (v.type == V_DERIV && ((!a.isNull() && a.type == V_COORD) || (!b.isNull() && b.type == V_COORD))) minisofa::die("vOp: derivative from a coordinate");
        with(v, [&](auto &d) {
            auto x = d.getValue(); x.resize(this->getSize());
            for (Size p = 0; p < this->getSize(); ++p) for (Size c = 0; c < N; ++c) x[p][c] = (a.isNull() ? 0 : get(a, p, c)) + (b.isNull() ? 0 : get(b, p, c) * f);
            d.setValue(x);
        });
    }
    SReal vDot(ConstVecId a, ConstVecId b) override { SReal r = 0; for (Size p = 0; p < this->getSize(); ++p) for (Size c = 0; c < N; ++c) r += get(a, p, c) * get(b, p, c); return r; }
    void copyToBaseVector(linearalgebra::BaseVector *d, ConstVecId s, unsigned &o) override { for (Size p = 0; p < this->getSize(); ++p) for (Size c = 0; c < N; ++c) d->set(o++, get(s, p, c)); }
    void copyFromBaseVector(VecId v, const linearalgebra::BaseVector *s, unsigned &o) override { with(v, [&](auto &d) { auto x = d.getValue(); for (Size p = 0; p < x.size(); ++p) for (Size c = 0; c < N; ++c) x[p][c] = s->element(o++); d.setValue(x); }); }
};
class MultiMatrixAccessor {
public:
    struct MatrixRef { linearalgebra::BaseMatrix *matrix = nullptr; unsigned offset = 0; explicit operator bool() const { return matrix != nullptr; } bool operator!() const { return !matrix; } };
    virtual ~MultiMatrixAccessor() = default;
    virtual Size getGlobalDimension() const { return 0; }
    virtual int getGlobalOffset(const BaseMechanicalState *) const { return -1; }
    virtual MatrixRef getMatrix(const BaseMechanicalState *) const { return {}; }
};
class BaseForceField : public virtual BaseObject {
public:
    BaseForceField() : rayleighStiffness(initData(&rayleighStiffness, SReal(0), "rayleighStiffness", "")), isCompliance(initData(&isCompliance, false, "isCompliance", "")) {}
    Data<SReal> rayleighStiffness;
    Data<bool> isCompliance;
    virtual void addForce(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual void addDForce(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual SReal getPotentialEnergy(const MechanicalParams *) const = 0;
    virtual void addKToMatrix(linearalgebra::BaseMatrix *, SReal, unsigned &) {}
    virtual void addKToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) {}
    virtual void addBToMatrix(const MechanicalParams *, const MultiMatrixAccessor *) {}
    virtual void addMBKdx(const MechanicalParams *mp, MultiVecDerivId df) { if (mp->kFactor() != 0 || mp->bFactor() != 0) addDForce(mp, df); }
    virtual void addMBKToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *a) {
        if (mp->kFactorIncludingRayleighDamping(rayleighStiffness.getValue()) != 0) addKToMatrix(mp, a);
        if (mp->bFactor() != 0) addBToMatrix(mp, a);
    }
};
class BaseProjectiveConstraintSet : public virtual BaseObject {
public:
    virtual void projectResponse(const MechanicalParams *, MultiVecDerivId) = 0;
    virtual void applyConstraint(const MechanicalParams *, const MultiMatrixAccessor *) {}
};
template <class DT> class ForceField : public virtual BaseForceField {
public:
    SOFA_CLASS(SOFA_TEMPLATE(ForceField, DT), objectmodel::BaseObject);
    using DataTypes = DT;
    using VecCoord = typename DT::VecCoord; using VecDeriv = typename DT::VecDeriv; using Real = typename DT::Real;
    using DataVecCoord = Data<VecCoord>; using DataVecDeriv = Data<VecDeriv>;
    SingleLink<ForceField<DT>, MechanicalState<DT>, objectmodel::BaseLink::FLAG_STRONGLINK> mstate;
    ForceField() : mstate(this->initLink("mstate", "")) {}
    void init() override { if (!mstate.get() && this->getContext()) mstate.set(this->getContext()->template get<MechanicalState<DT>>(objectmodel::BaseContext::Local)); }
    MechanicalState<DT> *getMState() { return mstate.get(); }
    const MechanicalState<DT> *getMState() const { return mstate.get(); }
    void addForce(const MechanicalParams *mp, MultiVecDerivId f) override { addForce(mp, *mstate->write(f.getId(mstate.get())), *mstate->read(mp->x().getId(mstate.get())), *mstate->read(mp->v().getId(mstate.get()))); }
    virtual void addForce(const MechanicalParams *, DataVecDeriv &, const DataVecCoord &, const DataVecDeriv &) = 0;
    void addDForce(const MechanicalParams *mp, MultiVecDerivId df) override { addDForce(mp, *mstate->write(df.getId(mstate.get())), *mstate->read(mp->dx().getId(mstate.get()))); }
    virtual void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) = 0;
    SReal getPotentialEnergy(const MechanicalParams *mp) const override { return getPotentialEnergy(mp, *mstate->read(mp->x().getId(mstate.get()))); }
    virtual SReal getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const = 0;
    using BaseForceField::addKToMatrix;
    void addKToMatrix(linearalgebra::BaseMatrix *, SReal, unsigned &) override {}
    void addKToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *a) override { auto r = a->getMatrix(mstate.get()); if (r) addKToMatrix(r.matrix, mp->kFactorIncludingRayleighDamping(this->rayleighStiffness.getValue()), r.offset); }
    virtual void addBToMatrix(linearalgebra::BaseMatrix *, SReal, unsigned &) {}
    void addBToMatrix(const MechanicalParams *mp, const MultiMatrixAccessor *a) override { auto r = a->getMatrix(mstate.get()); if (r) addBToMatrix(r.matrix, mp->bFactor(), r.offset); }
    template <class T> static bool canCreate(T *o, objectmodel::BaseContext *c, objectmodel::BaseObjectDescription *a) {
        if (!dynamic_cast<MechanicalState<DT> *>(c->getMechanicalState())) { a->logError("no mechanical state"); return false; }
        return BaseObject::canCreate(o, c, a);
    }
};
} // namespace behavior
class BaseMapping : public virtual BaseObject {
public:
    virtual bool areForcesMapped() const { return true; }
    virtual bool areMatricesMapped() const { return true; }
    virtual bool areMassesMapped() const { return true; }
    virtual bool areConstraintsMapped() const { return true; }
    virtual bool isMechanical() const { return true; }
    virtual void apply(const MechanicalParams *, MultiVecCoordId, ConstMultiVecCoordId) {}
    virtual void applyJ(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) {}
    virtual void applyJT(const MechanicalParams *, MultiVecDerivId, ConstMultiVecDerivId) {}
    virtual behavior::BaseMechanicalState *mechFrom() { return nullptr; }
    virtual behavior::BaseMechanicalState *mechTo() { return nullptr; }
    virtual std::vector<std::vector<SReal>> denseJ() { return {}; }
};
template <class In, class Out> class Mapping : public virtual BaseMapping {
public:
    SOFA_CLASS(SOFA_TEMPLATE2(Mapping, In, Out), objectmodel::BaseObject);
    State<In> *from_ = nullptr;
    State<Out> *to_ = nullptr;
    State<In> *getFromModel() const { return from_; }
    State<Out> *getToModel() const { return to_; }
    using InDataVecCoord = Data<typename In::VecCoord>; using InDataVecDeriv = Data<typename In::VecDeriv>; using InDataMatrixDeriv = Data<typename In::MatrixDeriv>;
    using OutDataVecCoord = Data<typename Out::VecCoord>; using OutDataVecDeriv = Data<typename Out::VecDeriv>; using OutDataMatrixDeriv = Data<typename Out::MatrixDeriv>;
    using BaseMapping::apply; using BaseMapping::applyJ; using BaseMapping::applyJT;
    void apply(const MechanicalParams *mp, MultiVecCoordId o, ConstMultiVecCoordId i) override { apply(mp, *to_->write(o.getId(to_)), *from_->read(i.getId(from_))); }
    void applyJ(const MechanicalParams *mp, MultiVecDerivId o, ConstMultiVecDerivId i) override { applyJ(mp, *to_->write(o.getId(to_)), *from_->read(i.getId(from_))); }
    void applyJT(const MechanicalParams *mp, MultiVecDerivId i, ConstMultiVecDerivId o) override { applyJT(mp, *from_->write(i.getId(from_)), *to_->read(o.getId(to_))); }
    behavior::BaseMechanicalState *mechFrom() override { return dynamic_cast<behavior::BaseMechanicalState *>(from_); }
    behavior::BaseMechanicalState *mechTo() override { return dynamic_cast<behavior::BaseMechanicalState *>(to_); }
    virtual void apply(const MechanicalParams *, OutDataVecCoord &, const InDataVecCoord &) = 0;
    virtual void applyJ(const MechanicalParams *, OutDataVecDeriv &, const InDataVecDeriv &) = 0;
    virtual void applyJT(const MechanicalParams *, InDataVecDeriv &, const OutDataVecDeriv &) = 0;
    virtual void applyJT(const ConstraintParams *, InDataMatrixDeriv &, const OutDataMatrixDeriv &) {}
    void init() override {
        if (!from_ || !to_) return;
        // SOFA maps the initial positions and velocities here
        apply(MechanicalParams::defaultInstance(), to_->x_, from_->x_);
        if (from_->v_.getValue().size() == from_->x_.getValue().size() && to_->v_.getValue().size() == to_->x_.getValue().size())
            applyJ(MechanicalParams::defaultInstance(), to_->v_, from_->v_);
    }
    template <class T> static bool canCreate(T *o, objectmodel::BaseContext *c, objectmodel::BaseObjectDescription *a) { return BaseObject::canCreate(o, c, a); }
};
namespace topology {
class Topology : public virtual BaseObject {
public:
    using Index = sofa::Index; using PointID = sofa::Index; using EdgeID = sofa::Index; using ElemID = sofa::Index; using TriangleID = sofa::Index; using QuadID = sofa::Index; using TetraID = sofa::Index; using TetrahedronID = sofa::Index; using HexaID = sofa::Index; using HexahedronID = sofa::Index;
    static constexpr Index InvalidID = sofa::InvalidID;
    using Point = PointID;
    using Edge = type::fixed_array<PointID, 2>; using Triangle = type::fixed_array<PointID, 3>; using Quad = type::fixed_array<PointID, 4>;
    using Tetra = type::fixed_array<PointID, 4>; using Tetrahedron = Tetra; using Hexa = type::fixed_array<PointID, 8>; using Hexahedron = Hexa;
};
using BaseTopology = Topology;
class BaseMeshTopology : public Topology {
public:
    using Base_ = Topology;
    BaseMeshTopology() : edges(initData(&edges, "edges", "")), triangles(initData(&triangles, "triangles", "")), quads(initData(&quads, "quads", "")),
        tetrahedra(initData(&tetrahedra, "tetrahedra", "")), hexahedra(initData(&hexahedra, "hexahedra", "")), seqPoints(initData(&seqPoints, "position", "")) {}
    using SeqEdges = type::vector<Edge>; using SeqTriangles = type::vector<Triangle>; using SeqQuads = type::vector<Quad>;
    using SeqTetrahedra = type::vector<Tetra>; using SeqHexahedra = type::vector<Hexa>;
    Data<SeqEdges> edges; Data<SeqTriangles> triangles; Data<SeqQuads> quads; Data<SeqTetrahedra> tetrahedra; Data<SeqHexahedra> hexahedra;
    Data<type::vector<type::Vec3d>> seqPoints;
    std::size_t getNbEdges() const { return edges.getValue().size(); }
    std::size_t getNbTriangles() const { return triangles.getValue().size(); }
    std::size_t getNbQuads() const { return quads.getValue().size(); }
    std::size_t getNbTetrahedra() const { return tetrahedra.getValue().size(); }
    std::size_t getNbTetras() const { return getNbTetrahedra(); }
    std::size_t getNbHexahedra() const { return hexahedra.getValue().size(); }
    std::size_t getNbHexas() const { return getNbHexahedra(); }
    std::size_t getNbPoints() const { return seqPoints.getValue().size(); }
    const Edge &getEdge(Index i) const { return edges.getValue()[i]; }
    const Triangle &getTriangle(Index i) const { return triangles.getValue()[i]; }
    const Quad &getQuad(Index i) const { return quads.getValue()[i]; }
    const Tetra &getTetrahedron(Index i) const { return tetrahedra.getValue()[i]; }
    const Tetra &getTetra(Index i) const { return tetrahedra.getValue()[i]; }
    const Hexa &getHexahedron(Index i) const { return hexahedra.getValue()[i]; }
    const Hexa &getHexa(Index i) const { return hexahedra.getValue()[i]; }
    const SeqTetrahedra &getTetrahedra() const { return tetrahedra.getValue(); }
    const SeqHexahedra &getHexahedra() const { return hexahedra.getValue(); }
    const SeqTriangles &getTriangles() const { return triangles.getValue(); }
};
} // namespace topology
} // namespace core
} // namespace sofa
namespace minisofa {
struct Creator { std::string type; sofa::core::objectmodel::Base *(*make)(); };
inline std::vector<Creator> &factory() { static std::vector<Creator> f; return f; }
}
namespace sofa {
namespace core {
struct RegisterObject {
    RegisterObject(const std::string &) {}
#ifdef MINISOFA_FACTORY // keeps a way to create every registered type
    template <class T> RegisterObject &add(bool = false) {
        struct Made : T {};
        minisofa::factory().push_back({typeid(T).name(), []() -> objectmodel::Base * { return new Made(); }});
        return *this;
    }
#else
    template <class T> RegisterObject &add(bool = false) { return *this; }
#endif
    RegisterObject &addAlias(const std::string &) { return *this; }
    RegisterObject &addDescription(const std::string &) { return *this; }
    operator int() const { return 1; }
};
} // namespace core
namespace core::objectmodel {
inline core::BaseState *BaseContext::getMechanicalState() const {
    for (auto *c = this; c; c = c->parentContext()) for (auto &o : c->objects) if (auto *t = dynamic_cast<core::BaseState *>(o.get())) return t;
    return nullptr;
}
} // namespace core::objectmodel
namespace component::topology {
class MeshTopology : public core::topology::BaseMeshTopology { public: SOFA_CLASS(MeshTopology, core::topology::BaseMeshTopology); };
class TriangleSetTopologyContainer : public core::topology::BaseMeshTopology { public: SOFA_CLASS(TriangleSetTopologyContainer, core::topology::BaseMeshTopology); };
class QuadSetTopologyContainer : public core::topology::BaseMeshTopology { public: SOFA_CLASS(QuadSetTopologyContainer, core::topology::BaseMeshTopology); };
class TetrahedronSetTopologyContainer : public TriangleSetTopologyContainer { public: SOFA_CLASS(TetrahedronSetTopologyContainer, TriangleSetTopologyContainer); };
class HexahedronSetTopologyContainer : public QuadSetTopologyContainer { public: SOFA_CLASS(HexahedronSetTopologyContainer, QuadSetTopologyContainer); };
} // namespace component::topology
namespace simulation {
class Node : public core::objectmodel::BaseContext {
public:
    SOFA_CLASS(Node, core::objectmodel::BaseContext);
    Node *parent_ = nullptr;
    BaseContext *parentContext() const override { return parent_; }
    std::size_t getNbParents() const { return parent_ ? 1 : 0; }
    Node *getFirstParent() const { return parent_; }
    template <class T> void addObject(const core::objectmodel::SPtr_<T> &o) { objects.emplace_back(static_cast<core::objectmodel::Base *>(o.get())); o->setContext(this); }
    std::string getPathName() const override { return "/" + getName(); }
    std::vector<core::objectmodel::SPtr_<Node>> children;
    void addChild(const core::objectmodel::SPtr_<Node> &c) { children.push_back(c); c->parent_ = this; }
    std::vector<BaseContext *> childContexts() const override { std::vector<BaseContext *> r; for (auto &c : children) r.push_back(c.get()); return r; }
};
class AnimateBeginEvent : public core::objectmodel::Event {
public:
    static bool checkEventType(const core::objectmodel::Event *e) { return dynamic_cast<const AnimateBeginEvent *>(e) != nullptr; }
};
class AnimateEndEvent : public core::objectmodel::Event {
public:
    static bool checkEventType(const core::objectmodel::Event *e) { return dynamic_cast<const AnimateEndEvent *>(e) != nullptr; }
};
} // namespace simulation
} // namespace sofa
namespace sofa { template <class T> using Data = core::objectmodel::Data<T>; }
#include "minisofa_sim.h"
using sofa::core::objectmodel::New;
