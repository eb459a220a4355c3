// Lifetime-tracked element types: every construction and destruction is registered by address, so double
// construction, double destruction, use of dead, unconstructed or moved-from values and leaks are failures.
#pragma once
#include <utility>
#include "core.h"

namespace mc {

struct Life {
    uint64_t constructed, destroyed, copies, moves;
    int64_t live;
};
extern Life g_life;
void life_construct(const void* p, const char* what);
void life_destroy(const void* p, const char* what);
void life_use(const void* p, const char* what);   // fails unless an object lives at p
bool life_alive(const void* p);
void life_reset();                                 // start of a path
void life_expect_live(int64_t n, const char* what);

constexpr int kMovedFrom = -0x5eadbee;

// kCopy: copyable.  Tag distinguishes otherwise equal types.  Align over-aligns.
// kNoexcept: whether moves promise not to throw (they never do).
template <bool kCopy, int Tag = 0, size_t Align = alignof(int64_t), bool kNoexcept = true>
class alignas(Align) Tracked {
  public:
    Tracked() : v_(0) { born(); }
    explicit Tracked(int v) : v_(v) { born(); }
    Tracked(const Tracked& o) : v_(o.get()) {
        static_assert(kCopy, "copy of a move-only value");
        born();
        g_life.copies++;
    }
    Tracked(Tracked&& o) noexcept(kNoexcept) : v_(o.get()) {
        if (&o == this) fail("value move-constructed from itself");
        born();
        o.v_ = kMovedFrom;
        g_life.moves++;
    }
    ~Tracked() {
        life_destroy(this, "value");
        v_ = -0x0dead;
    }
    Tracked& operator=(const Tracked& o) {
        static_assert(kCopy, "copy of a move-only value");
        life_use(this, "assignment target");
        v_ = o.get();
        g_life.copies++;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept(kNoexcept) {
        life_use(this, "assignment target");
        int v = o.get();
        o.v_ = kMovedFrom;   // a self-move loses the value, as for real resources
        v_ = v;
        if (&o == this) v_ = kMovedFrom;
        g_life.moves++;
        return *this;
    }
    int get() const {
        life_use(this, "value");
        if (v_ == kMovedFrom) fail("a moved-from value is read");
        return v_;
    }
    bool moved_from() const { life_use(this, "value"); return v_ == kMovedFrom; }
    void set(int v) { life_use(this, "value"); v_ = v; }
    int raw() const { return v_; }

    bool operator==(const Tracked& o) const { return get() == o.get(); }
    bool operator!=(const Tracked& o) const { return get() != o.get(); }
    bool operator<(const Tracked& o) const { return get() < o.get(); }

  private:
    void born() {
        if (uintptr_t(this) % Align) fail("value constructed at a misaligned address (needs %zu)", Align);
        life_construct(this, "value");
    }
    int v_;
    int pad_ = 0x7a7a;
};
using Tok = Tracked<true, 0>;

// Deleted (not static_assert) copies so that type traits answer truthfully.
template <int Tag = 0>
class MoveOnlyT {
  public:
    MoveOnlyT() : v_(0) { life_construct(this, "value"); }
    explicit MoveOnlyT(int v) : v_(v) { life_construct(this, "value"); }
    MoveOnlyT(const MoveOnlyT&) = delete;
    MoveOnlyT& operator=(const MoveOnlyT&) = delete;
    MoveOnlyT(MoveOnlyT&& o) noexcept : v_(o.get()) {
        if (&o == this) fail("value move-constructed from itself");
        life_construct(this, "value");
        o.v_ = kMovedFrom;
        g_life.moves++;
    }
    MoveOnlyT& operator=(MoveOnlyT&& o) noexcept {
        life_use(this, "assignment target");
        int v = o.get();
        o.v_ = kMovedFrom;
        v_ = v;
        if (&o == this) v_ = kMovedFrom;
        g_life.moves++;
        return *this;
    }
    ~MoveOnlyT() { life_destroy(this, "value"); v_ = -0x0dead; }
    int get() const {
        life_use(this, "value");
        if (v_ == kMovedFrom) fail("a moved-from value is read");
        return v_;
    }
    bool moved_from() const { life_use(this, "value"); return v_ == kMovedFrom; }
    void set(int v) { life_use(this, "value"); v_ = v; }

    bool operator==(const MoveOnlyT& o) const { return get() == o.get(); }
    bool operator!=(const MoveOnlyT& o) const { return get() != o.get(); }
    bool operator<(const MoveOnlyT& o) const { return get() < o.get(); }

  private:
    int v_;
    int pad_ = 0x7b7b;
};
using MTok = MoveOnlyT<0>;

// A place for one object whose memory holds rubbish before the object is made and after it is gone, so that members the
// object does not initialise and pointers into dead objects are noticed.
template <class T>
class Slot {
  public:
    Slot() { fill(); }
    ~Slot() { reset(); }
    Slot(const Slot&) = delete;
    Slot& operator=(const Slot&) = delete;
    template <class... A> T& emplace(A&&... a) { reset(); T* t = new (mem_) T(std::forward<A>(a)...); full_ = true; return *t; }
    void reset() { if (full_) { full_ = false; ptr()->~T(); fill(); } }
    T& operator*() { return *ptr(); }
    const T& operator*() const { return *reinterpret_cast<const T*>(mem_); }
    T* operator->() { return ptr(); }
    explicit operator bool() const { return full_; }
  private:
    T* ptr() { return reinterpret_cast<T*>(mem_); }
    void fill() { memset(mem_, 0xa5, sizeof mem_); asm volatile("" : : "r"(mem_) : "memory"); }
    alignas(T) char mem_[sizeof(T)];
    bool full_ = false;
};
}  // namespace mc
