#!/usr/bin/env python3
"""Rewrites of AMTL that keep its behaviour, and the checks that must stay quiet on them (a development tool: no check
runs it).  usage: refactorings.py [name-prefix ...]; works on a clone in a scratch directory."""
import os, shutil, subprocess, sys, tempfile
R=[]
def ref(name,checks,edits): R.append((name,checks.split(),edits))
TS='amtl/am-refcounting-threadsafe.h'; HT='amtl/am-hashtable.h'; S='amtl/am-string.h'; F='amtl/am-function.h'; RC='amtl/am-refcounting.h'; FA='amtl/am-fixedarray.h'; TL='amtl/am-threadlocal.h'
ref('aref-mutexbit-fetch_or','T02',[(TS,'''        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);''','''        for (;;) {
            uintptr_t old = thing_.fetch_or(1, std::memory_order_acquire);
            if (!(old & 1))
                return reinterpret_cast<T*>(old);
            while (thing_.load(std::memory_order_relaxed) & 1)
                std::this_thread::yield();
        }'''),(TS,'std::atomic<void*> thing_;','std::atomic<uintptr_t> thing_;'),(TS,'''        assert(thing_ == tagged(thing_));
        assert(ptr == untagged(ptr));
        thing_ = ptr;''','''        assert(thing_.load() & 1);
        assert(!(uintptr_t(ptr) & 1));
        thing_.store(reinterpret_cast<uintptr_t>(ptr), std::memory_order_release);'''),
 (TS,''' : thing_(nullptr)
    {}
    AtomicRef(T* thing)
     : thing_(thing)''',''' : thing_(0)
    {}
    AtomicRef(T* thing)
     : thing_(reinterpret_cast<uintptr_t>(thing))'''),(TS,'''        assert(thing_ == untagged(thing_));
        if (thing_)
            reinterpret_cast<T*>(thing_.load())->Release();''','''        uintptr_t last = thing_.load(std::memory_order_acquire);
        assert(!(last & 1));
        if (last)
            reinterpret_cast<T*>(last)->Release();'''),(TS,'''    // We represent a locked state with a tag bit.
    void* tagged(void* ptr) {
        return reinterpret_cast<void*>(uintptr_t(ptr) | 1);
    }
    void* untagged(void* ptr) {
        return reinterpret_cast<void*>(uintptr_t(ptr) & ~uintptr_t(1));
    }

''','')])
ref('aref-with-mutex','T02',[(TS,'''        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);''','''        mutex_.lock();
        return reinterpret_cast<T*>(thing_.load());'''),(TS,'''        assert(thing_ == tagged(thing_));
        assert(ptr == untagged(ptr));
        thing_ = ptr;''','''        thing_ = ptr;
        mutex_.unlock();'''),(TS,'std::atomic<void*> thing_;','std::atomic<void*> thing_;\n    std::mutex mutex_;'),(TS,'#include <atomic>','#include <atomic>\n#include <mutex>')])
ref('rc-relaxed-inc','T01',[(TS,'refcount_ += 1;','refcount_.fetch_add(1, std::memory_order_relaxed);'),(TS,'''        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
#if''','''        if (refcount_.fetch_sub(1, std::memory_order_release) == 1) {
            std::atomic_thread_fence(std::memory_order_acquire);
            assert(refcount_.load() == 0);
#if''')])
ref('tl-mutex','T03 T03',[(TL,'''        int state = allocated_.load(std::memory_order_acquire);
        while (state != kAllocated) {
            if (state == kAllocating) {
                std::this_thread::yield();
                state = allocated_.load(std::memory_order_acquire);
                continue;
            }
            if (!allocated_.compare_exchange_strong(state, kAllocating, std::memory_order_acquire))
                continue;
            bool ok = internalAllocate();
            allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
            return ok;
        }
        return true;''','''        if (allocated_.load(std::memory_order_acquire) == kAllocated)
            return true;
        std::lock_guard<std::mutex> lock(mutex_);
        if (allocated_.load(std::memory_order_relaxed) == kAllocated)
            return true;
        if (!internalAllocate())
            return false;
        allocated_.store(kAllocated, std::memory_order_release);
        return true;'''),(TL,'    std::atomic<int> allocated_;','    std::atomic<int> allocated_;\n    std::mutex mutex_;'),(TL,'#include <thread>','#include <mutex>\n#include <thread>')])
ref('tl-static-mutex','T03',[(TL,'''        int state = allocated_.load(std::memory_order_acquire);
        while (state != kAllocated) {
            if (state == kAllocating) {
                std::this_thread::yield();
                state = allocated_.load(std::memory_order_acquire);
                continue;
            }
            if (!allocated_.compare_exchange_strong(state, kAllocating, std::memory_order_acquire))
                continue;
            bool ok = internalAllocate();
            allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
            return ok;
        }
        return true;''','''        static std::mutex mutex;
        std::lock_guard<std::mutex> lock(mutex);
        if (allocated_.load(std::memory_order_acquire) == kAllocated)
            return true;
        bool ok = internalAllocate();
        if (ok)
            allocated_.store(kAllocated, std::memory_order_release);
        return ok;'''),(TL,'#include <thread>','#include <mutex>\n#include <thread>')])
ref('tl-sleep','T03',[(TL,'std::this_thread::yield();','std::this_thread::sleep_for(std::chrono::microseconds(10));'),(TL,'#include <thread>','#include <chrono>\n#include <thread>')])
ref('ht-quadratic','H01 H02 H03 H04 H05',[(HT,'''            hash_++;
            return entry();''','''            hash_ += ++step_;
            return entry();'''),(HT,'''        uint32_t hash_;
        uint32_t capacity_;

      public:
        Probulator(''','''        uint32_t hash_;
        uint32_t capacity_;
        uint32_t step_ = 0;

      public:
        Probulator(''')])
ref('ht-downward','H01 H02 H03 H04 H05',[(HT,'hash_++;','hash_--;')])
ref('ht-rename','H01 H02 H03 H04 H05',[(HT,'nelements_','live_count_'),(HT,'ndeleted_','tombstones_'),(HT,'minCapacity_','floor_')])
ref('ht-overload-helper','H01 H05 H04',[(HT,'(nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4))','capacity_ - nelements_ - ndeleted_ < capacity_ / 4'),(HT,'''        if (underloaded())
            return shrink();
        if (overloaded())
            return grow();
        return true;''','''        if (overloaded())
            return grow();
        return !underloaded() || shrink();'''),(HT,'''        for (size_t i = 0; i < capacity_; i++) {
            table_[i].setFree();
        }
        ndeleted_ = 0;
        nelements_ = 0;''','''        nelements_ = ndeleted_ = 0;
        for (Entry* e = table_ + capacity_; e-- != table_;)
            e->setFree();''')])
ref('ht-fibhash-other','H01 H02 H03 H04 H05 H06',[(HT,'0x9E3779B9','0x85EBCA6B')])
ref('ht-init-order','H01 H04 H05',[(HT,'''        table_ = createTable(uint32_t(capacity));
        if (!table_)
            return false;

        minCapacity_''','''        Entry* table = createTable(uint32_t(capacity));
        if (table == nullptr)
            return false;
        table_ = table;

        minCapacity_'''),(HT,'''        uint32_t oldCapacity = capacity_;

        table_ = newTable;''','''        const uint32_t oldCapacity = capacity_;

        table_ = newTable;'''),(HT,'''                p.entry().setHash(p.hash());
                p.entry().construct(std::move(oldEntry.payload()));''','''                Entry& fresh = p.entry();
                fresh.construct(std::move(oldEntry.payload()));
                fresh.setHash(p.hash());''')])
ref('str-vector-buffer','S02 S01',[(S,'''    size_t len;
    std::unique_ptr<char[]> result = detail::SprintfArgsImpl(&len, fmt, ap);
    if (!result)
        return "";
    return std::string(result.get(), len);''','''    char stack[256];
    va_list again;
    va_copy(again, ap);
    std::string out;
    int len = vsnprintf(stack, sizeof(stack), fmt, ap);
    if (len >= 0 && size_t(len) < sizeof(stack)) {
        out.assign(stack, len);
    } else if (len >= 0) {
        out.resize(len);
        if (vsnprintf(&out[0], size_t(len) + 1, fmt, again) < 0)
            out.clear();
    }
    va_end(again);
    return out;''')])
ref('str-copy-mem','S01 S05',[(S,'''    char* iter = dest;
    size_t count = maxlength;
    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''','''    const char* nul = (const char*)memchr(src, '\\0', maxlength - 1);
    size_t n = nul ? size_t(nul - src) : maxlength - 1;
    memmove(dest, src, n);
    dest[n] = '\\0';
    return n;'''),(S,'''    char* iter = dest;
    size_t count = maxlength;
    while (--count && n-- && *src)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''','''    size_t i = 0;
    for (; i + 1 < maxlength && i < n && src[i]; ++i)
        dest[i] = src[i];
    dest[i] = '\\0';
    return i;''')])
ref('str-split-find','S03',[(S,'''    const char* cursor = str;
    const char* match = nullptr;
    while (*cursor) {
        match = strstr(cursor, split);
        if (!match)
            break;

        out.emplace_back(cursor, match - cursor);
        cursor = match + split_len;
    }

    if (*cursor != '\\0' || match)
        out.emplace_back(cursor);
    return out;''','''    const std::string whole(str);
    if (whole.empty())
        return out;
    size_t from = 0;
    for (size_t at = whole.find(split); at != std::string::npos; at = whole.find(split, from)) {
        out.push_back(whole.substr(from, at - from));
        from = at + split_len;
    }
    out.push_back(whole.substr(from));
    return out;'''),(S,'''    std::string buffer(buffer_len, '\\0');

    char* iter = &buffer[0];
#if !defined(NDEBUG)
    char* end = iter + buffer_len;
#endif
    for (size_t i = 0; i < pieces.size(); i++) {
        memcpy(iter, pieces[i].c_str(), pieces[i].size());
        iter += pieces[i].size();

        if (i != pieces.size() - 1) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
    }
    assert(iter == end);
    return buffer;''','''    std::string buffer;
    buffer.reserve(buffer_len);
    const char* glue = "";
    for (const auto& piece : pieces) {
        buffer += glue;
        buffer += piece;
        glue = sep;
    }
    return buffer;'''),])
ref('str-prefix','S04',[(S,'return strncmp(first, other, strlen(other)) == 0;','''while (*other && *first == *other) {
        first++;
        other++;
    }
    return !*other;'''),(S,'''           first.substr(first.size() - second.size(), second.size()) == second;''','''           first.compare(first.size() - second.size(), std::string::npos, second) == 0;'''),(S,'''    for (size_t i = 0; i < result.size(); i++)
        result[i] = toupper(result[i]);''','''    for (char& c : result)
        c = static_cast<char>(toupper(c));''')])
ref('fn-bigger-inline','R02',[(F,'sizeof(void*) * 3;','sizeof(void*) * 6;')])
ref('fn-swap-assign','R02',[(F,'''        if (this != &other)
            replace(Function(other));
        return *this;''','''        if (this != &other) {
            Function copy(other);
            destroy();
            move(std::move(copy));
        }
        return *this;'''),(F,'''        replace(Function(std::forward<T>(other)));
        return *this;''','''        Function fresh(std::forward<T>(other));
        zap();
        move(std::move(fresh));
        return *this;''')])
ref('rp-swap-assign','R01 R05 O01',[(RC,'        thing_ = other;\n','        std::swap(thing_, other);\n        other = thing_;\n')] if 0 else [(RC,'''        if (thing_)
            thing_->AddRef();''','''        T* held = thing_;
        if (held != nullptr)
            held->AddRef();'''),(RC,'refcount_++;','refcount_ += 1;'),(RC,'''        if (--refcount_ == 0)
            delete static_cast<T*>(this);''','''        refcount_ -= 1;
        if (refcount_ != 0)
            return;
        delete static_cast<T*>(this);''')])
ref('fa-copy-swap','R04',[(FA,'''        destruct();
        if (size_ != other.size() || failed_) {
            deallocate();
            if (!allocate(other.size()))
                return *this;
        }''','''        destruct();
        deallocate();
        if (!allocate(other.size()))
            return *this;'''),(FA,'''        if (other.size() != size())
            return false;
        for (size_t i = 0; i < other.size(); i++) {
            if (at(i) != other.at(i))
                return false;
        }
        return true;''','''        if (size_ != other.size_)
            return false;
        size_t i = 0;
        while (i < size_ && !(data_[i] != other.data_[i]))
            i++;
        return i == size_;''')])
ref('fa-reverse-destroy','R04',[(FA,'''        for (size_t i = 0; i < size_; i++)
            data_[i].~T();''','''        for (size_t i = size_; i-- > 0;)
            data_[i].~T();''')])
PQ='amtl/am-priority-queue.h'; IL='amtl/am-inlinelist.h'; MB='amtl/am-maybe.h'; RA='amtl/am-raii.h'; MX='amtl/am-mutex.h'; AR='amtl/am-arithmetic.h'; PA='amtl/os/am-path.h'; SL='amtl/os/am-shared-library.h'; FS='amtl/os/am-fsutil-posix.h'; FL='amtl/am-float.h'; TI='amtl/am-time.h'; VE='amtl/am-vector.h'; DE='amtl/am-deque.h'; TH='amtl/am-thread.h'; AP='amtl/experimental/am-argparser.h'; CX='compat/stdcxx.cpp'; BI='amtl/am-bits.h'
def M(name,checks,edits): ref('m-'+name,checks,edits)
M('pq-std-heap','C02',[(PQ,'''        if (impl_.size() > 1)
            propagateUp(impl_.size() - 1);''','''        std::push_heap(impl_.begin(), impl_.end(), lower());'''),(PQ,'''        T top = std::move(impl_[0]);
        if (impl_.size() == 1) {
            impl_.pop_back();
        } else {
            impl_[0] = std::move(impl_.back());
            impl_.pop_back();
            propagateDown(0);
        }
        return top;''','''        std::pop_heap(impl_.begin(), impl_.end(), lower());
        T top = std::move(impl_.back());
        impl_.pop_back();
        return top;'''),(PQ,'''  private:
    void propagateUp(size_t at) {''','''  private:
    auto lower() {
        return [this](const T& a, const T& b) -> bool { return is_higher_priority_(b, a); };
    }
    void propagateUp(size_t at) {'''),(PQ,'#include <functional>','#include <algorithm>\n#include <functional>')])
M('pq-swap-up','C02',[(PQ,'''        size_t cursor = at;
        T key(std::move(impl_[cursor]));
        while (cursor != 0) {
            size_t parent = parentOf(cursor);
            if (!is_higher_priority_(key, impl_[parent]))
                break;

            impl_[cursor] = std::move(impl_[parent]);
            cursor = parent;
        }

        impl_[cursor] = std::move(key);''','''        for (size_t cursor = at; cursor != 0; cursor = parentOf(cursor)) {
            if (!is_higher_priority_(impl_[cursor], impl_[parentOf(cursor)]))
                return;
            std::swap(impl_[cursor], impl_[parentOf(cursor)]);
        }''')])
M('il-shared-unlink','C01',[(IL,'''        t->prev_->next_ = t->next_;
        t->next_->prev_ = t->prev_;
        length_--;

        // isInList() depends on these being cleared.
        t->next_ = nullptr;
        t->prev_ = nullptr;''','''        length_--;
        t->removeFromParentList();'''),(IL,'''        prev_->next_ = next_;
        next_->prev_ = prev_;
        next_ = nullptr;
        prev_ = nullptr;''','''        Node* after = std::exchange(next_, nullptr);
        Node* before = std::exchange(prev_, nullptr);
        after->prev_ = before;
        before->next_ = after;'''),(IL,'''  protected:
    InlineListNode* next_;''','''  private:
    typedef InlineListNode Node;

  protected:
    InlineListNode* next_;'''),(IL,'namespace ke {','#include <utility>\nnamespace ke {'),(IL,'''        IteratorType next = at;
        next++;

        remove(at.iter_);

        // Iterator is no longer valid.
        at.iter_ = nullptr;

        return next;''','''        auto doomed = at.iter_;
        IteratorType next(++at);
        at.iter_ = nullptr;
        remove(doomed);
        return next;''')])
M('maybe-union','R03',[(MB,'''    bool initialized_;
    StorageBuffer<T> t_;''','''    T* ptr() { return t_.address(); }
    StorageBuffer<T> t_;
    bool initialized_;'''),(MB,'''        if (isValid())
            t_.address()->~T();

        new''','''        reset();
        new'''),(MB,'''    ~Maybe() {
        if (isValid())
            t_.address()->~T();
    }''','''    ~Maybe() { reset(); }'''),(MB,'''        if (isValid())
            t_.address()->~T();
        initialized_ = false;''','''        if (!initialized_)
            return;
        initialized_ = false;
        ptr()->~T();''')])
M('raii-exchange','R05 R01 C03',[(RA,'''    T saved = t;
    t = T();
    return saved;''','''    T saved(std::move(t));
    t = T();
    return saved;'''),(RA,'''        if (!cancelled_)
            callback_();''','''        if (cancelled_)
            return;
        cancelled_ = true;
        callback_();''')])
M('mutex-thread-local-marker','T04',[(MX,'''       std::mutex::lock();
       owner_ = std::this_thread::get_id();''','''       std::mutex::lock();
       owner_.store(std::this_thread::get_id(), std::memory_order_relaxed);'''),(MX,'''       if (!std::mutex::try_lock())
           return false;
       owner_ = std::this_thread::get_id();
       return true;''','''       bool got = std::mutex::try_lock();
       if (got)
           owner_.store(std::this_thread::get_id(), std::memory_order_relaxed);
       return got;'''),(MX,'''       owner_ = std::thread::id();
       std::mutex''','''       owner_.store(std::thread::id(), std::memory_order_relaxed);
       std::mutex'''),(MX,'assert(owner_ ==','assert(owner_.load(std::memory_order_relaxed) ==')])
M('mutex-composition','T04',[(MX,'class Mutex : public std::mutex','class Mutex'),(MX,'''    void AssertCurrentThreadOwns() {}
#else
    void lock() {
       std::mutex::lock();''','''    void AssertCurrentThreadOwns() {}
    void lock() { m_.lock(); }
    bool try_lock() { return m_.try_lock(); }
    void unlock() { m_.unlock(); }
    std::mutex m_;
#else
    void lock() {
       m_.lock();'''),(MX,'!std::mutex::try_lock()','!m_.try_lock()'),(MX,'std::mutex::unlock();','m_.unlock();'),(MX,'  private:\n','  private:\n    std::mutex m_;\n')])
M('arith-builtin','N01',[(AR,'''    uint64_t r = left * right;
    if (left != 0 && ((r / left) != right))
        return false;

    *out = r;
    return true;''','''    uint64_t r;
    if (__builtin_mul_overflow(left, right, &r))
        return false;
    *out = r;
    return true;'''),(AR,'''    if (left + right < std::max(left, right))
        return false;
    *out = left + right;
    return true;
}

static inline bool
TryUint64Add''','''    uint32_t r;
    if (__builtin_add_overflow(left, right, &r))
        return false;
    *out = r;
    return true;
}

static inline bool
TryUint64Add''')])
M('path-replace','S05 W01',[(PA,'''    for (size_t i = 0; i < len; i++) {
#if defined(KE_WINDOWS)
        if (dest[i] == '/')
            dest[i] = '\\\\';
#else
        if (dest[i] == '\\\\')
            dest[i] = '/';
#endif
    }
''','''#if defined(KE_WINDOWS)
    std::replace(dest, dest + len, '/', '\\\\');
#else
    std::replace(dest, dest + len, '\\\\', '/');
#endif
'''),(PA,'#include <amtl/am-platform.h>','#include <algorithm>\n#include <amtl/am-platform.h>')])
M('lib-helper','O01 W01',[(SL,'''    explicit SharedLib(const char* path) {
#if defined(KE_WINDOWS)
        lib_ = LoadLibraryA(path);
#else
        lib_ = dlopen(path, RTLD_NOW);
#endif
    }''','''    explicit SharedLib(const char* path)
     : lib_(load(path)) {
    }'''),(SL,'''  private:
    SysType lib_;''','''  private:
    static SysType load(const char* path) {
#if defined(KE_WINDOWS)
        return LoadLibraryA(path);
#else
        dlerror();
        return dlopen(path, RTLD_NOW | RTLD_LOCAL);
#endif
    }

    SysType lib_;'''),(SL,'''            SafeStrcpy(error, maxlength, dlerror());''','''            const char* why = dlerror();
            SafeSprintf(error, maxlength, "%s", why ? why : "unknown error");''')])
M('fs-helper','O02',[(FS,'''static inline bool
PathExists(const char* path) {
    struct stat s;
    return (stat(path, &s) == 0);
}
''','''static inline mode_t
TypeOf(const char* path) {
    struct stat s;
    return stat(path, &s) == 0 ? (s.st_mode & S_IFMT) : 0;
}

static inline bool
PathExists(const char* path) {
    return TypeOf(path) != 0;
}
'''),(FS,'''    struct stat s;
    if (stat(path, &s) != 0)
        return false;
    return S_ISREG(s.st_mode) ? true : false;''','''    return TypeOf(path) == S_IFREG;'''),(FS,'''    struct stat s;
    if (stat(path, &s) != 0)
        return false;
    return S_ISDIR(s.st_mode) ? true : false;''','''    return TypeOf(path) == S_IFDIR;'''),(FS,'return mkdir(path, mode) == 0;','return !mkdirat(AT_FDCWD, path, mode_t(mode));'),(FS,'#include <sys/stat.h>','#include <fcntl.h>\n#include <sys/stat.h>')])
M('fs-access','O02',[(FS,'''    struct stat s;
    return (stat(path, &s) == 0);''','''    return access(path, F_OK) == 0;'''),(FS,'#include <sys/stat.h>','#include <unistd.h>\n#include <sys/stat.h>')])
M('fs-cxx17','O02',[(FS,'''    struct stat s;
    if (stat(path, &s) != 0)
        return false;
    return S_ISDIR(s.st_mode) ? true : false;''','''    std::error_code ec;
    return std::filesystem::is_directory(path, ec);'''),(FS,'''    struct stat s;
    return (stat(path, &s) == 0);''','''    std::error_code ec;
    return std::filesystem::exists(path, ec);'''),(FS,'#include <sys/stat.h>','#include <filesystem>\n#include <sys/stat.h>')])
M('float-std','N04 W01',[(FL,'''    typedef float_bits<T> Properties;
    typedef typename Properties::Bits Bits;
    Bits bits = Properties::to_layout(value).bits;
    // All exponent bits and no other bit, apart from the sign.
    Bits sign = Bits(1) << (sizeof(Bits) * 8 - 1);
    return (bits & ~sign) == Properties::kExponentMask;''','''    return std::isinf(value);'''),(FL,'    return fmod(left, right);','    return std::fmod(left, right);'),(FL,'    return std::isnan(v);','    return v != v;')])
M('time-arith','N05',[(TI,'''    auto duration = std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec};
    return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);''','''    return std::chrono::nanoseconds{ts.tv_sec * 1000000000LL + ts.tv_nsec};'''),(TI,'''    std::ostringstream ss;
    ss << std::put_time(&tm, fmt);
    return ss.str();''','''    std::stringstream stream;
    stream << std::put_time(&tm, fmt);
    return std::move(stream).str();''')])
M('vec-loops','C03',[(VE,'''        for (size_t i = 0; i < src->size(); i++)
            dest->emplace_back(std::move(src->at(i)));
        src->clear();''','''        dest->insert(dest->end(), std::make_move_iterator(src->begin()), std::make_move_iterator(src->end()));
        src->clear();'''),(VE,'''    auto it = std::remove_if(vec->begin(), vec->end(), pred);
    vec->erase(it, vec->end());''','''    size_t keep = 0;
    for (size_t i = 0; i < vec->size(); i++) {
        if (pred((*vec)[i]))
            continue;
        if (keep != i)
            (*vec)[keep] = std::move((*vec)[i]);
        keep++;
    }
    vec->erase(vec->begin() + keep, vec->end());'''),(VE,'#include <algorithm>','#include <algorithm>\n#include <iterator>'),(DE,'''  T t = std::move(deque->front());
  deque->pop_front();''','''  T t(std::move(*deque->begin()));
  deque->erase(deque->begin());''')])
M('thread-lambda','T05',[(TH,'''    auto callback = std::bind(std::forward<Function>(f), std::forward<Args>(args)...);
    auto fn = [](const std::string& name, decltype(callback)&& callback) -> void {
        SetThreadName(name.c_str());
        callback();
    };
    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));''','''    auto callback = std::bind(std::forward<Function>(f), std::forward<Args>(args)...);
    auto body = [title = std::string(name), callback = std::move(callback)]() mutable -> void {
        SetThreadName(title.c_str());
        callback();
    };
    return std::unique_ptr<std::thread>(new std::thread(std::move(body)));''')])
M('arg-split-parse','A01 A02 A03',[(AP,'''    for (IOption* option : options_) {
        if (!option->short_form())
            continue;
        if (strlen(option->short_form()) == len &&
            strncmp(option->short_form(), short_form, len) == 0) {
            return option;
        }
    }
    return nullptr;''','''    return search(&IOption::short_form, std::string(short_form, len));'''),(AP,'''    for (IOption* option : options_) {
        if (!option->long_form())
            continue;
        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }
    }
    return nullptr;''','''    return search(&IOption::long_form, std::string(long_form, len));'''),(AP,'''inline IOption*
Parser::find_short(''','''inline IOption*
Parser::search(const char* (IOption::*form)() const, const std::string& wanted)
{
    auto it = std::find_if(options_.begin(), options_.end(), [&](IOption* option) -> bool {
        const char* have = (option->*form)();
        return have && wanted == have;
    });
    return it == options_.end() ? nullptr : *it;
}

inline IOption*
Parser::find_short('''),(AP,'''    inline IOption* find_short(''','''    inline IOption* search(const char* (IOption::*form)() const, const std::string& wanted);
    inline IOption* find_short('''),(AP,'''            if (inline_values_ && sep && strlen(sep + 1) == 0)
                sep = nullptr;    // Don't allow -key= or -key: with no arg.
            if (sep)
                len = sep - arg;''','''            if (sep && inline_values_ && sep[1] == '\\0')
                sep = nullptr;    // Don't allow -key= or -key: with no arg.
            len = sep ? size_t(sep - arg) : len;'''),(AP,'''    for (IOption* option : options_)
        option->reset();
    for (IOption* option : positionals_)
        option->reset();
    if (help_option_)
        help_option_->reset();
    error_.clear();''','''    error_.clear();
    for (auto* group : {&positionals_, &options_}) {
        for (IOption* option : *group)
            option->reset();
    }'''),(AP,'#include <amtl/am-cxx.h>','#include <algorithm>\n#include <amtl/am-cxx.h>')])
M('arg-usage','A03',[(AP,'''    static const size_t kIndent = 2;
    std::unique_ptr<char[]> indent = std::make_unique<char[]>(kIndent + 1);
    for (size_t i = 0; i < kIndent; i++)
        indent[i] = ' ';
    indent[kIndent] = '\\0';
''','''    static const std::string kIndent(2, ' ');
'''),(AP,'indent.get()','kIndent.c_str()'),(AP,'''    char spaces[29];
    memset(spaces, ' ', sizeof(spaces) - 1);
    spaces[sizeof(spaces) - 1] = '\\0';
''','''    const std::string spaces(kMaxLeftColLength, ' ');
'''),(AP,'spaces, entry.help_lines','spaces.c_str(), entry.help_lines'),(AP,'''        fprintf(fp, "\\n");
        fprintf(fp, "positional arguments:\\n");''','''        fputs("\\npositional arguments:\\n", fp);''')])
M('cxx-std','N06',[(CX,'{ return acos(x); }','{ double r = acos(x); return r; }')])
M('bits-loops','N02 N01',[(BI,'return 31 - __builtin_clz(number);','return 31 ^ __builtin_clz(number);')])

M('float-fmodf','N04 W01',[(FL,'    return fmod(left, right);','    if (sizeof(T) == sizeof(float))\n        return fmodf(left, right);\n    return std::fmod(left, right);')])
M('aref-fast-same','T02',[(TS,'''    void operator =(T* other) {
        T* value = lock();''','''    void operator =(T* other) {
        if (thing_.load() == other)
            return;
        T* value = lock();''')])
M('aref-fast-null','T02',[(TS,'''    AlreadyRefed<T> get() {
        T* value = lock();''','''    AlreadyRefed<T> get() {
        if (!thing_.load())
            return nullptr;
        T* value = lock();''')])
M('mutex-try-owner-first','T04',[(MX,'''       if (!std::mutex::try_lock())
           return false;
       owner_''','''       if (owner_ != std::thread::id() || !std::mutex::try_lock())
           return false;
       owner_''')])
M('mutex-lock-tries-first','T04',[(MX,'''       std::mutex::lock();
       owner_ = std::this_thread::get_id();
    };''','''       if (!std::mutex::try_lock())
           std::mutex::lock();
       owner_.store(std::this_thread::get_id(), std::memory_order_release);
    };''')])
M('tl-allocate-twice','T03',[(TL,'            bool ok = internalAllocate();','            bool ok = internalAllocate() || internalAllocate();')])
M('ht-move-swap','H01 H02 H04 H05',[(HT,'''     : AllocPolicy(std::move(other)),
       capacity_(other.capacity_),
       nelements_(other.nelements_),
       ndeleted_(other.ndeleted_),
       table_(other.table_),
       minCapacity_(other.minCapacity_)
    {
        other.capacity_ = 0;
        other.nelements_ = 0;
        other.ndeleted_ = 0;
        other.table_ = nullptr;
        other.minCapacity_ = kMinCapacity;
    }''','''     : AllocPolicy(std::move(other)),
       capacity_(0),
       nelements_(0),
       ndeleted_(0),
       table_(nullptr),
       minCapacity_(kMinCapacity)
    {
        std::swap(capacity_, other.capacity_);
        std::swap(nelements_, other.nelements_);
        std::swap(ndeleted_, other.ndeleted_);
        std::swap(table_, other.table_);
        std::swap(minCapacity_, other.minCapacity_);
    }''')])
M('ht-two-phase-rehash','H01 H02 H03 H04 H05',[(HT,'''            if (oldEntry.isLive()) {
                Insert p = insertUnique(oldEntry.hash());
                p.entry().setHash(p.hash());
                p.entry().construct(std::move(oldEntry.payload()));
            }
            oldEntry.destruct();
        }
        this->am_free(oldTable);''','''            if (!oldEntry.isLive())
                continue;
            Insert p = insertUnique(oldEntry.hash());
            Entry& target = p.entry();
            target.setHash(p.hash());
            target.construct(std::move(oldEntry.payload()));
        }
        for (uint32_t i = oldCapacity; i-- > 0;)
            oldTable[i].destruct();
        this->am_free(oldTable);''')])
M('ht-lookup-one-loop','H01 H02 H03 H04 H05',[(HT,'''        Entry* e = &table_[probulator.entry()];
        for (;;) {
            if (e->isFree())
                break;
            if (e->isLive() && e->sameHash(hash) && HashPolicy::matches(key, e->payload())) {
                return Result(e);
            }
            e = &table_[probulator.next()];
        }

        return Result(e);
    }''','''        uint32_t slot = probulator.entry();
        while (!table_[slot].isFree() && !holds(table_[slot], hash, key))
            slot = probulator.next();
        return Result(&table_[slot]);
    }

    template <typename Key>
    static bool holds(const Entry& e, uint32_t hash, const Key& key) {
        return e.isLive() && e.sameHash(hash) && HashPolicy::matches(key, const_cast<Entry&>(e).payload());
    }''')])
M('ht-removed-reuse-last','H01 H02 H03 H04 H05',[(HT,'''                if (!firstRemoved)
                    firstRemoved = e;''','''                firstRemoved = e;''')])
M('fn-destroy-first-null','R02',[(F,'''    Function& operator =(T&& other) {
        replace(Function(std::forward<T>(other)));''','''    Function& operator =(T&& other) {
        Function replacement(std::forward<T>(other));
        zap();
        move(std::move(replacement));''')])
M('fn-replace-other-order','R02',[(F,'''        Function old(std::move(*this));
        move(std::move(other));''','''        Function taken(std::move(other));
        zap();
        move(std::move(taken));''')])
M('fn-assign-from-copy','R02',[(F,'''        if (this != &other)
            replace(Function(other));''','''        if (this == &other)
            return *this;
        Function old(std::move(*this));
        if (other)
            impl_ = other.impl_->clone(other.usingInlineStorage() ? inline_buffer() : nullptr);''')])
M('rc-helpers','R01 O01',[(RC,'''        assert(refcount_ > 0);
        if (--refcount_ == 0)
            delete static_cast<T*>(this);''','''        assert(refcount_ != 0);
        refcount_ = refcount_ - 1;
        if (refcount_)
            return;
        T* self = static_cast<T*>(this);
        delete self;'''),(RC,'''        T* old = thing_;
        thing_ = thing;
        if (old)
            old->Release();''','''        AlreadyRefed<T> old(thing_);
        thing_ = thing;''')])
M('maybe-assign-through','R03',[(MB,'''    Maybe& operator =(const Maybe& other) {
        if (this != &other) {
            reset();
            copyFrom(other);
        }
        return *this;
    }''','''    Maybe& operator =(const Maybe& other) {
        if (this == &other)
            return *this;
        if (!other.initialized_) {
            reset();
            return *this;
        }
        Maybe copy(other);
        reset();
        moveFrom(std::move(copy));
        return *this;
    }''')])
M('fa-helpers','R04',[(FA,'''        size_ = other.size_;
        data_ = other.data_;
        failed_ = other.failed_;
        other.size_ = 0;
        other.data_ = nullptr;
        other.failed_ = false;
        return *this;''','''        size_ = std::exchange(other.size_, size_t(0));
        data_ = std::exchange(other.data_, nullptr);
        failed_ = std::exchange(other.failed_, false);
        return *this;'''),(FA,'''            data_[i].~T();''','''            (data_ + i)->~T();'''),(FA,'if (size_ != other.size() || failed_) {','if (true) {')])
M('str-vsnprintf-always-null','S02',[(S,'''    char tmp[2];
    // Note: GCC incorrectly errors on this code, so suppress the warning.
    int len = vsnprintf(tmp, sizeof(tmp), fmt, ap);''','''    int len = vsnprintf(nullptr, 0, fmt, ap);'''),(S,'''    if (len == 0) {
        auto buffer = std::make_unique<char[]>(1);
        buffer[0] = '\\0';
        va_end(argv);
        return buffer;
    }

''','')])
M('str-join-append','S03 A03',[(S,'''    std::string buffer(buffer_len, '\\0');

    char* iter = &buffer[0];
#if !defined(NDEBUG)
    char* end = iter + buffer_len;
#endif
    for (size_t i = 0; i < pieces.size(); i++) {
        memcpy(iter, pieces[i].c_str(), pieces[i].size());
        iter += pieces[i].size();

        if (i != pieces.size() - 1) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
    }
    assert(iter == end);
    return buffer;''','''    std::string buffer;
    buffer.reserve(buffer_len);
    const char* between = "";
    for (const std::string& piece : pieces) {
        buffer += between;
        buffer += piece;
        between = sep;
    }
    return buffer;''')])
M('str-copyn','S01',[(S,'''    while (--count && n-- && *src)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''','''    if (n > count - 1)
        n = count - 1;
    while (n > 0 && *src != '\\0') {
        *iter++ = *src++;
        n--;
    }
    *iter = '\\0';
    return size_t(iter - dest);''')])
M('path-transform','S05',[(PA,'''    for (size_t i = 0; i < len; i++) {
#if defined(KE_WINDOWS)
        if (dest[i] == '/')
            dest[i] = '\\\\';
#else
        if (dest[i] == '\\\\')
            dest[i] = '/';
#endif
    }
''','''#if defined(KE_WINDOWS)
    const char from = '/', to = '\\\\';
#else
    const char from = '\\\\', to = '/';
#endif
    for (char* p = dest; p != dest + len; ++p)
        *p = *p == from ? to : *p;
''')])
M('err-own-buffer','S05',[('amtl/os/am-system-errors.h','''    const char* ptr = strerror_r(code, error, maxlength);
    if (ptr != error)
        ke::SafeSprintf(error, maxlength, "%s", ptr);''','''    char text[256];
    ke::SafeStrcpy(error, maxlength, strerror_r(code, text, sizeof(text)));''')])
M('pq-swap-both','C02',[(PQ,'''            impl_[0] = std::move(impl_.back());
            impl_.pop_back();
            propagateDown(0);''','''            T last = std::move(impl_.back());
            impl_.pop_back();
            impl_.front() = std::move(last);
            propagateDown(0);''')])
M('arg-halt-flag','A01 A02',[(AP,'''        if (option->haltOnValue()) {
            halted_on_value = true;
            break;
        }
    }

    if (!halted_on_value && positional''','''        halted_on_value = option->haltOnValue();
        if (halted_on_value)
            break;
    }

    bool unfilled = positional < positionals_.size();
    if (!halted_on_value && unfilled && positional''')])
M('arg-find-string','A01 A02',[(AP,'''        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }''','''        if (std::string(long_form, len) == option->long_form())
            return option;'''),(AP,'''        if (strlen(option->short_form()) == len &&
            strncmp(option->short_form(), short_form, len) == 0) {
            return option;
        }''','''        if (std::string(option->short_form()) == std::string(short_form, len))
            return option;''')])
M('lib-close-helper','O01',[(SL,'lib_ = dlopen(path, RTLD_NOW);','lib_ = dlopen(path, RTLD_NOW | RTLD_LOCAL);')])

# Batch n: thread code in other idioms, and code around earlier repairs.
def N(n,c,*e): ref('n-'+n,c,list(e))
N('ts-fences','T01',(TS,"""        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
            delete static_cast<T*>(this);""","""        if (refcount_.fetch_sub(1, std::memory_order_release) == 1) {
            std::atomic_thread_fence(std::memory_order_acquire);
            delete static_cast<T*>(this);"""),(TS,'        refcount_ += 1;','        refcount_.fetch_add(1, std::memory_order_relaxed);'))
N('ts-predecrement','T01',(TS,'if (refcount_.fetch_sub(1) == 1) {','if (--refcount_ == 0) {'),(TS,'        refcount_ += 1;','        ++refcount_;'))
N('ts-cas-release','T01',(TS,"""        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
            delete static_cast<T*>(this);
            return false;
        }
        return true;""","""        size_t count = refcount_.load();
        while (!refcount_.compare_exchange_weak(count, count - 1))
            continue;
        if (count != 1)
            return true;
        delete static_cast<T*>(this);
        return false;"""))
N('ts-last-owner-shortcut','T01',(TS,"""        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
            delete static_cast<T*>(this);""","""        if (refcount_.load(std::memory_order_acquire) == 1 || refcount_.fetch_sub(1) == 1) {
            delete static_cast<T*>(this);"""))
N('aref-test-then-set','T02',(TS,"""        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);""","""        for (;;) {
            void* seen = thing_.load(std::memory_order_relaxed);
            if (seen == untagged(seen) &&
                thing_.compare_exchange_weak(seen, tagged(seen), std::memory_order_acquire,
                                             std::memory_order_relaxed))
            {
                return reinterpret_cast<T*>(seen);
            }
            std::this_thread::yield();
        }"""))
N('aref-release-store','T02',(TS,'        thing_ = ptr;\n','        thing_.store(ptr, std::memory_order_release);\n'))
N('aref-old-in-refptr','T02',(TS,"""        T* value = lock();
        if (other)
            other->AddRef();
        unlock(other);
        if (value)
            value->Release();""","""        if (other)
            other->AddRef();
        AlreadyRefed<T> old(lock());
        unlock(other);"""))
N('aref-exchange-spin','T02',(TS,"""        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);""","""        void* locked = tagged(nullptr);
        void* seen;
        while ((seen = thing_.exchange(locked, std::memory_order_acquire)) == locked)
            std::this_thread::yield();
        return reinterpret_cast<T*>(seen);"""),(TS,'        assert(thing_ == tagged(thing_));\n',''))
N('tl-acquire-twice','T03',(TL,"""        int state = allocated_.load(std::memory_order_acquire);
        while (state != kAllocated) {""","""        if (allocated_.load(std::memory_order_acquire) == kAllocated)
            return true;
        int state = allocated_.load();
        while (state != kAllocated) {"""))
N('tl-seq-cst','T03',(TL,'std::memory_order_acquire','std::memory_order_seq_cst'),(TL,'std::memory_order_release','std::memory_order_seq_cst'))
N('tl-once-style','T03',(TL,"""            if (state == kAllocating) {
                std::this_thread::yield();
                state = allocated_.load(std::memory_order_acquire);
                continue;
            }
            if (!allocated_.compare_exchange_strong(state, kAllocating, std::memory_order_acquire))
                continue;""","""            state = kUnallocated;
            if (!allocated_.compare_exchange_weak(state, kAllocating, std::memory_order_acq_rel)) {
                if (state == kAllocating)
                    std::this_thread::yield();
                continue;
            }"""))
N('mutex-relaxed-owner','T04',('amtl/am-mutex.h','       std::mutex::lock();\n       owner_ = std::this_thread::get_id();','       std::mutex::lock();\n       owner_.store(std::this_thread::get_id(), std::memory_order_relaxed);'),('amtl/am-mutex.h','assert(owner_ == std::this_thread::get_id());','assert(owner_.load(std::memory_order_relaxed) == std::this_thread::get_id());'))
N('mutex-member-lock','T04',('amtl/am-mutex.h','           return false;\n       owner_ = std::this_thread::get_id();\n       return true;','           return false;\n       auto self = std::this_thread::get_id();\n       owner_.exchange(self);\n       return owner_ == self;'))
N('thread-shared-state','T05',('amtl/am-thread.h',"""    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));""","""    auto state = std::make_shared<decltype(callback)>(std::move(callback));
    std::string copy(name);
    return std::unique_ptr<std::thread>(new std::thread([fn, state, copy]() { fn(copy, std::move(*state)); }));"""))
N('thread-strdup','T05',('amtl/am-thread.h','        SetThreadName(name.c_str());\n        callback();','        SetThreadName(name.data());\n        auto run = std::move(callback);\n        run();'))
N('fn-clone-in-copy','R02',(F,'        impl_ = nullptr;\n    }\n\n    // Take','        impl_ = decltype(impl_)();\n    }\n\n    // Take'),(F,"""    Function& operator =(decltype(nullptr)) {
        replace(Function());
        return *this;""","""    Function& operator =(decltype(nullptr)) {
        zap();
        return *this;"""))
N('fn-swap-impl','R02',(F,"""        Function old(std::move(*this));
        move(std::move(other));""","""        Function taken(std::move(other));
        Function old(std::move(*this));
        move(std::move(taken));"""))
N('fn-heap-unique','R02',(F,"""            impl_ = new ImplType(std::forward<T>(obj));""","""            auto* holder = new ImplType(std::forward<T>(obj));
            impl_ = holder;"""),(F,"""            impl_ = reinterpret_cast<ImplType*>(inline_buffer());
            new (inline_buffer()) ImplType(std::forward<T>(obj));""","""            impl_ = new (inline_buffer()) ImplType(std::forward<T>(obj));"""))
N('flags-int-store','N03',('amtl/am-flags.h',"""        *this = *this + other;
        return *this;""","""        value_ = static_cast<T>(bits() | other.bits());
        return *this;"""),('amtl/am-flags.h','bits() & (bits() ^ other.bits())','bits() & ~other.bits()'))
N('guard-bool-armed','R05',(RA,"""        if (!cancelled_)
            callback_();""","""        if (cancelled_)
            return;
        cancelled_ = true;
        callback_();"""))
N('savers-pointer-check','R05',(RA,"""       old_(*location)
    {
        *location_ = value;""","""       old_(*location_)
    {
        T fresh(value);
        *location_ = fresh;"""))
N('ht-clear-live-only','H01 H02 H03 H05',(HT,"""        for (size_t i = 0; i < capacity_; i++) {
            table_[i].setFree();
        }""","""        Entry* last = table_ + capacity_;
        for (Entry* e = table_; e != last; e++)
            e->setFree();"""))
N('ht-create-fill','H01 H04',(HT,"""        Entry* table = (Entry*)this->am_malloc(capacity * sizeof(Entry));
        if (!table)
            return nullptr;

        for (size_t i = 0; i < capacity; i++)
            table[i].initialize();

        return table;""","""        size_t bytes = size_t(capacity) * sizeof(Entry);
        void* memory = this->am_malloc(bytes);
        Entry* table = static_cast<Entry*>(memory);
        for (Entry* e = table; table && e < table + capacity; e++)
            e->initialize();
        return table;"""))
N('ht-remove-order','H01 H02 H03 H05',(HT,"""        assert(e.isLive());
        e.setRemoved();
        ndeleted_++;
        nelements_--;""","""        assert(e.isLive());
        nelements_--;
        ndeleted_++;
        e.setRemoved();"""))
N('ht-iterator-settle','H03',(HT,"""        void next() {
            do {
                i_++;
            } while (i_ < end_ && !i_->isLive());
        }""","""        void next() {
            i_++;
            settle();
        }
        void settle() {
            for (; i_ != end_; i_++) {
                if (i_->isLive())
                    return;
            }
        }"""))
N('fa-uninit-copy','R04',(FA,"""        for (size_t i = 0; i < size_; i++)
            new (&data_[i]) T(other[i]);
        return *this;""","""        std::uninitialized_copy(other.begin(), other.end(), begin());
        return *this;"""),(FA,'#include <utility>','#include <memory>\n#include <utility>'))
N('il-erase-helper','C01',('amtl/am-inlinelist.h',"""        IteratorType next = at;
        next++;

        remove(at.iter_);""","""        Node* gone = at.iter_;
        IteratorType next = at;
        ++next;
        remove(gone);"""))
N('pq-down-swap-move','C02',('amtl/am-priority-queue.h',"""            std::swap(impl_[bestChild], impl_[cursor]);""","""            T held(std::move(impl_[cursor]));
            impl_[cursor] = std::move(impl_[bestChild]);
            impl_[bestChild] = std::move(held);"""))
N('str-cat-strlen','S01',(S,"""    char* iter = dest;
    while (*iter)
        iter++;

    // Note""","""    char* iter = dest + strlen(dest);

    // Note"""))
N('str-case-transform','S04 A03',(S,"""    for (size_t i = 0; i < result.size(); i++)
        result[i] = toupper(result[i]);""","""    std::transform(result.begin(), result.end(), result.begin(),
                   [](unsigned char c) { return static_cast<char>(toupper(c)); });"""))
N('lib-open-early','O01',(SL,"""        RefPtr<SharedLib> lib = new SharedLib(path);
        if (!lib || !lib->valid()) {""","""        RefPtr<SharedLib> lib(new SharedLib(path));
        if (lib->valid())
            return lib.forget();
        {"""),(SL,"""            return nullptr;
        }
        return lib.forget();""","""            return nullptr;
        }"""))
N('fs-at','O02',(FS,'(stat(path, &s) == 0)','(fstatat(AT_FDCWD, path, &s, 0) == 0)'),(FS,'#include <sys/stat.h>','#include <fcntl.h>\n#include <sys/stat.h>'),(FS,'return mkdir(path, mode) == 0;','return mkdirat(AT_FDCWD, path, mode) == 0;'))
N('mul-wide','N01',('amtl/am-bits.h','    if (a <= 1 || b <= 1)\n        return true;\n\n    return a <= T(~T(0)) / b;','    T product;\n    return !__builtin_mul_overflow(a, b, &product);'))
N('assert-ternary','G01',('amtl/am-assert.h',"""            if (!(cond))            \\
                abort();            \\""","""            const bool held = (cond) ? true : false; \\
            if (!held) ::abort();            \\"""))
N('arg-switch-order','A01 A02 A03',(AP,"""            if (!option)
                return unrecognized_option(arg);
            if (!option->willRepeat())
                return option_already_specified(option);

            if (sep) {
                if (option->mustOmitValue())
                    return option_invalid_value(option, sep + 1);
                value_ptr = sep + 1;
            }""","""            if (option) {
                if (!option->willRepeat())
                    return option_already_specified(option);
                const char* given = sep ? sep + 1 : nullptr;
                if (given && option->mustOmitValue())
                    return option_invalid_value(option, given);
                if (given)
                    value_ptr = given;
            } else {
                return unrecognized_option(arg);
            }"""))

want=sys.argv[1:]
base=tempfile.mkdtemp(prefix='amtl-refac.')
subprocess.run(f'git clone -q /repo {base}/repo; mkdir {base}/verif; cd {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}; cp -a run.py checks.json known-findings.txt mc harness tools {base}/verif/; mkdir -p {base}/verif/evidence {base}/verif/replays',shell=True)
env=dict(os.environ,AMTL_REPO=f'{base}/repo',VERIF_SEED='1',VERIF_TIER='quick')
for name,checks,edits in R:
    if want and not any(name.startswith(w) for w in want): continue
    bad=False
    for f,a,b in edits:
        p=f'{base}/repo/{f}'; s=open(p).read()
        if a not in s: print(name,'TEXT NOT FOUND',f,a[:60]); bad=True; continue
        open(p,'w').write(s.replace(a,b))
    if not bad:
        for c in dict.fromkeys(checks):
            r=subprocess.run(['python3','run.py',c],cwd=f'{base}/verif',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
            print(name,c,'quiet' if r.returncode==0 else f'RC={r.returncode}\n'+r.stdout[-1500:],flush=True)
    subprocess.run(['git','-C',f'{base}/repo','checkout','-q','--','.'])
shutil.rmtree(base, ignore_errors=True)
