// W01: the Windows code paths, over stand-ins of the Win32 API that behave as Microsoft documents it.
#include "win/env.h"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

namespace {
// ---- the simulated system ----------------------------------------------------------------------------------------
struct Lib { std::string path; int refs; };
std::vector<Lib*> g_libs;               // every library ever loaded in this path of exploration
DWORD g_error;
bool g_fail_load;                       // outcome of the next LoadLibraryA
bool g_no_message;                      // FormatMessageA knows no text
bool g_no_symbol;
std::wstring g_desc;                    // what SetThreadDescription was last given
HANDLE g_desc_thread;
int g_desc_calls;
DWORD g_attr;
std::string g_attr_path;
int g_mkdir_result, g_mkdir_errno;
std::string g_mkdir_path;
int g_mkdir_calls;
bool g_tls_full;
struct Key { bool used; void* v[3]; };
Key g_keys[4];
int g_thread;                           // the simulated current thread

void reset_system() {
    for (Lib* l : g_libs) delete l;
    std::vector<Lib*>().swap(g_libs);
    g_error = 0; g_fail_load = g_no_message = g_no_symbol = g_tls_full = false;
    std::wstring().swap(g_desc); g_desc_calls = 0;
    std::string().swap(g_attr_path); std::string().swap(g_mkdir_path); g_mkdir_calls = 0;
    for (Key& k : g_keys) k = Key();
    g_thread = 0;
}
int references() { int n = 0; for (Lib* l : g_libs) n += l->refs; return n; }
std::string message(DWORD code) { return "System error number " + std::to_string(code) + ".\r\n"; }

int32_t g_desc_result;
int32_t set_description(HANDLE t, PCWSTR name) { g_desc_thread = t; g_desc = name; g_desc_calls++; return g_desc_result; }
int symbol_of(Lib* l, const char* name) { for (size_t k = 0; k < g_libs.size(); k++) if (g_libs[k] == l) return int(k) * 1000 + name[0]; return -1; }
}  // namespace

// Handles are addresses with the low bits in use, as those of modules mapped as data.
HMODULE handle(Lib* l) { return (HMODULE)(uintptr_t(l) + 1 + l->path.size() % 3); }
HMODULE LoadLibraryA(const char* path) {
    if (g_fail_load) { g_error = 126; return nullptr; }
    for (Lib* l : g_libs) if (l->path == path && l->refs > 0) { l->refs++; return handle(l); }
    g_libs.push_back(new Lib{path, 1});
    return handle(g_libs.back());
}
BOOL FreeLibrary(HMODULE h) {
    for (Lib* l : g_libs) if (handle(l) == h) { if (l->refs <= 0) mc::fail("a library is unloaded twice"); l->refs--; return 1; }
    mc::fail("unloading %p, which is no library", (void*)h);
    return 0;
}
FARPROC GetProcAddress(HMODULE h, const char* symbol) {
    Lib* found = nullptr;
    for (Lib* l : g_libs) if (handle(l) == h && l->refs > 0) found = l;
    if (!found) mc::fail("looking up %s in a library that is not loaded", symbol);
    if (g_no_symbol) { g_error = 127; return nullptr; }
    if (!strcmp(symbol, "SetThreadDescription")) return (FARPROC)set_description;
    return (FARPROC)(uintptr_t)(symbol_of(found, symbol) + 0x10000);
}
DWORD GetLastError() { return g_error; }
DWORD FormatMessageA(DWORD flags, const void*, DWORD code, DWORD, char* buffer, DWORD size, va_list*) {
    if (!(flags & FORMAT_MESSAGE_FROM_SYSTEM) || !(flags & FORMAT_MESSAGE_IGNORE_INSERTS)) mc::fail("FormatMessageA flags %#x", flags);
    std::string m = message(code);
    if (g_no_message || size < m.size() + 1) { g_error = g_no_message ? 317 : 122; return 0; }
    memcpy(buffer, m.c_str(), m.size() + 1);
    return DWORD(m.size());
}
DWORD GetFileAttributesA(const char* path) { g_attr_path = path; return g_attr; }
int mkdir(const char* path) { g_mkdir_path = path; g_mkdir_calls++; if (g_mkdir_result) errno = g_mkdir_errno; return g_mkdir_result; }
HANDLE GetCurrentThread() { return HANDLE(-2); }
DWORD TlsAlloc() {
    if (g_tls_full) return TLS_OUT_OF_INDEXES;
    for (DWORD k = 0; k < 4; k++) if (!g_keys[k].used) { g_keys[k] = Key(); g_keys[k].used = true; return k; }
    return TLS_OUT_OF_INDEXES;
}
BOOL TlsFree(DWORD k) { if (k >= 4 || !g_keys[k].used) mc::fail("freeing TLS index %u, which is not in use", k); g_keys[k].used = false; return 1; }
void* TlsGetValue(DWORD k) { if (k >= 4 || !g_keys[k].used) mc::fail("reading TLS index %u, which is not in use", k); return g_keys[k].v[g_thread]; }
BOOL TlsSetValue(DWORD k, void* v) { if (k >= 4 || !g_keys[k].used) mc::fail("writing TLS index %u, which is not in use", k); g_keys[k].v[g_thread] = v; return 1; }

// In this order each header has to find its own way to the platform definitions.
#include <errno.h>
#include <amtl/os/am-system-errors.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/am-thread.h>
#include <amtl/am-threadlocal.h>

namespace {
// ---- shared libraries -----------------------------------------------------------------------------------------------
void libraries(int depth) {
    reset_system();
    {
        ke::RefPtr<ke::SharedLib> h[2];
        Lib* m[2] = {nullptr, nullptr};
        int owners[8] = {};                          // model: handle objects alive per library load
        for (int k = 0; k < depth; k++) {
            int i = mc::choose(2);
            switch (mc::choose(6)) {
                case 0: {   // open
                    int form = mc::choose(3); g_fail_load = mc::flip(); g_no_message = g_fail_load && form == 2 && mc::flip();
                    const char* path = mc::flip() ? "one" : "two";
                    char buf[64]; memset(buf, 'Z', sizeof buf); size_t sizes[] = {1, 12, 19, 25, 26, 27, 64}; size_t size = form == 2 ? sizes[mc::choose(7)] : 64;
                    mc::op("h%d = Open(%s) %s", i, path, g_fail_load ? "failing" : "");
                    size_t before = g_libs.size(); int refs = references();
                    ke::AlreadyRefed<ke::SharedLib> r = form == 0 ? ke::SharedLib::Open(path) : form == 1 ? ke::SharedLib::Open(path, buf, 0) : ke::SharedLib::Open(path, buf, size);
                    if (g_fail_load) {
                        MC_CHECK(!r, "a failed open returned a handle");
                        MC_CHECK(references() == refs, "a failed open changed what is loaded");
                        if (form == 2) {
                            std::string want = message(126);
                            if (g_no_message || want.size() + 1 > size) want = std::string("error code 0000007e").substr(0, size - 1);
                            MC_CHECK(!strcmp(buf, want.c_str()), "error text is '%s', expected '%s'", buf, want.c_str());
                        } else size = 0;
                        for (size_t z = size; z < sizeof buf; z++) MC_CHECK(buf[z] == 'Z', "byte %zu beyond the buffer was written", z);
                    } else {
                        MC_CHECK(r, "a library that loads returned no handle");
                        for (char c : buf) MC_CHECK(c == 'Z', "the buffer was written although the library loaded");
                    }
                    h[i] = r; m[i] = nullptr;
                    if (!g_fail_load) for (Lib* l : g_libs) if (l->path == path && l->refs) m[i] = l;
                    (void)before;
                    g_fail_load = g_no_message = false;
                    break;
                }
                case 1: mc::op("h%d = h%d", i, 1 - i); h[i] = h[1 - i]; m[i] = m[1 - i]; break;
                case 2: mc::op("h%d = null", i); h[i] = nullptr; m[i] = nullptr; break;
                case 3: mc::op("h%d = move(h%d)", i, 1 - i); h[i] = std::move(h[1 - i]); m[i] = m[1 - i]; m[1 - i] = nullptr; break;
                case 4: {
                    if (!h[i]) mc::prune();
                    g_no_symbol = mc::flip();
                    mc::op("lookup in h%d%s", i, g_no_symbol ? ", absent" : "");
                    void* want = g_no_symbol ? nullptr : (void*)(uintptr_t)(symbol_of(m[i], "abc") + 0x10000);
                    MC_CHECK(h[i]->lookup("abc") == want && h[i]->get<char*>("abc") == want, "lookup");
                    g_no_symbol = false;
                    break;
                }
                case 5: {
                    mc::op("handles of their own");
                    ke::SharedLib none; MC_CHECK(!none.valid() && !none, "a default handle is valid");
                    int refs = references();
                    { ke::SharedLib own("three"); MC_CHECK(own.valid() && own && references() == refs + 1, "direct handle"); }
                    { ke::SharedLib adopted(LoadLibraryA("four")); MC_CHECK(adopted.valid(), "adopted handle"); }
                    MC_CHECK(references() == refs, "unloading direct handles");
                    break;
                }
            }
            (void)owners;
            // Each opened handle object holds one load; copies of the reference share it.
            std::set<ke::SharedLib*> objs;
            for (int j = 0; j < 2; j++) {
                MC_CHECK(!!h[j] == !!m[j], "handle %d", j);
                if (h[j]) { objs.insert(h[j].get()); MC_CHECK(h[j]->valid() && m[j]->refs > 0, "handle %d refers to an unloaded library", j); }
            }
            MC_CHECK(references() == int(objs.size()), "%d loads are outstanding for %zu open handles", references(), objs.size());
            mc::observe(references());
        }
    }
    MC_CHECK(references() == 0, "libraries are still loaded");
    reset_system();
}

// ---- error texts ------------------------------------------------------------------------------------------------------
void errors() {
    reset_system();
    static const int codes[] = {0, 1, 2, 126, 1314, -1, INT_MIN, INT_MAX};
    int code = codes[mc::choose(8)];
    g_no_message = mc::flip();
    bool current = mc::flip();
    mc::op("code %d%s%s", code, g_no_message ? ", unknown" : "", current ? ", as the current error" : "");
    for (size_t size = 0; size <= 48; size++) {
        char buf[64];
        memset(buf, 'Z', sizeof buf);
        g_error = DWORD(code);
        if (current) ke::FormatSystemError(buf, size); else ke::FormatSystemErrorCode(code, buf, size);
        std::string want = message(DWORD(code));
        char hex[32];
        snprintf(hex, sizeof hex, "error code %08x", unsigned(code));
        if (g_no_message || want.size() + 1 > size) want = std::string(hex).substr(0, size ? size - 1 : 0);
        if (size) MC_CHECK(!strcmp(buf, want.c_str()), "size %zu: text is '%.*s', expected '%s'", size, int(size), buf, want.c_str());
        for (size_t z = size; z < sizeof buf; z++) MC_CHECK(buf[z] == 'Z', "size %zu: byte %zu was written", size, z);
    }
    mc::evaluations(49);
    mc::state(code * 4u + g_no_message * 2 + current);
    reset_system();
}

// ---- files ------------------------------------------------------------------------------------------------------------
void files() {
    reset_system();
    static const DWORD bits[] = {FILE_ATTRIBUTE_READONLY, FILE_ATTRIBUTE_HIDDEN, FILE_ATTRIBUTE_SYSTEM, FILE_ATTRIBUTE_DIRECTORY, FILE_ATTRIBUTE_ARCHIVE, FILE_ATTRIBUTE_DEVICE, FILE_ATTRIBUTE_NORMAL, FILE_ATTRIBUTE_REPARSE_POINT};
    int k = mc::choose(257);
    g_attr = 0;
    if (k == 256) g_attr = INVALID_FILE_ATTRIBUTES; else for (int b = 0; b < 8; b++) if (k >> b & 1) g_attr |= bits[b];
    const char* path = mc::flip() ? "some\\path" : "";
    mc::op("attributes %#x", g_attr);
    bool there = k != 256, dir = there && (g_attr & FILE_ATTRIBUTE_DIRECTORY), dev = there && (g_attr & FILE_ATTRIBUTE_DEVICE);
    MC_CHECK(ke::file::PathExists(path) == there && g_attr_path == path, "PathExists");
    g_attr_path = "-";
    MC_CHECK(ke::file::IsFile(path) == (there && !dir && !dev) && g_attr_path == path, "IsFile");
    g_attr_path = "-";
    MC_CHECK(ke::file::IsDirectory(path) == (dir && !dev) && g_attr_path == path, "IsDirectory");
    for (int e : {0, EEXIST, ENOENT, EACCES, ENOSPC}) {      // 0: created; an error that was there before means nothing
        int r = e ? -1 : 0;
        g_mkdir_result = r; g_mkdir_errno = e; g_mkdir_calls = 0;
        errno = e ? 0 : EEXIST;
        MC_CHECK(ke::file::CreateDirectory(path) == (r == 0) && g_mkdir_path == path && g_mkdir_calls == 1, "CreateDirectory");
        MC_CHECK(ke::file::CreateDirectory(path, 0700) == (r == 0) && g_mkdir_calls == 2, "CreateDirectory with a mode");
    }
    mc::state(k);
    mc::evaluations(7);
    reset_system();
}

// ---- paths ------------------------------------------------------------------------------------------------------------
size_t path_va(char* b, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t r = ke::path::FormatVa(b, n, fmt, ap);
    va_end(ap);
    return r;
}
void paths() {
    static const char* const alphabets[] = {"a/\\.", "/:\\Z", "/ %\xe4"};
    const char* alphabet = alphabets[mc::choose(3)];
    int len = mc::choose(mc::thorough() ? 9 : 7);
    uint64_t total = 1, n = 0;
    for (int k = 0; k < len; k++) total *= 4;
    for (uint64_t x = 0; x < total; x++) {
        std::string s, want;
        uint64_t y = x;
        for (int k = 0; k < len; k++, y /= 4) { s += alphabet[y % 4]; want += alphabet[y % 4] == '/' ? '\\' : alphabet[y % 4]; }
        for (size_t size = 0; size <= size_t(len) + 2; size++)
            for (int form = 0; form < 2; form++) {
                char buf[24];
                memset(buf, '/', sizeof buf);
                size_t r = form ? path_va(buf + 4, size, "%s", s.c_str()) : ke::path::Format(buf + 4, size, "%s", s.c_str());
                std::string w = size ? want.substr(0, size - 1) : "";
                if (r != w.size() || (size && strcmp(buf + 4, w.c_str()))) mc::fail("path %s in %zu bytes: %zu, '%.*s'", s.c_str(), size, r, int(size), buf + 4);
                for (int z = 0; z < 4; z++) if (buf[z] != '/' || buf[4 + std::max(size, w.size()) + z] != '/') mc::fail("path %s in %zu bytes: written outside the buffer", s.c_str(), size);
                n++;
            }
    }
    mc::evaluations(n);
    mc::op("paths of length %d over %s", len, alphabet);
    mc::state(len);
}

// ---- thread names ---------------------------------------------------------------------------------------------------
void names() {
    reset_system();
    static const struct { const char* utf8; const wchar_t* utf16; } table[] = {
        {"", L""}, {"worker", L"worker"}, {"a name that is longer than fifteen characters", L"a name that is longer than fifteen characters"},
        {"\xc3\xa9", L"\x00e9"}, {"x\xe2\x82\xac", L"x\x20ac"}, {"\xf0\x9f\x98\x80!", L"\xd83d\xde00!"},
        // not UTF-8: no name can be set, and nothing may escape
        {"\xff", nullptr}, {"abc\xc3", nullptr}, {"\x80xyz", nullptr}, {"\xe9t\xe9", nullptr}};
    int k = mc::choose(10), what = mc::choose(4);
    g_desc_result = what == 3 ? int32_t(0x80070057) : 0;      // the system refuses the name
    g_fail_load = what == 1; g_no_symbol = what == 2;
    mc::op("name %d, %s", k, what == 1 ? "no library" : what == 2 ? "no such function" : what == 3 ? "refused" : "ok");
    try { ke::SetThreadName(table[k].utf8); } catch (std::exception& e) { mc::fail("naming the thread threw %s", e.what()); }
    if (what == 1 || what == 2) MC_CHECK(g_desc_calls == 0, "a name was set");
    else if (table[k].utf16) {
        MC_CHECK(g_desc_calls == 1 && g_desc == table[k].utf16, "the thread's name is not the one asked for");
        MC_CHECK(g_desc_thread == GetCurrentThread(), "another thread was named");
    }
    MC_CHECK(references() == 0, "the library was left loaded");
    mc::state(k * 4 + what);
    reset_system();
    if (k || what) return;
    for (size_t n = 0; n <= 300; n++)       // names of every length
        for (int u = 0; u < 2; u++) {
            std::string in;
            std::wstring want;
            for (size_t c = 0; c < n; c++) {
                if (u && c % 3 == 1) { in += "\xc3\xa9"; want += wchar_t(0xe9); } else { in += char('a' + c % 26); want += wchar_t('a' + c % 26); }
            }
            ke::SetThreadName(in.c_str());
            if (g_desc != want) mc::fail("a name of %zu characters was cut or changed", n);
        }
    if (references()) mc::fail("the library was left loaded");
    mc::evaluations(602);
    reset_system();
}

#ifdef W_MSVC
// ---- thread-local storage -------------------------------------------------------------------------------------------
template <class T> T value(int k);
template <> int value<int>(int k) { static const int v[] = {0, 1, -1, INT_MIN, INT_MAX}; return v[k]; }
template <> int* value<int*>(int k) { static int x[5]; return k ? &x[k] : nullptr; }
template <> uint8_t value<uint8_t>(int k) { static const uint8_t v[] = {0, 1, 255, 128, 7}; return v[k]; }
template <class T> void tls(int depth) {
    reset_system();
    {
        mc::Slot<ke::ThreadLocal<T>> v[2];
        int m[2][3] = {};
        bool made[2] = {};
        v[0].emplace(); v[1].emplace();
        for (int k = 0; k < depth; k++) {
            int i = mc::choose(2);
            g_thread = mc::choose(3);
            switch (mc::choose(4)) {
                case 0: { int x = mc::choose(5); mc::op("thread %d: v%d.set(%d)", g_thread, i, x); v[i]->set(value<T>(x)); m[i][g_thread] = x; made[i] = true; break; }
                case 1: { int x = mc::choose(5); mc::op("thread %d: v%d = %d", g_thread, i, x); *v[i] = value<T>(x); m[i][g_thread] = x; made[i] = true; break; }
                case 2: g_tls_full = mc::flip(); mc::op("thread %d: v%d.allocate()%s", g_thread, i, g_tls_full ? ", none left" : "");
                    MC_CHECK(v[i]->allocate() == (made[i] || !g_tls_full), "allocate"); made[i] |= !g_tls_full; g_tls_full = false; break;
                case 3: mc::op("v%d recreated", i); v[i].emplace(); made[i] = false; for (int& x : m[i]) x = 0; break;
            }
            int used = 0;
            for (Key& key : g_keys) used += key.used;
            MC_CHECK(used == made[0] + made[1], "%d system slots in use", used);
            for (int j = 0; j < 2; j++) for (g_thread = 0; g_thread < 3; g_thread++) {
                T want = value<T>(m[j][g_thread]);
                MC_CHECK(v[j]->get() == want && **v[j] == want && *v[j] == want && !(*v[j] != want) && !*v[j] == !want, "thread %d reads a wrong value from variable %d", g_thread, j);
                mc::observe(m[j][g_thread]);
            }
        }
    }
    for (Key& key : g_keys) MC_CHECK(!key.used, "a system slot was not given back");
    reset_system();
}
#endif
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("libraries", [t] { libraries(t ? 4 : 3); }, 0, 3);
    mc::add("errors", errors, 0, 1);
    mc::add("files", files, 0, 1);
    mc::add("paths", paths, 0, 1);
    mc::add("names", names, 0, 1);
#ifdef W_MSVC
    mc::add("tls-int", [t] { tls<int>(t ? 4 : 3); }, 0, 2);
    mc::add("tls-pointer", [t] { tls<int*>(t ? 4 : 3); }, 0, 2);
    mc::add("tls-byte", [t] { tls<uint8_t>(t ? 4 : 3); }, 0, 2);
#endif
}
