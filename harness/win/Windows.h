// Stand-in for the parts of the Win32 API that AMTL uses, as documented by Microsoft.  The functions record what they are
// asked and take every outcome the documentation allows as a choice (see W01.cpp).
#pragma once
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>

typedef uint32_t DWORD;
typedef int BOOL;
typedef int32_t HRESULT;
#define SUCCEEDED(hr) (int32_t(hr) >= 0)
#define FAILED(hr) (int32_t(hr) < 0)
typedef pthread_t HANDLE;          // what std::thread::native_handle() gives here
typedef struct HINSTANCE__* HMODULE;
typedef intptr_t (*FARPROC)();
typedef const wchar_t* PCWSTR;
typedef void* LPVOID;
#define WINAPI

#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
#define FILE_ATTRIBUTE_READONLY 0x1
#define FILE_ATTRIBUTE_HIDDEN 0x2
#define FILE_ATTRIBUTE_SYSTEM 0x4
#define FILE_ATTRIBUTE_DIRECTORY 0x10
#define FILE_ATTRIBUTE_ARCHIVE 0x20
#define FILE_ATTRIBUTE_DEVICE 0x40
#define FILE_ATTRIBUTE_NORMAL 0x80
#define FILE_ATTRIBUTE_REPARSE_POINT 0x400
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
#define MAKELANGID(p, s) ((((uint16_t)(s)) << 10) | (uint16_t)(p))
#define TLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define ERROR_FILE_NOT_FOUND 2

HMODULE LoadLibraryA(const char* path);
BOOL FreeLibrary(HMODULE lib);
FARPROC GetProcAddress(HMODULE lib, const char* symbol);
DWORD GetLastError();
DWORD FormatMessageA(DWORD flags, const void* source, DWORD code, DWORD lang, char* buffer, DWORD size, va_list* args);
DWORD GetFileAttributesA(const char* path);
HANDLE GetCurrentThread();
DWORD TlsAlloc();
BOOL TlsFree(DWORD key);
void* TlsGetValue(DWORD key);
BOOL TlsSetValue(DWORD key, void* value);

// The real header renames functions like this too.
#define CreateDirectory CreateDirectoryA
