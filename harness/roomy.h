// For the few explorations of objects of more than 2 and 4 GiB.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

// Is that much memory free here?
inline bool roomy(long gib) {
    long kb = 0;
    if (FILE* f = fopen("/proc/meminfo", "r")) {
        char line[128];
        while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %ld kB", &kb) == 1) break;
        fclose(f);
    }
    return kb > gib * 1024 * 1024;
}

// A text that repeats the same piece, of which there is one copy, and ends with a NUL.
struct HugeText {
    static constexpr size_t kPiece = size_t(1) << 22;
    size_t pieces, length;
    char* p;
    HugeText(const char* alphabet, size_t count) : pieces(count), length(count * kPiece - 1) {
        p = (char*)mmap(nullptr, kPiece * pieces, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        int fd = memfd_create("text", 0);
        if (p == MAP_FAILED || fd < 0 || ftruncate(fd, kPiece)) abort();
        for (size_t i = 0; i < pieces; i++)
            if (mmap(p + i * kPiece, kPiece, PROT_READ | PROT_WRITE, MAP_FIXED | (i + 1 == pieces ? MAP_PRIVATE : MAP_SHARED), fd, 0) == MAP_FAILED) abort();
        close(fd);
        size_t n = strlen(alphabet);
        for (size_t i = 0; i < kPiece; i++) p[i] = alphabet[i * 7 % n];
        p[length] = '\0';
    }
    ~HugeText() { munmap(p, kPiece * pieces); }
    HugeText(const HugeText&) = delete;
};
