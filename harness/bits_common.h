// Families of bit patterns, closed under the shapes that matter to bit arithmetic.
#pragma once
#include <algorithm>
#include <vector>
#include <mc/core.h>

namespace bc {
template <class T> std::vector<T> patterns(int small) {
    constexpr int W = sizeof(T) * 8;
    std::vector<uint64_t> v;
    uint64_t mask = W == 64 ? ~0ULL : (1ULL << W) - 1;
    auto put = [&](uint64_t x) { v.push_back(x & mask); };
    for (int i = 0; i < W; i++)                               // a power of two and its neighbours
        for (int d = -3; d <= 3; d++) put((1ULL << i) + uint64_t(int64_t(d)));
    for (int lo = 0; lo < W; lo++)                            // every run of ones, and its complement
        for (int hi = lo; hi < W; hi++) {
            uint64_t run = ((hi == 63 ? ~0ULL : (1ULL << (hi + 1)) - 1) >> lo) << lo;
            put(run);
            put(~run);
        }
    for (int i = 0; i < W; i++) for (int j = 0; j < i; j++) put((1ULL << i) | (1ULL << j));   // two bits
    for (int k = 0; k <= small; k++) { put(k); put(~uint64_t(k)); put((1ULL << (W / 2)) + k); put((1ULL << (W / 2)) - k); put((1ULL << (W - 1)) + k); }
    for (uint64_t m : {0x5555555555555555ULL, 0x3333333333333333ULL, 0x0f0f0f0f0f0f0f0fULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL})
        for (int s = 0; s < W; s++) { put(m << s); put((m & mask) >> s); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return std::vector<T>(v.begin(), v.end());
}
}  // namespace bc
