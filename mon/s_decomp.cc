// C13: block decomposition
#include "core.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
using namespace mon;
using exseis::utils::block_decomposition;
using exseis::utils::block_decomposition_location;

static void one(Ctx& c, size_t n, size_t np)
{
    std::vector<std::pair<size_t, size_t>> d;
    bool full = np <= 4096;
    size_t pos = 0, mn = size_t(-1), mx = 0;
    auto visit = [&](size_t r) {
        auto a = block_decomposition(n, np, r);
        auto b = exseis::utils::exseis_block_decomposition(n, np, r);
        c.check(a.global_offset == b.global_offset && a.local_size == b.local_size, "C13,C21", "c-api", "n=%zu np=%zu r=%zu: C and C++ differ", n, np, r);
        return a;
    };
    if (full) {
        for (size_t r = 0; r < np; r++) {
            auto a = visit(r);
            c.check(a.global_offset == pos || (a.local_size == 0 && a.global_offset == pos), "C13", "contiguous",
                    "range %zu over %zu processes: process %zu starts at %zu, previous ended at %zu", n, np, r, a.global_offset, pos);
            pos = a.global_offset + a.local_size;
            mn  = std::min(mn, a.local_size);
            mx  = std::max(mx, a.local_size);
            d.push_back({a.global_offset, a.local_size});
        }
        c.check(pos == n, "C13", "cover", "range %zu over %zu processes: ranges end at %zu", n, np, pos);
        c.check(mx - mn <= 1, "C13", "balance", "range %zu over %zu processes: sizes %zu..%zu", n, np, mn, mx);
    }
    auto loc = [&](size_t g) {
        auto l = block_decomposition_location(n, np, g);
        if (!c.check(l.rank < np, "C13", "owner-range", "n=%zu np=%zu index %zu: owner %zu", n, np, g, size_t(l.rank))) return;
        auto a = block_decomposition(n, np, l.rank);
        c.check(g >= a.global_offset && g - a.global_offset < a.local_size && g - a.global_offset == l.local_index, "C13", "owner",
                "n=%zu np=%zu index %zu: owner %zu local %zu but that process has [%zu,+%zu)", n, np, g, size_t(l.rank), size_t(l.local_index), a.global_offset, a.local_size);
        c.count("lookups");
    };
    if (n == 0) return;
    if (n <= 3000)
        for (size_t g = 0; g < n; g++) loc(g);
    else {
        for (int i = 0; i < 200; i++) loc(c.rng.next() % n);
        for (size_t i = 0; i < 20; i++) {
            loc(i);
            loc(n - 1 - i);
        }
        for (auto& x : d) {
            if (x.first < n) loc(x.first);
            if (x.second) loc(x.first + x.second - 1);
            if (&x - &d[0] > 300) break;
        }
        // neighbours of random ranges on huge process counts
        for (int i = 0; i < 50; i++) {
            size_t r = c.rng.next() % np;
            auto a   = block_decomposition(n, np, r);
            auto b   = r + 1 < np ? block_decomposition(n, np, r + 1) : a;
            if (r + 1 < np)
                c.check(b.global_offset == a.global_offset + a.local_size, "C13", "contiguous", "n=%zu np=%zu: process %zu [%zu,+%zu) next starts at %zu", n, np, r,
                        a.global_offset, a.local_size, b.global_offset);
            else
                c.check(a.global_offset + a.local_size == n, "C13", "cover", "n=%zu np=%zu: last ends at %zu", n, np, a.global_offset + a.local_size);
            c.check(a.local_size == n / np || a.local_size == n / np + 1, "C13", "balance", "n=%zu np=%zu process %zu has %zu", n, np, r, a.local_size);
            if (a.local_size) {
                loc(a.global_offset);
                loc(a.global_offset + a.local_size - 1);
            }
        }
    }
}

SCENARIO(decomp_small, "C13", 1, 64, 0.05)
{
    // every (n, np) of a square, tile by tile
    size_t t = c.case_no % 64;
    for (size_t n = (t % 8) * 12; n < (t % 8 + 1) * 12; n++)
        for (size_t np = 1 + (t / 8) * 12; np <= (t / 8 + 1) * 12; np++) {
            one(c, n, np);
            c.evaluation(splitmix(n * 1000 + np), n > 0);
        }
}
SCENARIO(decomp_random, "C13", 1, 64, 1)
{
    size_t np = c.rng.chance(0.3) ? 1 + c.rng.next() % 100000 : 1 + c.rng.next() % (c.rng.chance(0.5) ? 16 : 600);
    int bits  = c.rng.in(1, 62);
    size_t n  = c.rng.next() & ((size_t(1) << bits) - 1);
    if (c.rng.chance(0.3)) n = np * (c.rng.next() % 1000) + c.rng.in(-2, 2);
    if (n >> 63) n = 0;
    if (c.rng.chance(0.05)) n = (size_t(1) << c.rng.in(30, 62)) + c.rng.in(-2, 2);
    one(c, n, np);
    c.evaluation(splitmix(n * 31 + np), n > 0);
    c.sample("n=" + std::to_string(n) + " np=" + std::to_string(np));
}
