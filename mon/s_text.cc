// C19: text headers and character conversion, against tables written from the code charts
#include "lib.hh"

#include "ExSeisDat/utils/encoding/character_encoding.hh"
using namespace mon;
using namespace lib;

namespace {
struct Table {
    int a2e[256], e2a[256];  // -1: no equivalent
    void put(int a, int e)
    {
        a2e[a] = e;
        e2a[e] = a;
    }
    Table()
    {
        for (int i = 0; i < 256; i++) a2e[i] = e2a[i] = -1;
        static const int ctl[32] = {0x00, 0x01, 0x02, 0x03, 0x37, 0x2d, 0x2e, 0x2f, 0x16, 0x05, 0x25, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f,
                                    0x10, 0x11, 0x12, 0x13, 0x3c, 0x3d, 0x32, 0x26, 0x18, 0x19, 0x3f, 0x27, 0x1c, 0x1d, 0x1e, 0x1f};
        for (int i = 0; i < 32; i++) put(i, ctl[i]);
        put(0x7f, 0x07);
        put(' ', 0x40);
        static const char* row4 = ".<(+|";
        static const char* row5 = "!$*);";
        static const char* row6 = ",%_>?";
        static const char* row7 = "`:#@'=\"";
        for (int i = 0; i < 5; i++) put(row4[i], 0x4b + i);
        for (int i = 0; i < 5; i++) put(row5[i], 0x5a + i);
        for (int i = 0; i < 5; i++) put(row6[i], 0x6b + i);
        for (int i = 0; i < 7; i++) put(row7[i], 0x79 + i);
        put('&', 0x50);
        put('-', 0x60);
        put('/', 0x61);
        for (int i = 0; i < 9; i++) {
            put('a' + i, 0x81 + i);
            put('j' + i, 0x91 + i);
            put('A' + i, 0xc1 + i);
            put('J' + i, 0xd1 + i);
        }
        for (int i = 0; i < 8; i++) {
            put('s' + i, 0xa2 + i);
            put('S' + i, 0xe2 + i);
        }
        for (int i = 0; i < 10; i++) put('0' + i, 0xf0 + i);
        put('~', 0xa1);
        put('{', 0xc0);
        put('}', 0xd0);
        put('\\', 0xe0);
    }
    static bool prt(int a) { return a >= 0x20 && a <= 0x7e; }
    bool eprt(int e) const { return e2a[e] >= 0 && prt(e2a[e]); }
};
const Table T;

// printable characters in either reading
void votes(const std::string& t, int* a, int* e)
{
    *a = *e = 0;
    for (unsigned char ch : t) {
        *a += Table::prt(ch);
        *e += T.eprt(ch);
    }
}
std::string to_ebcdic(std::string t)
{
    for (auto& ch : t) {
        int e = T.a2e[(unsigned char)ch];
        ch    = char(e < 0 ? 0x3f : e);
    }
    return t;
}
std::string printable(Rng& r, size_t n)
{
    int style = r.in(0, 4);
    std::string s;
    for (size_t i = 0; i < n; i++) {
        if (style == 0) s += char(r.in(0x20, 0x7e));
        else if (style == 1) s += i % 80 == 0 ? 'C' : r.chance(0.6) ? ' ' : char(r.in('A', 'Z'));
        else if (style == 2) s += i % 80 == 79 ? '\n' : char(r.in('a', 'z'));
        else if (style == 3) s += r.chance(0.9) ? ' ' : char(r.in(0x21, 0x7e));
        else s += char(r.in('0', '9'));
    }
    return s;
}
}  // namespace

SCENARIO(text_chars, "C19", 1, 1, 0.1)
{
    using namespace exseis::utils;
    for (int ch = 0; ch < 256; ch++) {
        int e = to_EBCDIC_from_ASCII(ch), a = to_ASCII_from_EBCDIC(ch);
        // 0xff (eight ones) may be kept or substituted
        if (ch != 0xff) {
            int we = T.a2e[ch] < 0 ? 0x3f : T.a2e[ch], wa = T.e2a[ch] < 0 ? 0x1a : T.e2a[ch];
            c.check(e == we, "C19", "to-ebcdic", "ASCII 0x%02x becomes EBCDIC 0x%02x, expected 0x%02x%s", ch, e, we, T.a2e[ch] < 0 ? " (substitute)" : "");
            c.check(a == wa, "C19", "to-ascii", "EBCDIC 0x%02x becomes ASCII 0x%02x, expected 0x%02x%s", ch, a, wa, T.e2a[ch] < 0 ? " (substitute)" : "");
            if (T.a2e[ch] >= 0) c.check(to_ASCII_from_EBCDIC(e) == ch, "C19", "round-trip", "ASCII 0x%02x comes back as 0x%02x", ch, to_ASCII_from_EBCDIC(e));
            if (T.e2a[ch] >= 0) c.check(to_EBCDIC_from_ASCII(a) == ch, "C19", "round-trip", "EBCDIC 0x%02x comes back as 0x%02x", ch, to_EBCDIC_from_ASCII(a));
        }
        c.check(is_printable_ASCII(ch) == Table::prt(ch), "C19", "printable", "ASCII 0x%02x: printable %d", ch, int(is_printable_ASCII(ch)));
        c.check(is_printable_EBCDIC(ch) == T.eprt(ch), "C19", "printable", "EBCDIC 0x%02x: printable %d", ch, int(is_printable_EBCDIC(ch)));
        c.evaluation(splitmix(ch + 77));
    }
    c.count("conversion_tables");
}

SCENARIO(text_write, "C19,C01,C02", 1, 3, 1)
{
    Rng& r = c.rng;
    size_t n = r.chance(0.1) ? 0 : r.chance(0.2) ? 3200 : r.chance(0.1) ? r.in(3198, 3202) : r.chance(0.2) ? r.in(3201, 9000) : r.chance(0.3) ? r.in(1, 12) : r.in(1, 3199);
    std::string t = printable(r, n);
    if (n && r.chance(0.2))
        for (int k = 0; k < 5; k++) t[r.next() % n] = char(r.in(0, 31));  // tabs, line ends, zeros
    std::string want = t, path = c.path("t.segy");
    want.resize(3200, '\0');
    int na, ne;
    votes(want, &na, &ne);
    auto piol = new_piol();
    {
        auto w = open_write(piol, path, DataCfg());
        if (r.chance(0.3)) w->writeText(printable(r, r.in(0, 4000)));  // the last text counts
        if (r.chance(0.3)) {
            w->writeNs(r.in(1, 5));
            w->writeText(t);
            w->writeInc(0.002);
        }
        else {
            w->writeText(t);
            w->writeNs(r.in(1, 5));
        }
        w->writeNt(0);
        if (r.chance(0.2)) w->writeText(t);
    }
    barrier();
    Bytes b = slurp(path);
    bool ok = b.size() >= 3200 && std::equal(want.begin(), want.end(), b.begin(), [](char x, unsigned char y) { return (unsigned char)x == y; });
    c.check(ok, "C19,C02,C01", "stored", "a text of %zu characters is not stored as it is, padded or cut to 3200 bytes", n);
    // text that is printable in EBCDIC to the same extent cannot be told from EBCDIC
    if (na > ne || (na == 0 && ne == 0 && n == 0)) {
        auto f = open_read(piol, path, DataCfg());
        std::string got = f->readText();
        size_t k = 0;
        while (k < 3200 && k < got.size() && got[k] == want[k]) k++;
        c.check(got == want, "C19,C01", "written-read", "a text of %zu characters (%d printable) is read back with %zu characters, the first %zu the same", n, na, got.size(), k);
        c.count("texts_written_and_read");
    }
    else c.count("texts_ambiguous");
    c.check(!piol->log->isErr(), "C19,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.evaluation(hash_bytes(t.data(), t.size()) ^ splitmix(c.np), n > 0);
    barrier();
}

SCENARIO(text_read, "C19,C02", 1, 3, 1)
{
    Rng& r = c.rng;
    std::string raw, want, what;
    int k = r.in(0, 4);
    if (k == 0) {  // anything
        raw.resize(3200);
        int s = r.in(0, 2), lo = r.in(0, 255), hi = r.in(lo, 255);
        for (auto& ch : raw) ch = char(s == 0 ? r.in(0, 255) : s == 1 ? r.in(lo, hi) : r.chance(0.5) ? 0 : r.in(0, 255));
        what = "arbitrary bytes";
    }
    else {
        raw = printable(r, r.chance(0.5) ? 3200 : r.in(1, 3200));
        raw.resize(3200, r.chance(0.7) ? ' ' : '\0');
        if (r.chance(0.3))
            for (int i = 0; i < 20; i++) raw[r.next() % 3200] = char(r.in(0, 255));
        what = "ASCII text";
        if (k >= 2) {
            raw  = to_ebcdic(raw);
            what = "EBCDIC text";
            if (r.chance(0.3))
                for (int i = 0; i < 20; i++) raw[r.next() % 3200] = char(r.in(0, 255));
        }
    }
    int na, ne;
    votes(raw, &na, &ne);
    want = raw;
    if (na <= ne)
        for (auto& ch : want) {
            int a = T.e2a[(unsigned char)ch];
            ch    = char(a < 0 ? 0x1a : a);
        }
    Bytes b = segy::header("", 2, 1000, 5);
    for (int i = 0; i < 3200; i++) b[i] = raw[i];
    std::string path = c.path("r.segy");
    spew0(c, path, b);
    auto piol = new_piol();
    {
        auto f = open_read(piol, path, DataCfg());
        std::string got = f->readText();
        bool ff = false;
        size_t i = 0;
        for (; i < 3200 && i < got.size(); i++) {
            if ((unsigned char)raw[i] == 0xff) { ff = true; continue; }
            if (got[i] != want[i]) break;
        }
        if (na != ne) c.check(got.size() == 3200 && i == 3200, "C19,C02", na > ne ? "read-ascii" : "read-ebcdic", "%s (%d characters printable as ASCII, %d as EBCDIC): character %zu of %zu is 0x%02x in the file and read as 0x%02x, expected 0x%02x", what.c_str(), na, ne, i, got.size(), i < 3200 ? raw[i] & 255 : 0, i < got.size() ? got[i] & 255 : 0, i < 3200 ? want[i] & 255 : 0);
        c.count(na > ne ? "texts_ascii" : na < ne ? "texts_ebcdic" : "texts_tied");
        (void)ff;
    }
    c.check(!piol->log->isErr(), "C19,C04", "spurious-error", "an error was recorded although every operation succeeded");
    c.evaluation(hash_bytes(raw.data(), raw.size()) ^ splitmix(c.np + 9));
    if (c.rank == 0) c.sample(what + ": " + std::to_string(na) + " characters printable as ASCII, " + std::to_string(ne) + " as EBCDIC");
    barrier();
}
