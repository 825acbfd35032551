// Bounded contract checks for the bit sets and the edge utilities, against plain
// standard-library sets.   bits SUITE SEED SECONDS [INDEX]
#include <detail/gbits.h>
#include <detail/utils.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <sstream>
#include <string>

using namespace cliquematch::detail;
typedef std::set<u64> S;
static std::ostringstream desc;
static u64 cur_index;
static const char* suite;

static void fail(const char* label, const std::string& msg)
{
    printf("{\"fail\": \"%s\", \"message\": \"%s\", \"case\": [{\"suite\": \"%s\", \"index\": %llu}, \"%s\"]}\n", label, msg.c_str(), suite,
           (unsigned long long)cur_index, desc.str().c_str());
    fflush(stdout);
    _Exit(1);
}
static std::string str(const S& s)
{
    std::ostringstream o;
    o << "{";
    for (u64 x : s) o << x << " ";
    o << "}";
    return o.str();
}

static const u64 G = 3;  // guard words on both sides, besides the sanitizer

struct Set
{
    u64 n;
    std::vector<u64> mem;
    graphBits b;
    S s;
    Set(u64 n, std::mt19937_64& r) : n(n), mem(2 * G + (n + 63) / 64)
    {
        for (auto& x : mem) x = r();
        b.refer_from(mem.data() + G, n, true);
    }
    void guards(const std::vector<u64>& before, const char* what)
    {
        for (u64 k = 0; k < G; k++)
            if (mem[k] != before[k] || mem[mem.size() - 1 - k] != before[mem.size() - 1 - k])
                fail("P14", std::string(what) + " wrote outside the set");
    }
    void check(const char* what)
    {
        for (u64 i = 0; i < n; i++)
            if (b[i] != (s.count(i) != 0)) fail("P14", std::string(what) + ": membership of " + std::to_string(i) + " is wrong, expected " + str(s));
        if (b.count() != s.size()) fail("P14", std::string(what) + ": count is " + std::to_string(b.count()) + ", expected " + str(s));
        for (u64 i = 0; i < n; i++)
        {
            auto it = s.lower_bound(i);
            u64 got = b.next(i);
            if (it != s.end() ? got != *it : got < n)
                fail("P14", std::string(what) + ": next from " + std::to_string(i) + " is " + std::to_string(got) + ", expected " + str(s));
        }
        for (u64 k = 0; k < (n + 63) / 64; k++)
        {
            bool e = s.lower_bound(64 * k) == s.lower_bound(64 * k + 64);
            if (e != b.block_empty(64 * k)) fail("P14", std::string(what) + ": block_empty is wrong, expected " + str(s));
        }
        std::vector<u64> names(n), want;
        for (u64 i = 0; i < n; i++) names[i] = 1000 + 3 * i;
        for (u64 i : s) want.push_back(1000 + 3 * i);
        if (b.get_subset(names) != want || b.get_subset(names.data(), n) != want)
            fail("P14", std::string(what) + ": the listed subset is wrong, expected " + str(s));
    }
};

static bool case_bits(std::mt19937_64& r, u64 k)
{
    u64 n = k < 300 ? k % 150 : r() % 400;
    if (k >= 300 && r() % 3 == 0) n = 64 * (r() % 5);
    desc << "length " << n << ":";
    Set a(n, r), c(n, r);
    u64 dens = r() % 4;
    for (u64 step = 0; step < 12 + n; step++)
    {
        if (n == 0) break;
        u64 i = r() % n;
        if (dens == 0 && r() % 2) i = n - 1 - i % std::min<u64>(n, 3);
        std::vector<u64> before = a.mem;
        switch (r() % 12)
        {
            case 0: case 1: case 2: case 3:
                desc << " set " << i; a.b.set(i); a.s.insert(i); a.guards(before, "set"); break;
            case 4: case 5:
                desc << " reset " << i; a.b.reset(i); a.s.erase(i); a.guards(before, "reset"); break;
            case 6:
                desc << " toggle " << i; a.b.toggle(i); if (!a.s.erase(i)) a.s.insert(i); a.guards(before, "toggle"); break;
            default:
                desc << " other.set " << i; c.b.set(i); c.s.insert(i);
        }
    }
    a.check("single elements");
    c.check("single elements");
    std::vector<u64> before = a.mem;
    S x;
    switch (r() % 9)
    {
        case 0:
            desc << " and"; a.b &= c.b;
            for (u64 i : a.s) if (c.s.count(i)) x.insert(i);
            break;
        case 1:
            desc << " or"; a.b |= c.b; x = a.s; x.insert(c.s.begin(), c.s.end()); break;
        case 2:
            desc << " xor"; a.b ^= c.b; x = a.s;
            for (u64 i : c.s) if (!x.erase(i)) x.insert(i);
            break;
        case 3:
            desc << " difference"; a.b -= c.b;
            for (u64 i : a.s) if (!c.s.count(i)) x.insert(i);
            break;
        case 4: desc << " clear"; a.b.clear(); break;
        case 5: desc << " copy_data"; a.b.copy_data(c.b); x = c.s; break;
        case 6: desc << " copy_from"; a.b.copy_from(c.b, a.mem.data() + G); x = c.s; break;
        case 7:
        {
            desc << " refer_from and reset through it";
            graphBits v;
            v.refer_from(a.b);
            x = a.s;
            if (n) { v.reset(n - 1); x.erase(n - 1); }
            break;
        }
        case 8:
        {
            desc << " construct clean";
            graphBits v(a.mem.data() + G, n, true);
            if (n) { v.set(n / 2); x.insert(n / 2); }
            break;
        }
    }
    a.s = x;
    a.guards(before, "operation");
    a.check("operation");
    c.check("other operand");
    return n > 0;
}

static bool case_edges(std::mt19937_64& r, u64 k)
{
    u64 n = 1 + (k % 3 ? r() % 12 : r() % 300);
    u64 m = r() % (k % 5 ? 30 : 700);
    if (k % 50 == 0) { n = 70000; m = r() % 3000; }
    std::pair<std::vector<u64>, std::vector<u64>> e;
    std::set<std::pair<u64, u64>> want;
    auto add = [&](u64 a, u64 b) { e.first.push_back(a); e.second.push_back(b); };
    for (u64 v = 0; v <= n; v++) { add(v, v); want.insert(std::make_pair(v, v)); }
    desc << "vertices " << n << ":";
    for (u64 i = 0; i < m && n; i++)
    {
        u64 a = 1 + r() % n, b = 1 + r() % n;
        if (i < 400) desc << " " << a << "-" << b;
        add(a, b); add(b, a);
        want.insert(std::make_pair(a, b)); want.insert(std::make_pair(b, a));
    }
    if (r() % 2)
        for (u64 i = e.first.size(); i > 1; i--)
        {
            u64 j = r() % i;
            std::swap(e.first[i - 1], e.first[j]);
            std::swap(e.second[i - 1], e.second[j]);
        }
    clean_edges(n, e);
    if (e.first.size() != want.size() || e.second.size() != want.size())
        fail("P07", "clean_edges left " + std::to_string(e.first.size()) + " entries, expected " + std::to_string(want.size()));
    u64 i = 0;
    for (auto& p : want)
    {
        if (e.first[i] != p.first || e.second[i] != p.second)
            fail("P07", "entry " + std::to_string(i) + " is " + std::to_string(e.first[i]) + "-" + std::to_string(e.second[i]) + ", expected " +
                            std::to_string(p.first) + "-" + std::to_string(p.second));
        i++;
    }
    // searching a sorted list
    std::vector<u64> a;
    u64 len = 1 + r() % 20, v = r() % 3;
    for (u64 i = 0; i < len; i++) { a.push_back(v); v += 1 + r() % 3; }
    for (u64 x = 0; x <= v + 1; x++)
    {
        u64 loc = 12345;
        auto f = binary_find(a.data(), len, x, loc);
        bool in = std::find(a.begin(), a.end(), x) != a.end();
        if ((f == FOUND) != in || (in && a[loc] != x)) fail("P07", "binary_find of " + std::to_string(x) + " is wrong");
    }
    return m > 0;
}

int main(int argc, char** argv)
{
    suite = argv[1];
    u64 seed = atoll(argv[2]);
    double secs = atof(argv[3]);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    u64 n = 0, nt = 0;
    std::set<std::string> seen;
    std::string sample;
    for (u64 k = argc > 4 ? atoll(argv[4]) : 0;; k++)
    {
        if (argc > 4 ? n : el() > secs && n > 300) break;
        cur_index = k;
        desc.str("");
        std::mt19937_64 r(seed * 1000003 + k);
        bool t = !strcmp(suite, "bits") ? case_bits(r, k) : case_edges(r, k);
        n++;
        if (t && seen.size() < 200000 && seen.insert(desc.str().substr(0, 400)).second) nt++;
        if (t && (sample.empty() || desc.str().size() < sample.size())) sample = desc.str();
    }
    printf("{\"ok\": true, \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"bound\": \"%s\", \"sample\": [{\"suite\": \"%s\"}, \"%s\"]}\n",
           (unsigned long long)n, (unsigned long long)nt,
           !strcmp(suite, "bits") ? "sets over all lengths 0..149, then random lengths below 400" : "random edge lists, up to 300 (every 50th: 70000) vertices",
           suite, sample.substr(0, 500).c_str());
    return 0;
}
