// values.cc - readings, groups and chains of alternatives as values: random
// histories of their operations against plain vectors (C28).
//
//   values SEED COUNT
// Output: "V kind TAB witness TAB detail", "S name count", "H hash", "DONE".

#include "lattice/lattice.h"
#include "lattice/pron-dag.h"
#include "output/sylout-raw.h"
#include "maybe.h"

#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

using namespace std;

static uint64_t rngState;
static uint32_t
rnd (uint32_t n)
{
    rngState += 0x9e3779b97f4a7c15ull;
    uint64_t z = rngState;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (uint32_t) ((z ^ (z >> 31)) % n);
}

static map<string, unsigned long> stat_;
static unsigned long nViol;
static set<size_t> distinct_;

static void
viol (const string& kind, const string& witness, const string& detail)
{
    if (nViol++ < 10) cout << "V " << kind << '\t' << witness << '\t' << detail << endl;
}

// model values; a syllable's place depends on its sounds only, so that equal
// readings are equal in every respect
typedef vector<string> MS;
struct MF { vector<MS> alts; int end = -1; };
typedef vector<MF> MC;
typedef vector<MC> ML;

static const char* codes[] = { "k_a_1", "n_om0", "krok1", "?_in0", "m_C_0", "(x)", "(yz)" };
static int place (int k) { return 1 + k * k % 11; }

static string
name (const Syl& s)
{
    string t;
    if (s.isLiteral()) { for (auto c : s.literal()) t += (char) c; t = "(" + t + ")"; }
    else t = RawSylOutput().output (s).substr (0, 5);
    return t + "@" + to_string (s.endPos());
}

static Syl
make (int k)
{
    string c = codes[k];
    return c[0] == '(' ? Syl (place (k), k == 5 ? u"x" : u"yz") : Syl (c, place (k));
}

static MS ms (const SylString& s) { MS r; for (auto& y : s) r.push_back (name (y)); return r; }
static MF mf (const PronunFrac& f) { MF r; for (auto& s : f) r.alts.push_back (ms (s)); r.end = f.endPos(); return r; }
static MC mc (const PronunChain& c) { MC r; for (auto& f : c) r.push_back (mf (f)); return r; }
static ML ml (const PronunLatt& l) { ML r; for (auto& c : l) r.push_back (mc (c)); return r; }

static bool sameF (const MF& a, const MF& b, bool ends)
{
    return set<MS> (a.alts.begin(), a.alts.end()) == set<MS> (b.alts.begin(), b.alts.end()) && a.alts.size() == b.alts.size() && (!ends || a.end == b.end);
}
static bool sameC (const MC& a, const MC& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!sameF (a[i], b[i], true)) return false;
    return true;
}
static bool sameL (const ML& a, const ML& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!sameC (a[i], b[i])) return false;
    return true;
}

static void addAlt (MF& f, const MS& s) { if (find (f.alts.begin(), f.alts.end(), s) == f.alts.end()) f.alts.push_back (s); }

static multiset<MS>
expansion (const MC& c)
{
    vector<MS> acc (1);
    for (auto& f : c) {
        vector<MS> next;
        for (auto& a : acc) for (auto& s : f.alts) { MS t = a; t.insert (t.end(), s.begin(), s.end()); next.push_back (t); }
        acc.swap (next);
    }
    return multiset<MS> (acc.begin(), acc.end());
}

static size_t ways (const MC& c) { size_t n = 1; for (auto& f : c) { n *= f.alts.size(); if (n > 5000) return n; } return n; }

// merging keeps what a chain stands for, and the real groups in it
static void
merged (const MC& before, const MC& after, const string& w)
{
    if (ways (before) <= 2000 && expansion (before) != expansion (after)) viol ("merge", w, "merging single pieces changes the readings");
    vector<set<MS>> a, b;
    for (auto& f : before) if (f.alts.size() != 1) a.push_back (set<MS> (f.alts.begin(), f.alts.end()));
    for (auto& f : after) if (f.alts.size() != 1) b.push_back (set<MS> (f.alts.begin(), f.alts.end()));
    if (a != b) viol ("merge", w, "merging single pieces changes a group");
    if (after.size() > before.size()) viol ("merge", w, "merging makes a chain longer");
    ++stat_["merges"];
}

static void
history ()
{
    const int N = 3;
    vector<SylString> S (N); vector<PronunFrac> F (N); vector<PronunChain> C (N); vector<PronunLatt> L (N);
    vector<MS> s (N); vector<MF> f (N); vector<MC> c (N); vector<ML> l (N);
    string w;
    int len = 4 + rnd (30);
    for (int n = 0; n < len && !nViol; ++n) {
        int i = rnd (N), j = rnd (N), k = rnd (7), op = rnd (34);
        string what = to_string (op) + ":" + to_string (i) + to_string (j) + to_string (k);
        switch (op) {
        // readings
        case 0: case 1: S[i] += make (k); s[i].push_back (name (make (k))); break;
        case 2: if (s[i].size() + s[j].size() > 12) continue; S[i] += S[j]; { MS t = s[j]; s[i].insert (s[i].end(), t.begin(), t.end()); } break;
        case 3: S[i] = make (k); s[i] = { name (make (k)) }; break;
        case 4: S[i] = S[j]; s[i] = s[j]; break;
        case 5: S[i] = SylString (make (k)); s[i] = { name (make (k)) }; break;
        case 6: { SylString t (S[j]); SylString u (move (t)); S[i] = u; s[i] = s[j]; break; }
        case 7: { if (s[i].empty()) continue; int m = rnd (s[i].size()); auto it = S[i].begin(); advance (it, m); S[i] = *it; string t = s[i][m]; s[i] = { t }; break; }
        case 8: { if (s[i].empty()) continue; int m = rnd (s[i].size()); auto it = S[i].begin(); advance (it, m); S[i] += *it; string t = s[i][m]; s[i].push_back (t); break; }
        case 9: {
            // moving a copy moves each of its syllables and nothing else
            SylString t (S[i]); int off = rnd (40);
            if (!doShift (t, off, 0)) continue;
            auto a = S[i].begin(); auto b = t.begin();
            for (; a != S[i].end() && b != t.end(); ++a, ++b) if (*a != *b || b->endPos() != a->endPos() + off) break;
            if (a != S[i].end() || b != t.end()) viol ("shift", w + what, "shifted copy is wrong");
            break; }
        // groups
        case 10: case 11: case 12: if (s[j].empty() || f[i].alts.size() > 5) continue; F[i] += S[j]; addAlt (f[i], s[j]); break;
        case 13: if (f[i].alts.size() + f[j].alts.size() > 8) continue; F[i] += F[j]; { MF t = f[j]; for (auto& x : t.alts) addAlt (f[i], x); } break;
        case 14: F[i] = F[j]; f[i] = f[j]; break;
        case 15: if (s[j].empty()) continue; F[i] = S[j]; f[i].alts = { s[j] }; f[i].end = S[j].endPos(); break;
        case 16: if (s[j].empty()) continue; F[i] = PronunFrac (k, S[j]); f[i].alts = { s[j] }; f[i].end = k; break;
        case 17: { PronunFrac t (F[j]); PronunFrac u (move (t)); F[i] = u; f[i] = f[j]; break; }
        case 18: if (doSetEnd (F[i], k, 0)) f[i].end = k; break;
        case 19: { if (f[i].alts.empty()) continue; int m = rnd (f[i].alts.size()); auto it = F[i].begin(); advance (it, m); MS t = ms (*it); int e = it->endPos(); F[i] = *it; f[i].alts = { t }; f[i].end = e; break; }
        case 20: { if (f[i].alts.empty()) continue; auto it = F[i].begin(); advance (it, rnd (f[i].alts.size())); F[i] += *it; break; }
        // chains
        case 21: case 22: case 23: if (f[j].alts.empty() || c[i].size() > 6) continue; C[i] += F[j]; c[i].push_back (f[j]); break;
        case 24: if (c[i].size() + c[j].size() > 8) continue; C[i] += C[j]; { MC t = c[j]; c[i].insert (c[i].end(), t.begin(), t.end()); } break;
        case 25: C[i] = C[j]; c[i] = c[j]; break;
        case 26: if (f[j].alts.empty()) continue; C[i] = PronunChain (F[j]); c[i] = { f[j] }; break;
        case 27: { PronunChain t (C[j]); PronunChain u (move (t)); C[i] = u; c[i] = c[j]; break; }
        case 28: C[i].mergeSingles(); { MC t = mc (C[i]); merged (c[i], t, w + what); c[i] = t; } break;
        // alternatives of chains
        case 29: case 30: if (l[i].size() > 4) continue; L[i] += C[j]; l[i].push_back (c[j]); break;
        case 31: L[i] = rnd (2) ? L[j] : PronunLatt (L[j]); l[i] = ML (l[j]); break;
        case 32: L[i] = PronunLatt (C[j]); l[i] = { c[j] }; break;
        case 33: {
            L[i].mergeSingles();
            ML t = ml (L[i]);
            if (t.size() != l[i].size()) viol ("merge", w + what, "merging changes the number of chains");
            else for (size_t m = 0; m < t.size(); ++m) merged (l[i][m], t[m], w + what);
            l[i] = t;
            break; }
        }
        w += what + " ";
        ++stat_["operations"];
        for (int m = 0; m < N; ++m) {
            if (ms (S[m]) != s[m]) viol ("reading", w, "reading " + to_string (m) + " is not what was put in");
            if (!sameF (mf (F[m]), f[m], true) || doCount (F[m], 0) != (int) f[m].alts.size()) viol ("group", w, "group " + to_string (m) + " is not what was put in");
            if (!sameC (mc (C[m]), c[m])) viol ("chain", w, "chain " + to_string (m) + " is not what was put in");
            if (!sameL (ml (L[m]), l[m]) || doCount (L[m], 0) != (int) l[m].size()) viol ("chains", w, "alternatives " + to_string (m) + " are not what was put in");
            for (int o = 0; o < N; ++o) {
                if ((S[m] == S[o]) != (s[m] == s[o]) || (S[m] != S[o]) == (S[m] == S[o])) viol ("reading", w, "wrong answer on equality of readings");
                if ((F[m] == F[o]) != sameF (f[m], f[o], false)) viol ("group", w, "wrong answer on equality of groups");
            }
            if (S[m].endPos() != (s[m].empty() ? 0 : atoi (s[m].back().substr (s[m].back().find ('@') + 1).c_str()))) viol ("reading", w, "end of a reading is not that of its last syllable");
        }
    }
    distinct_.insert (hash<string>() (w));
    ++stat_["histories"];
}

// graphs made from readings hold the syllables of those readings
static void
graph ()
{
    list<SylString> in;
    set<tuple<int, int, string>> want;
    string w;
    int at0 = rnd (3) ? 0 : rnd (5);
    PronunDAG d;
    for (int n = 1 + rnd (4); n > 0; --n) {
        SylString s;
        int from = at0;
        for (int m = 1 + rnd (4); m > 0; --m) {
            int k = rnd (5), to = from + 1 + rnd (3);
            Syl y (codes[k], to);
            want.insert (make_tuple (from, to, name (y)));
            s += y;
            w += name (y) + ",";
            from = to;
        }
        w += ";";
        if (at0 == 0) in.push_back (s); else if (!doAdd (d, at0, s, 0)) return;
    }
    PronunDAG e (in);
    if (at0 == 0) d.unionDAG (e);
    set<tuple<int, int, string>> got;
    size_t n = 0;
    for (auto it = d.outBegin(); it != d.outEnd(); ++it, ++n) got.insert (make_tuple (it->first, it->second.target, name (it->second.edgeVal)));
    if (got != want || n != got.size()) viol ("graph", w, "graph made from readings does not hold their syllables");
    distinct_.insert (hash<string>() (w));
    ++stat_["graphs"];
}

// sizes no ordinary text reaches
static void
large (int n)
{
    const string w = to_string (n) + " pieces";
    vector<SylString> all;
    for (int i = 0; i < n; ++i) {
        u16string t;
        for (int k = i + 1; k; k /= 20) t += (char16_t) (u'a' + k % 20);
        all.push_back (SylString (Syl (7, t)));
    }
    PronunFrac up, down, half, most;
    for (int i = 0; i < n; ++i) {
        up += all[i];
        down += all[n - 1 - i];
        if (i % 2) half += all[i];
        if (i != n / 2) most += all[i];
    }
    PronunFrac both = half;
    for (int i = 0; i < n; i += 2) both += all[i];
    half += up;
    set<MS> want;
    for (auto& a : all) want.insert (ms (a));
    for (auto f : { &up, &down, &half, &both }) {
        MF m = mf (*f);
        if (doCount (*f, 0) != n || (int) m.alts.size() != n || set<MS> (m.alts.begin(), m.alts.end()) != want) viol ("large", w, "a large group is not what was put in");
        if (!(*f == up) || *f == most || most == *f) viol ("large", w, "wrong answer on equality of large groups");
    }
    if (doCount (most, 0) != n - 1) viol ("large", w, "wrong number of alternatives in a large group");

    SylString whole, again;
    PronunChain chain, other;
    MS ws;
    for (int i = 0; i < n; ++i) {
        whole += all[i];
        ws.push_back (name (*all[i].begin()));
        PronunFrac one;
        one = all[i];
        if (i == 0) chain = PronunChain (one); else chain += PronunChain (one);
    }
    again = whole;
    if (ms (whole) != ws || !(again == whole)) viol ("large", w, "a long reading is not what was put in");
    again += all[0];
    if (again == whole || again < whole || !(whole < again)) viol ("large", w, "a long reading and a longer one are mistaken");
    if ((int) mc (chain).size() != n) viol ("large", w, "a long chain is not what was put in");
    other = chain;
    other.mergeSingles();
    MC m = mc (other);
    if (m.size() != 1 || m[0].alts.size() != 1 || m[0].alts[0] != ws) viol ("large", w, "merging a long chain changes it");
    PronunLatt latt;
    for (int i = 0; i < n; ++i) {
        PronunFrac one;
        one = all[i];
        latt += PronunChain (one);
    }
    ML l = ml (latt);
    if (doCount (latt, 0) != n || (int) l.size() != n) viol ("large", w, "a large set of chains is not what was put in");
    distinct_.insert (hash<string>() (w));
    ++stat_["large"];
}

int
main (int argc, char** argv)
{
    if (argc < 3) return 3;
    rngState = strtoull (argv[1], nullptr, 10) * 7919 + 13;
    for (int n = atoi (argv[2]); n > 0 && !nViol; --n) { history(); graph(); }
    for (int n : { 100, 260, 300, 520, 700, 1030 }) large (n + (int) rnd (50));
    for (auto& s : stat_) cout << "S " << s.first << ' ' << s.second << '\n';
    for (auto& h : distinct_) cout << "H " << h << '\n';
    cout << "DONE" << endl;
    return 0;
}
